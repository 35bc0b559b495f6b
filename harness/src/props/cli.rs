//! P01-P07: the programs pw_diff and pw_patch.

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::Index;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::fs::symlink;
use std::path::{Path, PathBuf};

use super::files::{contents, file_case, named_case, saved_value, spelled, Content, FileCase, NamedCase, NAMES};
use super::seqs::{index2, Index2};
use crate::cmd::*;
use crate::engine::*;
use crate::gen::*;
use crate::logcap::{captured, hunk_number, outcomes, Told};
use crate::model::{apply_bytes, apply_text, byte_patch, text_patch};
use crate::{ensure, ensure_eq, scratch};

use pw_diff_lib::apply_bytes::ApplyClumpsClean;
use pw_diff_lib::apply_text::ApplyClumpsFuzzy;
use pw_diff_lib::diff::Diff;

type Tree = BTreeMap<PathBuf, Option<Vec<u8>>>;

/// A scratch directory holding a working directory and a place for a patch next to it.
struct World {
    root: PathBuf,
    work: PathBuf,
}

fn io<T>(r: std::io::Result<T>) -> Result<T, String> {
    r.map_err(|e| format!("set-up: {e}"))
}

impl World {
    fn new() -> Result<World, String> {
        unprivileged(); // sets the umask
        let root = scratch::fresh("cli");
        let work = root.join("work");
        io(std::fs::create_dir(&work))?;
        Ok(World { root, work })
    }
    fn clear(&self) -> Result<(), String> {
        io(std::fs::remove_dir_all(&self.work))?;
        io(std::fs::create_dir(&self.work))
    }
    fn put(&self, name: impl AsRef<Path>, content: &Content) -> Result<(), String> {
        let p = self.work.join(name);
        io(std::fs::create_dir_all(p.parent().unwrap()))?;
        if let Some(c) = content {
            io(std::fs::write(p, c))?;
        }
        Ok(())
    }
    /// Files of others, named as a program might name its own beside `name`.
    fn neighbours(&self, name: impl AsRef<Path>) -> CheckResult {
        use std::os::unix::ffi::{OsStrExt, OsStringExt};
        let name = name.as_ref();
        let base = name.file_name().map_or(&b""[..], |n| n.as_bytes());
        let home = name.parent().unwrap_or(Path::new(""));
        let affixes: [(&str, &str); 16] = [
            ("", "~"), ("", ".orig"), ("", ".rej"), ("", ".bak"), ("", ".tmp"), ("", ".temp"), ("", ".new"), ("", ".old"),
            ("", ".patch"), ("", ".diff"), (".", ""), (".", ".tmp"), (".", ".swp"), ("#", "#"), ("", ".part"), ("", ".lock"),
        ];
        let mut all: Vec<PathBuf> = ["tmp", "temp", ".tmp", "temp.tmp", "pw_patch.tmp", ".pw_patch", ".pw_patch.tmp", "patch", "patch.tmp", "out", "output", "patched", "bystander"]
            .iter()
            .map(PathBuf::from)
            .collect();
        for dir in [home, Path::new("")] {
            for (pre, post) in affixes {
                let n = [pre.as_bytes(), base, post.as_bytes()].concat();
                if n.len() <= 255 && !base.is_empty() {
                    all.push(dir.join(std::ffi::OsString::from_vec(n)));
                }
            }
        }
        for p in all {
            let full = self.work.join(&p);
            if std::fs::symlink_metadata(&full).is_err() && p != name {
                let text = format!("not mine: {}\n", p.display()).into_bytes();
                io(std::fs::write(full, text))?;
            }
        }
        Ok(())
    }
    fn patch_file(&self, text: &[u8]) -> Result<(), String> {
        io(std::fs::write(self.root.join("patch"), text))
    }
    fn tree(&self) -> Tree {
        scratch::tree(&self.work)
    }
    fn diff(&self, a: impl IntoIterator<Item = impl AsRef<std::ffi::OsStr>>) -> Spec {
        Spec::new("pw_diff", args(a), &self.work)
    }
    fn patch(&self, reverse: bool) -> Spec {
        let mut a = args(["--", "../patch"]);
        if reverse {
            a.insert(0, "--reverse".into());
        }
        Spec::new("pw_patch", a, &self.work)
    }
}

fn with(tree: &Tree, name: impl AsRef<Path>, content: &Content) -> Tree {
    let mut t = tree.clone();
    match content {
        Some(c) => t.insert(name.as_ref().to_path_buf(), Some(c.clone())),
        None => t.remove(name.as_ref()),
    };
    t
}

/// A run that fails says why.
fn says_why(what: &str, r: &Run) -> CheckResult {
    let failed = r.code.is_some_and(|c| c != 0);
    ensure!(!failed || r.stderr.iter().any(|b| !b.is_ascii_whitespace()), "{what}: {} without a message", r.status());
    Ok(())
}

/// What differs between two trees, briefly.
fn differ(got: &Tree, want: &Tree) -> Option<String> {
    let mut out = vec![];
    for (p, c) in want {
        match got.get(p) {
            None => out.push(format!("{p:?} is missing")),
            Some(g) if g != c => out.push(format!("{p:?} holds {}, expected {}", brief(g), brief(c))),
            _ => {}
        }
    }
    for p in got.keys() {
        if !want.contains_key(p) {
            out.push(format!("{p:?} is left behind"));
        }
    }
    (!out.is_empty()).then(|| out.join("; "))
}

fn brief(c: &Option<Vec<u8>>) -> String {
    match c {
        None => "a directory".into(),
        Some(v) => format!("{:?}", String::from_utf8_lossy(v).chars().take(120).collect::<String>()),
    }
}

fn same(what: &str, got: &Tree, want: &Tree) -> CheckResult {
    match differ(got, want) {
        None => Ok(()),
        Some(d) => Err(format!("{what}: {d}")),
    }
}

// ---------------------------------------------------------------- P01, P02

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct CliCase {
    pub files: FileCase,
    pub verbose: u8,
    /// leave -c out if the context is the default
    pub short: bool,
    pub bystander: bool,
    /// surroundings (see `SURROUNDINGS`)
    #[serde(default)]
    pub env: usize,
}

/// Environments in which nothing is different.
const SURROUNDINGS: &[&[(&str, &str)]] = &[
    &[],
    &[("TMPDIR", "/nonexistent/tmp"), ("TMP", "/nonexistent/tmp"), ("TEMP", "/nonexistent/tmp")],
    &[("TMPDIR", "/proc"), ("HOME", "/nonexistent")],
    &[("TMPDIR", ""), ("HOME", ""), ("PATH", "")],
    &[("LANG", "de_DE.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("TZ", "Asia/Kolkata")],
    &[("LC_ALL", "C"), ("TERM", "dumb"), ("COLUMNS", "10"), ("NO_COLOR", "1")],
    &[("RUST_LOG", "off"), ("RUST_BACKTRACE", "full"), ("PWD", "/nonexistent")],
    &[("POSIXLY_CORRECT", "1"), ("PATCH_GET", "1"), ("SIMPLE_BACKUP_SUFFIX", ".orig"), ("VERSION_CONTROL", "numbered")],
];

fn surroundings(n: usize) -> Vec<(&'static str, String)> {
    SURROUNDINGS[n].iter().map(|(k, v)| (*k, v.to_string())).collect()
}

fn cli_case() -> BoxedStrategy<CliCase> {
    let env = prop_oneof![3 => Just(0), 2 => 0..SURROUNDINGS.len()];
    (file_case(), prop_oneof![4 => Just(0u8), 1 => 1u8..5], any::<bool>(), any::<bool>(), env)
        .prop_map(|(files, verbose, short, bystander, env)| CliCase { files, verbose, short, bystander, env })
        .boxed()
}

/// Files larger than any buffer on the way.
fn large_contents(max: u32) -> BoxedStrategy<(Content, Content)> {
    (
        prop_oneof![
            2 => many_changes(max),
            1 => many_changes(max).prop_map(|mut h| {
                h.every = 0;
                h
            })
        ],
        0u8..3,
        prop_oneof![4 => Just((true, true)), 1 => Just((true, false)), 1 => Just((false, true))],
    )
        .prop_map(|(mut h, kind, (x, y))| {
            let (b, a) = match kind {
                0 => {
                    // long lines
                    let t = h.text();
                    let pad = "=".repeat(60);
                    let f = |s: String| s.replace('\n', &format!(" {pad}\n")).into_bytes();
                    (f(t.before), f(t.after))
                }
                1 => {
                    let t = h.text();
                    (t.before.into_bytes(), t.after.into_bytes())
                }
                _ => {
                    // comparing bytes takes far longer than comparing as many lines
                    h.n = 8_200 + h.n.min(1_000);
                    h.every = if h.every == 0 { 0 } else { h.every * 400 };
                    let t = h.bytes();
                    (t.before, t.after)
                }
            };
            (x.then_some(b), y.then_some(a))
        })
        .boxed()
}

fn large_case() -> BoxedStrategy<CliCase> {
    (cli_case(), large_contents(3_000))
        .prop_map(|(mut c, (b, a))| {
            c.files.before = b;
            c.files.after = a;
            c
        })
        .boxed()
}

/// Around a power of two in size.
fn big_case() -> BoxedStrategy<CliCase> {
    (cli_case(), big(22, 17, true))
        .prop_map(|(mut c, b)| {
            (c.files.before, c.files.after) = b.contents();
            c
        })
        .boxed()
}

/// A change of a binary file of more than 65536 bytes.
fn big_binary_case() -> BoxedStrategy<CliCase> {
    (cli_case(), 65_540u32..70_000, any::<u32>(), vec((0u32..70_000, 0u32..4, 0u32..4), 1..4))
        .prop_map(|(mut c, n, seed, edits)| {
            let mut x = seed | 1;
            let before: Vec<u8> = (0..n)
                .map(|_| {
                    x ^= x << 13;
                    x ^= x >> 17;
                    x ^= x << 5;
                    (x >> 11) as u8
                })
                .collect();
            let mut after = before.clone();
            for (at, del, ins) in edits {
                let at = (at as usize).min(after.len());
                let end = (at + del as usize).min(after.len());
                after.splice(at..end, (0..ins).map(|i| 255 - i as u8));
            }
            c.files.before = Some(before);
            c.files.after = Some(after);
            c
        })
        .boxed()
}

fn set_up(c: &CliCase) -> Result<(World, &'static str, &'static str), String> {
    let w = World::new()?;
    let (b, a) = (NAMES[c.files.names.0], NAMES[c.files.names.1]);
    w.put(b, &c.files.before)?;
    w.put(a, &c.files.after)?;
    if c.bystander {
        w.put("d/bystander", &Some(vec![0xff, 0]))?;
        // never in the place of a file that is absent
        let absent: Vec<&str> = [(b, &c.files.before), (a, &c.files.after)].iter().filter(|x| x.1.is_none()).map(|x| x.0).collect();
        w.neighbours(b)?;
        for n in absent {
            let _ = std::fs::remove_file(w.work.join(n));
        }
    }
    Ok((w, b, a))
}

fn diff_args(c: &CliCase, b: &str, a: &str) -> Vec<std::ffi::OsString> {
    let mut v: Vec<String> = vec![];
    for _ in 0..c.verbose {
        v.push("-v".into());
    }
    if c.files.ctx != 2 || !c.short {
        if c.short {
            v.push(format!("-c{}", c.files.ctx));
        } else {
            v.push("--context".into());
            v.push(c.files.ctx.to_string());
        }
    }
    v.extend(["--".to_string(), b.to_string(), a.to_string()]);
    args(v)
}

fn make_patch(w: &World, c: &CliCase, b: &str, a: &str) -> CheckResult {
    let before = w.tree();
    let mut s = Spec::new("pw_diff", diff_args(c, b, a), &w.work);
    s.env = surroundings(c.env);
    let r = s.run();
    ensure!(r.ok(), "pw_diff: {}", r.show());
    same("after pw_diff", &w.tree(), &before)?;
    w.patch_file(&r.stdout)
}

fn apply_cli(w: &World, c: &CliCase, reverse: bool) -> Run {
    let mut s = w.patch(reverse);
    for _ in 0..c.verbose {
        s.args.insert(0, "--verbose".into());
    }
    s.env = surroundings(c.env);
    s.run()
}

fn note(c: &CliCase, o: &mut Obs) {
    o.nontrivial = c.files.before != c.files.after;
    o.label(match (&c.files.before, &c.files.after) {
        (Some(_), Some(_)) => "change",
        (None, _) => "addition",
        (_, None) => "removal",
    });
    let bin = |x: &Content| x.as_ref().is_some_and(|v| std::str::from_utf8(v).is_err());
    o.label_if(bin(&c.files.before) || bin(&c.files.after), "binary");
    o.label_if(unprivileged(), "run as an unprivileged user");
}

fn p01(c: &CliCase, o: &mut Obs) -> CheckResult {
    note(c, o);
    let (w, b, a) = set_up(c)?;
    let old = w.tree();
    make_patch(&w, c, b, a)?;
    let r = apply_cli(&w, c, false);
    ensure!(r.ok(), "pw_patch: {}", r.show());
    same("after pw_patch", &w.tree(), &with(&old, b, &c.files.after))
}

fn p02(c: &CliCase, o: &mut Obs) -> CheckResult {
    note(c, o);
    let (w, b, a) = set_up(c)?;
    let old = w.tree();
    make_patch(&w, c, b, a)?;
    let new = with(&old, b, &c.files.after);
    // once after having applied it, once on a tree that was never patched
    let r = apply_cli(&w, c, false);
    ensure!(r.ok(), "pw_patch: {}", r.show());
    let r = apply_cli(&w, c, true);
    ensure!(r.ok(), "pw_patch --reverse: {}", r.show());
    same("after pw_patch --reverse", &w.tree(), &old)?;
    w.put(b, &c.files.after)?;
    if c.files.after.is_none() {
        io(std::fs::remove_file(w.work.join(b)))?;
    }
    same("set-up", &w.tree(), &new)?;
    let r = apply_cli(&w, c, true);
    ensure!(r.ok(), "pw_patch --reverse alone: {}", r.show());
    same("after pw_patch --reverse alone", &w.tree(), &old)?;
    // and forwards again
    let r = apply_cli(&w, c, false);
    ensure!(r.ok(), "pw_patch again: {}", r.show());
    same("after pw_patch again", &w.tree(), &new)
}

/// Any path, however spelled.
fn p01_named(c: &NamedCase, o: &mut Obs) -> CheckResult {
    o.nontrivial = true;
    o.label_if(c.same(), "one path given twice");
    let w = World::new()?;
    w.put(c.second.plain(), &c.after)?;
    w.put(c.first.plain(), &c.before)?;
    w.put("bystander", &Some(b"not mine\n".to_vec()))?;
    if c.before.is_none() && c.after.is_none() {
        return Ok(());
    }
    let old = w.tree();
    let r = w.diff(["-c".as_ref(), c.ctx.to_string().as_ref(), "--".as_ref(), c.first.path().as_os_str(), c.second.path().as_os_str()]).run();
    ensure!(r.ok(), "pw_diff: {}", r.show());
    same("after pw_diff", &w.tree(), &old)?;
    w.patch_file(&r.stdout)?;
    let r = w.patch(false).run();
    ensure!(r.ok(), "pw_patch: {}", r.show());
    let new = with(&old, c.first.plain(), &c.after);
    same("after pw_patch", &w.tree(), &new)?;
    let r = w.patch(true).run();
    ensure!(r.ok(), "pw_patch --reverse: {}", r.show());
    same("after pw_patch --reverse", &w.tree(), &old)
}

/// Any path, reversed alone.
fn p02_named(c: &NamedCase, o: &mut Obs) -> CheckResult {
    o.nontrivial = true;
    o.label_if(c.same(), "one path given twice");
    if c.before.is_none() && c.after.is_none() {
        return Ok(());
    }
    let w = World::new()?;
    w.put(c.second.plain(), &c.after)?;
    w.put(c.first.plain(), &c.before)?;
    w.put("bystander", &Some(b"not mine\n".to_vec()))?;
    let old = w.tree();
    let new = with(&old, c.first.plain(), &c.after);
    let r = w.diff(["-c".as_ref(), c.ctx.to_string().as_ref(), "--".as_ref(), c.first.path().as_os_str(), c.second.path().as_os_str()]).run();
    ensure!(r.ok(), "pw_diff: {}", r.show());
    w.patch_file(&r.stdout)?;
    if c.after.is_none() {
        io(std::fs::remove_file(w.work.join(c.first.plain())))?;
    } else {
        w.put(c.first.plain(), &c.after)?;
    }
    same("set-up", &w.tree(), &new)?;
    let r = w.patch(true).run();
    ensure!(r.ok(), "pw_patch --reverse: {}", r.show());
    same("after pw_patch --reverse", &w.tree(), &old)?;
    let r = w.patch(false).run();
    ensure!(r.ok(), "pw_patch: {}", r.show());
    same("after pw_patch", &w.tree(), &new)?;
    let r = w.patch(true).run();
    ensure!(r.ok(), "pw_patch --reverse again: {}", r.show());
    same("after pw_patch --reverse again", &w.tree(), &old)
}

/// Paths that lead to the working directory and back, and a patch kept anywhere.
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct RootedCase {
    pub files: NamedCase,
    pub how: (u8, u8),
    /// where the patch is
    pub patch: u8,
    pub patch_name: Vec<u8>,
    pub reverse: bool,
}

fn rooted_case() -> BoxedStrategy<RootedCase> {
    (named_case(true), (0u8..6, 0u8..8), 0u8..7, spelled(false), any::<bool>())
        .prop_map(|(files, how, patch, patch_name, reverse)| RootedCase { files, how, patch, patch_name: patch_name.names[0].clone(), reverse })
        .boxed()
}

fn p01_rooted(c: &RootedCase, o: &mut Obs) -> CheckResult {
    rooted(c, false, o)
}

/// The same, undone alone.
fn p02_rooted(c: &RootedCase, o: &mut Obs) -> CheckResult {
    rooted(c, true, o)
}

fn rooted(c: &RootedCase, undo: bool, o: &mut Obs) -> CheckResult {
    use std::os::unix::ffi::OsStringExt;
    o.nontrivial = true;
    let f = &c.files;
    let w = World::new()?;
    io(symlink("work", w.root.join("via")))?;
    io(std::fs::create_dir(w.root.join("beside")))?;
    w.put("sub/x", &None)?;
    let lead = |how: u8, p: &Path| -> PathBuf {
        match how {
            0 => w.work.join(p),
            1 => Path::new("../work").join(p),
            2 => Path::new("sub/..").join(p),
            3 => Path::new("../via").join(p),
            4 => w.root.join("beside/../via").join(p),
            _ => p.to_path_buf(),
        }
    };
    w.put(f.second.plain(), &f.after)?;
    w.put(f.first.plain(), &f.before)?;
    if f.before.is_none() && f.after.is_none() {
        return Ok(());
    }
    let (b, mut a) = (lead(c.how.0, &f.first.path()), lead(if f.same() { c.how.0 } else { c.how.1 }, &f.second.path()));
    let mut old = w.tree();
    // the new content may also come from another program
    let new_piped = c.how.1 >= 6 && !f.same() && f.after.is_some();
    o.label_if(new_piped, "the new content through a pipe");
    if new_piped {
        a = "/dev/stdin".into();
    }
    let mut s = w.diff(["-c".as_ref(), f.ctx.to_string().as_ref(), "--".as_ref(), b.as_os_str(), a.as_os_str()]);
    s.input = f.after.clone().filter(|_| new_piped);
    let r = s.run();
    ensure!(r.ok(), "pw_diff {b:?} {a:?}: {}", r.show());
    same("after pw_diff", &w.tree(), &old)?;
    let mut new = with(&old, f.first.plain(), &f.after);
    // the patch, by any name, in or outside the working directory
    let name = PathBuf::from(std::ffi::OsString::from_vec(c.patch_name.clone()));
    let free = |p: &PathBuf| ![&f.first, &f.second].iter().any(|x| x.plain().starts_with(p)) && p != Path::new("sub");
    let (at, given) = match c.patch {
        0 if free(&name) => (w.work.join(&name), Path::new("./").join(&name)),
        1 if free(&name) => (w.work.join(&name), w.work.join(&name)),
        2 if name != Path::new("work") && name != Path::new("via") && name != Path::new("beside") => (w.root.join(&name), Path::new("..").join(&name)),
        3 => (w.root.join("beside").join(&name), w.root.join("beside").join(&name)),
        4 => {
            io(symlink(Path::new("beside").join(&name), w.root.join("link to the patch")))?;
            (w.root.join("beside").join(&name), PathBuf::from("../link to the patch"))
        }
        5 => (w.root.join("patch"), PathBuf::from("/dev/stdin")),
        _ => (w.root.join("patch"), PathBuf::from("sub/../../patch")),
    };
    let piped = given == Path::new("/dev/stdin");
    o.label_if(piped, "the patch through a pipe");
    io(std::fs::write(&at, &r.stdout))?;
    // a file of the same name where the patch is has nothing to do with it
    let namesake = at.with_file_name(f.first.plain().file_name().unwrap_or_default());
    let namesake = Some(namesake).filter(|x| !at.starts_with(&w.work) && std::fs::symlink_metadata(x).is_err());
    if let Some(x) = &namesake {
        o.label("a file of the same name beside the patch");
        io(std::fs::write(x, b"a namesake\n"))?;
    }
    let text = r.stdout.clone();
    if let Ok(p) = at.strip_prefix(&w.work) {
        old.insert(p.to_path_buf(), Some(r.stdout.clone()));
        new.insert(p.to_path_buf(), Some(r.stdout.clone()));
    }
    let run = |reverse: bool| {
        let mut v: Vec<std::ffi::OsString> = vec![];
        if reverse {
            v.push("-r".into());
        }
        v.push("--".into());
        v.push(given.clone().into());
        let mut s = Spec::new("pw_patch", v, &w.work);
        s.input = piped.then(|| text.clone());
        s.run()
    };
    if undo {
        if f.after.is_none() {
            io(std::fs::remove_file(w.work.join(f.first.plain())))?;
        } else {
            w.put(f.first.plain(), &f.after)?;
        }
        same("set-up", &w.tree(), &new)?;
    }
    for reverse in [undo, !undo] {
        if reverse != undo && !c.reverse {
            break;
        }
        let what = if reverse { "pw_patch -r" } else { "pw_patch" };
        let r = run(reverse);
        ensure!(r.ok(), "{what} {given:?}: {}", r.show());
        same(&format!("after {what}"), &w.tree(), if reverse { &old } else { &new })?;
        if let Some(x) = &namesake {
            ensure_eq!(std::fs::read(x).ok(), Some(b"a namesake\n".to_vec()), "{}: the file of the same name beside the patch", what);
        }
    }
    let most = 1 + namesake.is_some() as usize;
    ensure!(std::fs::read_dir(w.root.join("beside")).map_or(false, |d| d.count() <= most), "something left beside the patch");
    Ok(())
}

/// Several files patched at the same time in one directory.
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct TogetherCase {
    pub files: Vec<(Content, Content)>,
    pub ctx: u8,
    pub rounds: u8,
}

fn together_case() -> BoxedStrategy<TogetherCase> {
    let one = prop_oneof![3 => contents(), 1 => large_contents(1_300)];
    (vec(one, 2..7), ctx(), 1u8..3)
        .prop_map(|(files, ctx, rounds)| TogetherCase { files, ctx, rounds })
        .boxed()
}

fn p01_together(c: &TogetherCase, o: &mut Obs) -> CheckResult {
    o.nontrivial = c.files.iter().filter(|(b, a)| b != a).count() > 1;
    let w = World::new()?;
    let mut old = Tree::new();
    for (i, (b, a)) in c.files.iter().enumerate() {
        w.put(format!("f{i}"), b)?;
        w.put(format!("g{i}"), a)?;
    }
    old.extend(w.tree());
    let all = |program: &'static str, argv: &(dyn Fn(usize) -> Vec<std::ffi::OsString> + Sync)| -> Result<Vec<Run>, String> {
        let work = &w.work;
        let runs: Vec<Run> = std::thread::scope(|s| {
            let v: Vec<_> = (0..c.files.len()).map(|i| s.spawn(move || Spec::new(program, argv(i), work).run())).collect();
            v.into_iter().map(|t| t.join().expect("runner")).collect()
        });
        for (i, r) in runs.iter().enumerate() {
            ensure!(r.ok(), "{program} of file {i} with others: {}", r.show());
        }
        Ok(runs)
    };
    let ctx = c.ctx.to_string();
    let runs = all("pw_diff", &|i| args(["-c", &ctx, &format!("f{i}"), &format!("g{i}")]))?;
    same("after pw_diff", &w.tree(), &old)?;
    let mut new = old.clone();
    for (i, (r, (_, a))) in runs.iter().zip(&c.files).enumerate() {
        io(std::fs::write(w.root.join(format!("patch{i}")), &r.stdout))?;
        new = with(&new, format!("f{i}"), a);
    }
    for _ in 0..c.rounds {
        all("pw_patch", &|i| args([format!("../patch{i}")]))?;
        same("after patching all files at once", &w.tree(), &new)?;
        all("pw_patch", &|i| args(["-r".to_string(), format!("../patch{i}")]))?;
        same("after undoing all at once", &w.tree(), &old)?;
    }
    Ok(())
}

/// The output names the file given, or there is none.
fn p04_named(c: &NamedCase, o: &mut Obs) -> CheckResult {
    o.nontrivial = true;
    o.label_if(!c.utf8(), "names that are not UTF-8");
    o.label_if(c.same(), "one path given twice");
    let w = World::new()?;
    w.put(c.second.plain(), &c.after)?;
    w.put(c.first.plain(), &c.before)?;
    let old = w.tree();
    let r = w.diff(["-c".as_ref(), c.ctx.to_string().as_ref(), "--".as_ref(), c.first.path().as_os_str(), c.second.path().as_os_str()]).run();
    says_why("pw_diff", &r)?;
    same("after pw_diff", &w.tree(), &old)?;
    if r.ok() {
        ensure!(c.before.is_some() || c.after.is_some(), "neither file exists, but success is reported");
        good_diff(&r.stdout, &c.before, &c.after, c.first.path())?;
    } else {
        ensure!(r.code.is_some(), "{}", r.show());
        ensure!(!c.utf8() || (c.before.is_none() && c.after.is_none()), "pw_diff: {}", r.show());
    }
    Ok(())
}

// ---------------------------------------------------------------- D06

/// What was compared before in this process, and a pair of files.
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct ProcessCase {
    pub history: Vec<Huge>,
    pub before: Vec<u8>,
    pub after: Vec<u8>,
    pub ctx: u8,
}

fn process_case() -> BoxedStrategy<ProcessCase> {
    let pair = prop_oneof![
        4 => text_pair_contents().prop_map(|(b, a)| (b.into_bytes(), a.into_bytes())),
        2 => byte_pair_contents(),
        1 => long_text_pair().prop_map(|p| (p.before.into_bytes(), p.after.into_bytes())),
    ];
    let history = prop_oneof![2 => vec(many_changes(4_000), 0..2), 1 => vec(many_changes(9_000), 1..4)];
    (history, pair, ctx())
        .prop_map(|(history, (before, after), ctx)| ProcessCase { history, before, after, ctx })
        .boxed()
}

/// Other processes with other histories compute the same diff, and write it alike.
fn d06_process(c: &ProcessCase, o: &mut Obs) -> CheckResult {
    for h in &c.history {
        let t = h.text();
        let _ = text_patch(&t.before, &t.after, t.ctx);
    }
    let w = World::new()?;
    w.put("old", &Some(c.before.clone()))?;
    w.put("new", &Some(c.after.clone()))?;
    let (b, a) = (w.work.join("old"), w.work.join("new"));
    let d = Diff::new(&b, &a, c.ctx).map_err(|e| e.to_string())?;
    let mut here = vec![];
    d.to_writer(&mut here).map_err(|e| e.to_string())?;
    let here: Value = serde_json::from_slice(&here).map_err(|e| e.to_string())?;
    o.nontrivial = c.before != c.after;
    o.label_if(!c.history.is_empty(), "other diffs computed before");
    let mut first: Option<Vec<u8>> = None;
    for threads in ["", "1", "3"] {
        let mut s = w.diff(["-c".as_ref(), c.ctx.to_string().as_ref(), "--".as_ref(), b.as_os_str(), a.as_os_str()]);
        if !threads.is_empty() {
            s.env.push(("RAYON_NUM_THREADS", threads.into()));
        }
        let r = s.run();
        ensure!(r.ok(), "pw_diff: {}", r.show());
        match &first {
            None => {
                let there: Value = serde_json::from_slice(&r.stdout).map_err(|e| format!("pw_diff: {e}"))?;
                ensure_eq!(there, here, "diff computed by another process");
                first = Some(r.stdout);
            }
            Some(f) => ensure!(*f == r.stdout, "two processes write the diff differently"),
        }
    }
    Ok(())
}

/// pw_diff's hunks are those of the context size asked for, 2 if none is.
fn d04_cli(c: &CliCase, o: &mut Obs) -> CheckResult {
    note(c, o);
    let (w, b, a) = set_up(c)?;
    let args = diff_args(c, b, a);
    o.label_if(!args.iter().any(|x| x.to_string_lossy().starts_with("-c") || x == "--context"), "no context size given");
    let r = Spec::new("pw_diff", args, &w.work).run();
    ensure!(r.ok(), "pw_diff: {}", r.show());
    let v: serde_json::Value = serde_json::from_slice(&r.stdout).map_err(|e| format!("not JSON: {e}"))?;
    let want = saved_value(&c.files.before, &c.files.after, b, a, c.files.ctx);
    for kind in ["TextChange", "ByteChange"] {
        ensure_eq!(v[kind]["clumps"], want[kind]["clumps"], "hunks with context {}", c.files.ctx);
    }
    Ok(())
}

pub fn d04_sub() -> Box<dyn Sub> {
    rand_proc("pw_diff", "the program, with the context size given in any way or not at all", cli_case, d04_cli, 500, 30_000)
}

pub fn d06_sub() -> Box<dyn Sub> {
    rand_proc("processes", "computed by other processes, after other diffs", process_case, d06_process, 400, 20_000)
}

// ---------------------------------------------------------------- faults

#[derive(Debug, Clone, Copy, PartialEq)]
enum Effect {
    /// the program must not notice
    Harmless,
    /// the program cannot do its work
    Fatal,
    /// an operation whose failure the program may ignore
    Ignorable,
    Killed,
}

/// Every disturbance of an operation.
fn modes(op: &str) -> Vec<(Mode, Effect)> {
    use Effect::*;
    let e = Mode::Errno;
    let kills = [(Mode::KillBefore, Killed), (Mode::KillAfter, Killed)];
    let mut v = match op {
        "open_r" | "open_w" | "open_x" => vec![
            (e(libc::EACCES), Fatal),
            (e(libc::EMFILE), Fatal),
            (Mode::Eintr, Harmless),
        ],
        "read" => vec![(e(libc::EIO), Fatal), (Mode::Eintr, Harmless), (Mode::Short, Harmless)],
        "write" => vec![
            (e(libc::ENOSPC), Fatal),
            (e(libc::EIO), Fatal),
            (Mode::Partial(libc::ENOSPC), Fatal),
            (Mode::Zero, Fatal),
            (Mode::Eintr, Harmless),
            (Mode::Short, Harmless),
            (Mode::KillMid, Killed),
        ],
        "rename" | "link" => vec![(e(libc::EACCES), Fatal), (e(libc::EXDEV), Fatal)],
        "unlink" => vec![(e(libc::EACCES), Ignorable)],
        _ => vec![(e(libc::EIO), Ignorable)],
    };
    v.extend(kills);
    v
}

fn mixed(seed: u64, n: u64) -> u64 {
    let mut z = seed.wrapping_add(n.wrapping_mul(0x9E3779B97F4A7C15));
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// The operations to disturb: all of them, except that of long runs of the same operation on the
/// same file only the first, the last and a few others are taken (all if `full`).
fn select(ops: &[FileOp], pick: u64, full: bool) -> Vec<FileOp> {
    let mut groups: BTreeMap<(String, String), Vec<usize>> = BTreeMap::new();
    for (i, o) in ops.iter().enumerate() {
        groups.entry((o.op.clone(), o.path.clone())).or_default().push(i);
    }
    let mut chosen = BTreeSet::new();
    for v in groups.values() {
        if full || v.len() <= 5 {
            chosen.extend(v);
        } else {
            chosen.insert(v[0]);
            chosen.insert(v[v.len() - 1]);
            chosen.insert(v[v.len() - 2]);
            for k in 0..2 {
                chosen.insert(v[mixed(pick, k) as usize % v.len()]);
            }
        }
    }
    chosen.into_iter().map(|i| ops[i].clone()).collect()
}

/// The disturbances to try of one operation: all if `full`, otherwise for repeated reads and
/// writes a few.
fn select_modes(op: &FileOp, pick: u64, full: bool) -> Vec<(Mode, Effect)> {
    let m = modes(&op.op);
    if full || !matches!(op.op.as_str(), "read" | "write") {
        return m;
    }
    let skip = mixed(pick, op.n as u64) as usize;
    let n = m.len();
    (0..n.min(3)).map(|k| m[(skip + k * 2 + k / 2) % n].clone()).collect()
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct FaultCase {
    pub before: Content,
    pub after: Content,
    pub name: usize,
    pub ctx: u8,
    pub reverse: bool,
    pub pick: u64,
    /// disturb every operation in every way
    pub full: bool,
    /// the file has another name (1) or is reached through a symbolic link (2)
    #[serde(default)]
    pub linked: u8,
}

fn small_contents() -> BoxedStrategy<(Content, Content)> {
    prop_oneof![
        2 => (small_edited(8, 3), any::<(bool, bool)>()).prop_map(|((b, a), (x, y))| {
            (Some(letters(&b, x).into_bytes()), Some(letters(&a, y).into_bytes()))
        }),
        1 => small_edited(8, 3).prop_map(|(b, a)| {
            let f = |v: &Vec<u8>| v.iter().map(|x| x.wrapping_mul(61) ^ 0xff).collect::<Vec<u8>>();
            (Some(f(&b)), Some(f(&a)))
        }),
        1 => contents(),
    ]
    .boxed()
}

fn fault_case(change: bool, full: bool) -> BoxedStrategy<FaultCase> {
    (
        small_contents().prop_filter("size", |(b, a)| {
            b.as_ref().map_or(0, |v| v.len()) + a.as_ref().map_or(0, |v| v.len()) <= 120
        }),
        prop_oneof![2 => Just(0usize), 1 => 0..NAMES.len()],
        0u8..4,
        any::<bool>(),
        any::<u64>(),
        any::<bool>(),
        prop_oneof![3 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)],
    )
        .prop_map(move |((b, a), name, ctx, reverse, pick, add, linked)| {
            let (before, after) = match (change, b, a) {
                (true, b, a) => (Some(b.unwrap_or_default()), Some(a.unwrap_or_default())),
                (false, b, a) => {
                    let x = b.or(a);
                    if add { (None, x) } else { (x, None) }
                }
            };
            FaultCase { before, after, name, ctx, reverse, pick, full, linked: if change { linked } else { 0 } }
        })
        .boxed()
}

/// As `fault_case`, with large files.
fn large_fault_case(change: bool) -> BoxedStrategy<FaultCase> {
    (fault_case(change, false), large_contents(1_300))
        .prop_map(move |(mut c, (b, a))| {
            let (b, a) = (b.unwrap_or_default(), a.unwrap_or_default());
            if change {
                (c.before, c.after) = (Some(b), Some(a));
            } else {
                let x = Some(if b.is_empty() { a } else { b });
                (c.before, c.after) = if c.before.is_none() { (None, x) } else { (x, None) };
            }
            c
        })
        .boxed()
}

/// Limits on the size of files to try: all up to a small size, otherwise around powers of two, the
/// ends and a few others.
fn limits(len: usize, pick: u64) -> Vec<usize> {
    if len <= 300 {
        return (0..=len + 1).collect();
    }
    let mut v = vec![0, 1, len / 2, len - 2, len - 1, len, len + 1];
    v.extend([4096, 8192, 65536].iter().flat_map(|k| [k - 1, *k, k + 1]).filter(|k| *k < len));
    v.extend((0..4).map(|k| mixed(pick, k) as usize % len));
    v.sort();
    v.dedup();
    v
}

/// A content the change cannot be distinguished by is no use for telling old from new.
fn patch_text(c: &FaultCase) -> Result<Vec<u8>, String> {
    serde_json::to_vec(&saved_value(&c.before, &c.after, NAMES[c.name], "elsewhere", c.ctx)).map_err(|e| e.to_string())
}

/// Runs the change once undisturbed and then under every selected disturbance.
fn with_faults(
    c: &FaultCase,
    o: &mut Obs,
    judge: fn(&FaultCase, &FileOp, Effect, &Run, &Tree, &Tree, &Tree) -> CheckResult,
) -> CheckResult {
    let name = NAMES[c.name];
    let (from, to) = if c.reverse { (&c.after, &c.before) } else { (&c.before, &c.after) };
    let w = World::new()?;
    let other = w.root.join("other");
    let fill = |w: &World| -> CheckResult {
        w.put(name, from)?;
        w.put("bystander", &Some(b"not mine\n".to_vec()))?;
        let p = w.work.join(name);
        let _ = std::fs::remove_file(&other);
        match c.linked {
            0 => {}
            1 => io(std::fs::hard_link(&p, &other))?,
            _ => {
                io(std::fs::rename(&p, &other))?;
                io(symlink(&other, &p))?;
            }
        }
        Ok(())
    };
    // what is found by each name; by its other name, too, the file is never damaged
    let tree = || -> Result<Tree, String> {
        let mut t = w.tree();
        if c.linked > 0 {
            if let Ok(content) = std::fs::read(w.work.join(name)) {
                t.insert(name.into(), Some(content));
            }
            let x = std::fs::read(&other).ok();
            ensure!(x == *from || x == *to, "by its other name, the file holds {}", brief(&x));
        }
        Ok(t)
    };
    o.label_if(c.linked > 0, "a file with links");
    fill(&w)?;
    let old = tree()?;
    let new = with(&old, name, to);
    w.patch_file(&patch_text(c)?)?;
    let mut s = w.patch(c.reverse);
    s.shim = Some(None);
    let clean = s.run();
    ensure!(clean.ok(), "undisturbed: {}", clean.show());
    same("undisturbed", &tree()?, &new)?;
    o.nontrivial = from != to;
    for op in select(&clean.ops, c.pick, c.full) {
        for (mode, effect) in select_modes(&op, c.pick, c.full) {
            w.clear()?;
            fill(&w)?;
            let mut s = w.patch(c.reverse);
            s.shim = Some(Some((op.n, mode.clone())));
            let r = s.run();
            let what = format!("{mode:?} at {} of {} (operation {})", op.op, op.path, op.n);
            o.label(match effect {
                Effect::Harmless => "a harmless disturbance",
                Effect::Fatal => "a failing operation",
                Effect::Ignorable => "an ignorable failure",
                Effect::Killed => "killed",
            });
            let got = tree().map_err(|m| format!("{what}: {m} ({})", r.show()))?;
            if effect == Effect::Killed {
                // the operation may not have been reached if the run depends on the process id
                ensure!(r.signal == Some(libc::SIGKILL) || r.ok(), "{what}: {}", r.show());
            } else {
                ensure!(r.code.is_some(), "{what}: {}", r.show());
            }
            says_why(&what, &r)?;
            judge(c, &op, effect, &r, &got, &old, &new)
                .map_err(|m| format!("{what}: {m} ({})", r.show()))?;
            if effect != Effect::Fatal || !r.ok() {
                continue;
            }
            // the program found another way: that may be disturbed, too
            o.label("another way found");
            w.clear()?;
            fill(&w)?;
            let mut s = w.patch(c.reverse);
            s.shim = Some(Some((op.n, mode.clone())));
            s.log = true;
            let later: Vec<FileOp> = s.run().ops.into_iter().filter(|x| x.n > op.n).collect();
            for x in select(&later, c.pick, c.full) {
                for (m, e) in modes(&x.op) {
                    w.clear()?;
                    fill(&w)?;
                    let mut s = w.patch(c.reverse);
                    s.shim = Some(Some((op.n, mode.clone())));
                    s.then = Some((x.n, m.clone()));
                    let r = s.run();
                    let what = format!("{what}, then {m:?} at {} of {} (operation {})", x.op, x.path, x.n);
                    let judged = tree().and_then(|got| judge(c, &x, e, &r, &got, &old, &new));
                    judged.map_err(|m| format!("{what}: {m} ({})", r.show()))?;
                }
            }
        }
    }
    Ok(())
}

fn judge_change(c: &FaultCase, op: &FileOp, effect: Effect, r: &Run, got: &Tree, old: &Tree, new: &Tree) -> CheckResult {
    let name = Path::new(NAMES[c.name]);
    let (is_old, is_new) = (got.get(name) == old.get(name), got.get(name) == new.get(name));
    ensure!(is_old || is_new, "the file holds {}", got.get(name).map_or("nothing".into(), brief));
    if r.ok() {
        ensure!(is_new, "exit 0 but the file is unchanged");
    }
    match effect {
        Effect::Harmless => {
            ensure!(r.ok(), "not harmless");
            same("afterwards", got, new)
        }
        // another way of opening or replacing a file may have been found
        Effect::Fatal if r.ok() && !matches!(op.op.as_str(), "read" | "write") => same("afterwards", got, new),
        Effect::Fatal => {
            ensure!(!r.ok(), "a failure went unreported");
            same("afterwards", got, old)
        }
        Effect::Ignorable if op.op == "unlink" => Ok(()),
        Effect::Ignorable => same("afterwards", got, if is_new { new } else { old }),
        Effect::Killed => {
            // a temporary file may remain, everything else is as it was
            for (p, v) in old {
                ensure!(p == name || got.get(p) == Some(v), "{p:?} was touched");
            }
            ensure!(got.len() <= old.len() + 1, "{} entries instead of {}", got.len(), old.len());
            Ok(())
        }
    }
}

fn p03(c: &FaultCase, o: &mut Obs) -> CheckResult {
    with_faults(c, o, judge_change)
}

/// All disturbances of all operations of some fixed changes.
fn p03_exh(thorough: bool) -> Box<dyn Iterator<Item = FaultCase>> {
    let t = |s: &str| Some(s.as_bytes().to_vec());
    let mut v = vec![];
    let pairs = [
        (t("a\nb\nc\n"), t("a\nx\nc\n")),
        (t("a\nb"), t("a\nb\nc\nd\ne")),
        (t("1\n2\n3\n4\n5\n6\n7\n8\n9\n"), t("0\n2\n3\n4\n5\n6\n7\n8\n")),
        (Some(vec![0xff, 0, 1, 2, 3]), Some(vec![0xff, 0, 9, 2, 3, 4])),
        (t("abc\n"), t("")),
        (t(""), t("abc\n")),
        (Some(vec![0xff; 3]), Some(vec![])),
        (t("same\n"), t("same\n")),
    ];
    let n = if thorough { pairs.len() } else { 4 };
    for (b, a) in pairs.into_iter().take(n) {
        for reverse in [false, true] {
            // the patch is long and read in small steps: a sample of its reads in the quick tier
            v.push(FaultCase { before: b.clone(), after: a.clone(), name: 0, ctx: 1, reverse, pick: 7, full: thorough, linked: if reverse { v.len() as u8 % 3 } else { 0 } });
        }
    }
    Box::new(v.into_iter())
}

fn p03_limit(c: &FaultCase, o: &mut Obs) -> CheckResult {
    let name = NAMES[c.name];
    let (from, to) = if c.reverse { (&c.after, &c.before) } else { (&c.before, &c.after) };
    let len = to.as_ref().map_or(0, |v| v.len());
    let w = World::new()?;
    w.patch_file(&patch_text(c)?)?;
    o.nontrivial = len > 0;
    for limit in limits(len, c.pick) {
        w.clear()?;
        w.put(name, from)?;
        w.put("bystander", &Some(b"not mine\n".to_vec()))?;
        let old = w.tree();
        let mut s = w.patch(c.reverse);
        s.fsize = Some(limit as u64);
        let r = s.run();
        let what = format!("files limited to {limit} bytes, {len} needed");
        says_why(&what, &r)?;
        if limit < len {
            ensure!(r.code.is_some_and(|x| x != 0), "{what}: {}", r.show());
            same(&what, &w.tree(), &old)?;
        } else {
            ensure!(r.ok(), "{what}: {}", r.show());
            same(&what, &w.tree(), &with(&old, name, to))?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P04

/// Whether a saved diff is complete and takes `before` to `after` and back.
fn good_diff(text: &[u8], before: &Content, after: &Content, bp: impl AsRef<Path>) -> CheckResult {
    let bp = bp.as_ref();
    let d = Diff::from_reader(&mut &text[..]).map_err(|e| format!("the output is not a diff: {e}"))?;
    let e = |e: std::io::Error| e.to_string();
    let (b, a) = (before.clone(), after.clone());
    let (mut x, mut y) = (vec![], vec![]);
    match &d {
        Diff::TextChange(t) => {
            let (b, a) = (b.ok_or("a change of nothing")?, a.ok_or("a change to nothing")?);
            let s = |v: Vec<u8>| String::from_utf8(v).map_err(|_| "text hunks of a binary file".to_string());
            t.apply_into(&crate::model::seq_text(&s(b.clone())?), &mut x, false).map_err(e)?;
            t.apply_into(&crate::model::seq_text(&s(a.clone())?), &mut y, true).map_err(e)?;
            ensure!(x == a && y == b, "the diff does not describe the files");
            ensure!(t.before_path() == bp, "path {:?}", t.before_path());
        }
        Diff::ByteChange(t) => {
            let (b, a) = (b.ok_or("a change of nothing")?, a.ok_or("a change to nothing")?);
            t.apply_into(&crate::model::seq_bytes(&b), &mut x, false).map_err(e)?;
            t.apply_into(&crate::model::seq_bytes(&a), &mut y, true).map_err(e)?;
            ensure!(x == a && y == b, "the diff does not describe the files");
            ensure!(t.before_path() == bp, "path {:?}", t.before_path());
        }
        Diff::TextAdd(p) => {
            p.write_into(&mut x).map_err(e)?;
            ensure!(b.is_none() && a == Some(x), "an addition that did not happen");
            ensure!(p.path() == bp, "path {:?}", p.path());
        }
        Diff::ByteAdd(p) => {
            p.write_into(&mut x).map_err(e)?;
            ensure!(b.is_none() && a == Some(x), "an addition that did not happen");
            ensure!(p.path() == bp, "path {:?}", p.path());
        }
        Diff::TextRemove(p) => {
            p.write_into(&mut x).map_err(e)?;
            ensure!(a.is_none() && b == Some(x), "a removal that did not happen");
            ensure!(p.path() == bp, "path {:?}", p.path());
        }
        Diff::ByteRemove(p) => {
            p.write_into(&mut x).map_err(e)?;
            ensure!(a.is_none() && b == Some(x), "a removal that did not happen");
            ensure!(p.path() == bp, "path {:?}", p.path());
        }
    }
    Ok(())
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct DiffFault {
    pub files: FileCase,
    pub pick: u64,
    pub full: bool,
}

fn diff_fault_case() -> BoxedStrategy<DiffFault> {
    (file_case(), small_contents(), any::<u64>(), prop_oneof![2 => Just((true, true)), 1 => Just((true, false)), 1 => Just((false, true))])
        .prop_map(|(mut files, (b, a), pick, (x, y))| {
            files.before = x.then(|| b.or(a.clone()).unwrap_or_default());
            files.after = y.then(|| a.unwrap_or_default());
            DiffFault { files, pick, full: false }
        })
        .boxed()
}

/// One of the files is large: two large files that are taken for binary, as they may be after a
/// failure, take long to compare.
fn large_diff_case() -> BoxedStrategy<DiffFault> {
    (diff_fault_case(), large_contents(2_000), any::<bool>())
        .prop_map(|(mut c, (b, a), second)| {
            let large = b.or(a);
            if second {
                (c.files.before, c.files.after) = (c.files.before.or(c.files.after), large);
            } else {
                (c.files.before, c.files.after) = (large, c.files.after.or(c.files.before));
            }
            c
        })
        .boxed()
}

fn p04(c: &DiffFault, o: &mut Obs) -> CheckResult {
    let w = World::new()?;
    let f = &c.files;
    let (b, a) = (NAMES[f.names.0], NAMES[f.names.1]);
    w.put(b, &f.before)?;
    w.put(a, &f.after)?;
    let tree = w.tree();
    let ctx = f.ctx.to_string();
    let spec = || w.diff(["-c", &ctx, "--", b, a]);
    let mut s = spec();
    s.shim = Some(None);
    s.out = Out::ToFile;
    let clean = s.run();
    ensure!(clean.ok(), "undisturbed: {}", clean.show());
    good_diff(&clean.stdout, &f.before, &f.after, b)?;
    same("undisturbed", &w.tree(), &tree)?;
    o.nontrivial = true;
    for op in select(&clean.ops, c.pick, c.full) {
        let mut m = select_modes(&op, c.pick, c.full);
        // the same operation failing for good
        m.extend(match op.op.as_str() {
            "stat" => vec![(Mode::Sticky(libc::EACCES), Effect::Fatal)],
            "open_r" => vec![(Mode::Sticky(libc::EACCES), Effect::Fatal)],
            "read" => vec![(Mode::Sticky(libc::EIO), Effect::Fatal)],
            _ => vec![],
        });
        for (mode, effect) in m {
            let mut s = spec();
            s.shim = Some(Some((op.n, mode.clone())));
            s.out = Out::ToFile;
            let r = s.run();
            let what = format!("{mode:?} at {} of {} (operation {})", op.op, op.path, op.n);
            same(&what, &w.tree(), &tree)?;
            if effect == Effect::Killed {
                continue;
            }
            ensure!(r.code.is_some(), "{what}: {}", r.show());
            says_why(&what, &r)?;
            if r.ok() {
                good_diff(&r.stdout, &f.before, &f.after, b).map_err(|m| format!("{what}: exit 0, but {m}"))?;
            }
            let transient_read = matches!(mode, Mode::Errno(_)) && op.op != "write";
            match effect {
                Effect::Harmless => {
                    o.label("a harmless disturbance");
                    ensure!(r.ok() && r.stdout == clean.stdout, "{what}: {}", r.show());
                }
                // a second attempt may succeed
                Effect::Fatal if !transient_read => {
                    o.label("a lasting failure");
                    ensure!(!r.ok(), "{what}: a failure went unreported");
                }
                _ => {}
            }
        }
    }
    Ok(())
}

fn p04_output(c: &DiffFault, o: &mut Obs) -> CheckResult {
    let w = World::new()?;
    let f = &c.files;
    let (b, a) = (NAMES[f.names.0], NAMES[f.names.1]);
    w.put(b, &f.before)?;
    w.put(a, &f.after)?;
    let tree = w.tree();
    let ctx = f.ctx.to_string();
    let spec = || w.diff(["-c", &ctx, "--", b, a]);
    let clean = spec().run();
    ensure!(clean.ok(), "undisturbed: {}", clean.show());
    let len = clean.stdout.len() as u64;
    o.nontrivial = true;
    let mut limits = vec![0, 1, len / 2, len.saturating_sub(2), len - 1, len, len + 1];
    for k in 0..6 {
        limits.push(mixed(c.pick, k) % len);
    }
    for limit in limits {
        let mut s = spec();
        s.fsize = Some(limit);
        s.out = Out::ToFile;
        let r = s.run();
        let what = format!("output limited to {limit} of {len} bytes");
        if limit < len {
            ensure!(r.code.is_some_and(|x| x != 0), "{what}: {}", r.show());
            says_why(&what, &r)?;
        } else {
            ensure!(r.ok() && r.stdout == clean.stdout, "{what}: {}", r.show());
        }
    }
    for (what, out) in [("full device", Out::Full), ("broken pipe", Out::Broken)] {
        let mut s = spec();
        s.out = out;
        let r = s.run();
        ensure!(r.code.is_some_and(|x| x != 0), "{what}: {}", r.show());
        says_why(what, &r)?;
    }
    same("afterwards", &w.tree(), &tree)
}

/// Inputs that cannot be compared.
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct BadInput {
    pub kind: u8,
    pub first: bool,
    pub other: Content,
    pub ctx: u8,
}

fn bad_input() -> BoxedStrategy<BadInput> {
    (0u8..7, any::<bool>(), contents(), prop::bool::weighted(0.7), 0u8..4)
        .prop_map(|(kind, first, (b, a), some, ctx)| BadInput {
            kind,
            first,
            other: if some { b.or(a) } else { None },
            ctx,
        })
        .boxed()
}

fn p04_input(c: &BadInput, o: &mut Obs) -> CheckResult {
    use std::os::unix::ffi::OsStringExt;
    use std::os::unix::fs::PermissionsExt;
    let w = World::new()?;
    w.put("other", &c.other)?;
    let mut bad = std::ffi::OsString::from("bad");
    let mut other = std::ffi::OsString::from("other");
    let mut ctx = c.ctx.to_string();
    let mut closed = None;
    match c.kind {
        // a directory
        0 => io(std::fs::create_dir(w.work.join("bad")))?,
        // a symbolic link to itself
        1 => io(symlink("bad", w.work.join("bad")))?,
        // an unreadable file
        2 | 3 => {
            if !unprivileged() {
                return Ok(());
            }
            let p = if c.kind == 2 {
                io(std::fs::write(w.work.join("bad"), "x\n"))?;
                w.work.join("bad")
            } else {
                // in a directory that may not be searched
                io(std::fs::create_dir(w.work.join("closed")))?;
                io(std::fs::write(w.work.join("closed/bad"), "x\n"))?;
                bad = "closed/bad".into();
                w.work.join("closed")
            };
            io(std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0)))?;
            closed = Some(p);
        }
        // neither exists
        4 => other = "nothing".into(),
        // a name that cannot be recorded
        5 => {
            bad = std::ffi::OsString::from_vec(vec![b'f', 0xff]);
            io(std::fs::write(w.work.join(&bad), "x\n"))?;
            if !c.first && c.other.is_none() {
                return Ok(()); // an addition records the first name only
            }
        }
        // a context that is not a small number
        _ => {
            io(std::fs::write(w.work.join("bad"), "x\n"))?;
            ctx = ["256", "-1", "x", ""][c.ctx as usize % 4].to_string();
        }
    }
    o.nontrivial = true;
    let tree = w.tree();
    let (x, y) = if c.first { (&bad, &other) } else { (&other, &bad) };
    let r = w.diff([&"-c".into(), &std::ffi::OsString::from(&ctx), &"--".into(), x, y]).run();
    let after = w.tree();
    if let Some(p) = closed {
        io(std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o777)))?;
    }
    ensure!(r.code.is_some_and(|x| x != 0), "{} with output {:?}", r.show(), String::from_utf8_lossy(&r.stdout));
    says_why("unusable input", &r)?;
    same("afterwards", &after, &tree)
}

// ---------------------------------------------------------------- P05

#[derive(Debug, Clone, Copy, Hash, Serialize, Deserialize, PartialEq)]
pub enum There {
    Nothing,
    Same,
    Other(u8),
    Directory,
    Dangling,
    Link,
    NoParent,
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct StateCase {
    pub before: Content,
    pub after: Content,
    pub name: usize,
    pub ctx: u8,
    pub reverse: bool,
    pub there: There,
    /// what stands where the diff names its second file: nothing, the content after, the content before
    #[serde(default)]
    pub second: u8,
}

fn there() -> BoxedStrategy<There> {
    prop_oneof![
        2 => Just(There::Nothing), 2 => Just(There::Same), 3 => any::<u8>().prop_map(There::Other),
        1 => Just(There::Directory), 1 => Just(There::Dangling), 1 => Just(There::Link), 1 => Just(There::NoParent),
    ]
    .boxed()
}

fn state_case() -> BoxedStrategy<StateCase> {
    (contents(), 0u8..3, prop_oneof![2 => Just(0usize), 1 => 0..NAMES.len()], 0u8..4, any::<bool>(), there(), 0u8..3)
        .prop_map(|((b, a), kind, name, ctx, reverse, there, second)| {
            let (before, after) = match kind {
                0 => (None, a.or(b)),
                1 => (b.or(a), None),
                _ => (Some(b.unwrap_or_default()), Some(a.unwrap_or_default())),
            };
            StateCase { before, after, name, ctx, reverse, there, second }
        })
        .boxed()
}

fn p05_state(c: &StateCase, o: &mut Obs) -> CheckResult {
    let (from, to) = if c.reverse { (&c.after, &c.before) } else { (&c.before, &c.after) };
    let name = if c.there == There::NoParent { "no/such/dir/file" } else { NAMES[c.name] };
    let w = World::new()?;
    w.put("bystander", &Some(b"not mine\n".to_vec()))?;
    w.put("elsewhere/file", &from.clone().or(Some(b"linked\n".to_vec())))?;
    match c.second {
        0 => {}
        1 => w.put("new name", &c.after.clone().or(c.before.clone()))?,
        _ => w.put("new name", &c.before.clone().or(c.after.clone()))?,
    }
    if c.there != There::NoParent {
        w.put(name, &None)?; // its directory
    }
    let p = w.work.join(name);
    let mut present = false;
    match c.there {
        There::Nothing | There::NoParent => {}
        There::Same => {
            w.put(name, &from.clone().or(to.clone()))?;
            present = true;
        }
        There::Other(x) => {
            w.put(name, &Some(vec![x; (x % 5) as usize]))?;
            present = true;
        }
        There::Directory => io(std::fs::create_dir(&p))?,
        There::Dangling => io(symlink("nowhere", &p))?,
        There::Link => {
            io(symlink(w.work.join("elsewhere/file"), &p))?;
        }
    }
    let doc = serde_json::to_vec(&saved_value(&c.before, &c.after, name, "new name", c.ctx)).map_err(|e| e.to_string())?;
    w.patch_file(&doc)?;
    let old = w.tree();
    let r = w.patch(c.reverse).run();
    let got = w.tree();
    ensure!(r.code.is_some(), "{}", r.show());
    says_why("afterwards", &r)?;
    o.nontrivial = true;
    let text = |c: &Content| c.as_ref().map_or(true, |v| std::str::from_utf8(v).is_ok());
    match (from, to) {
        (None, Some(content)) => {
            o.label("creation");
            if c.there == There::Nothing {
                ensure!(r.ok(), "creation: {}", r.show());
                return same("creation", &got, &with(&old, name, &Some(content.clone())));
            }
            ensure!(!r.ok(), "creation over {:?} reported success", c.there);
            same("creation over something", &got, &old)
        }
        (Some(_), None) => {
            o.label("deletion");
            let link = matches!(c.there, There::Dangling | There::Link);
            if present || link {
                ensure!(r.ok(), "deletion: {}", r.show());
                return same("deletion", &got, &with(&old, name, &None));
            }
            ensure!(!r.ok(), "deletion of {:?} reported success", c.there);
            same("deletion", &got, &old)
        }
        (Some(_), Some(_)) => {
            o.label("change");
            match c.there {
                There::Nothing | There::NoParent | There::Directory | There::Dangling => {
                    ensure!(!r.ok(), "change of {:?} reported success", c.there);
                    same("change", &got, &old)
                }
                There::Same => {
                    ensure!(r.ok(), "change: {}", r.show());
                    same("change", &got, &with(&old, name, to))
                }
                // a text diff of a file that is no text
                There::Other(x) if x > 127 && x % 5 > 0 && text(from) && text(to) => {
                    ensure!(!r.ok(), "a text change of a binary file reported success");
                    same("text change of a binary file", &got, &old)
                }
                _ => {
                    // whatever became of the hunks, nothing else changed
                    if c.there == There::Link {
                        ensure!(got.get(Path::new("bystander")) == old.get(Path::new("bystander")), "bystander touched");
                        return Ok(());
                    }
                    let mut g = got.clone();
                    g.remove(Path::new(name));
                    same("change, other files", &g, &with(&old, name, &None))?;
                    ensure!(r.ok() || got.get(Path::new(name)) == old.get(Path::new(name)), "failed, but changed the file");
                    Ok(())
                }
            }
        }
        _ => Ok(()),
    }
}

fn judge_presence(c: &FaultCase, op: &FileOp, effect: Effect, r: &Run, got: &Tree, old: &Tree, new: &Tree) -> CheckResult {
    let name = Path::new(NAMES[c.name]);
    let (from, to) = if c.reverse { (&c.after, &c.before) } else { (&c.before, &c.after) };
    // everything but the file itself
    let rest = |t: &Tree| {
        let mut t = t.clone();
        t.remove(name);
        t
    };
    same("other files", &rest(got), &rest(old))?;
    match effect {
        Effect::Harmless => {
            ensure!(r.ok(), "not harmless");
            same("afterwards", got, new)?;
        }
        Effect::Fatal if matches!(op.op.as_str(), "read" | "write") => ensure!(!r.ok(), "a failure went unreported"),
        _ => {}
    }
    if r.ok() {
        same("exit 0", got, new)?;
    }
    match (from, to, got.get(name)) {
        // creation: not there, or a beginning of the content
        (None, Some(_), None) => Ok(()),
        (None, Some(t), Some(Some(g))) => {
            ensure!(t.starts_with(g), "the file holds something else");
            Ok(())
        }
        // deletion: there in full, or gone
        (Some(_), None, None) => {
            ensure!(r.ok() || effect == Effect::Killed, "gone, but reported as failed");
            Ok(())
        }
        (Some(f), None, Some(Some(g))) => {
            ensure!(f == g, "the file holds something else");
            ensure!(!r.ok(), "still there, but reported as deleted");
            Ok(())
        }
        x => Err(format!("unexpected state {x:?}")),
    }
}

/// A failing deletion is the one case where `unlink` must be reported.
fn p05_faults(c: &FaultCase, o: &mut Obs) -> CheckResult {
    with_faults(c, o, |c, op, effect, r, got, old, new| {
        let effect = if op.op == "unlink" && effect == Effect::Ignorable { Effect::Fatal } else { effect };
        judge_presence(c, op, effect, r, got, old, new)
    })
}

fn p05_limit(c: &FaultCase, o: &mut Obs) -> CheckResult {
    let name = NAMES[c.name];
    // always a creation
    let mut c = c.clone();
    c.reverse = c.before.is_some();
    let content = c.before.clone().or(c.after.clone()).unwrap_or_default();
    let w = World::new()?;
    w.patch_file(&patch_text(&c)?)?;
    o.nontrivial = !content.is_empty();
    for limit in limits(content.len(), c.pick) {
        w.clear()?;
        w.put(name, &None)?;
        w.put("bystander", &Some(b"not mine\n".to_vec()))?;
        let old = w.tree();
        let mut s = w.patch(c.reverse);
        s.fsize = Some(limit as u64);
        let r = s.run();
        let what = format!("files limited to {limit} bytes, {} needed", content.len());
        says_why(&what, &r)?;
        let mut got = w.tree();
        if limit < content.len() {
            ensure!(r.code.is_some_and(|x| x != 0), "{what}: {}", r.show());
            if let Some(Some(g)) = got.remove(Path::new(name)) {
                ensure!(content.starts_with(&g), "{what}: the file holds something else");
            }
            same(&what, &got, &old)?;
        } else {
            ensure!(r.ok(), "{what}: {}", r.show());
            same(&what, &got, &with(&old, name, &Some(content.clone())))?;
        }
    }
    Ok(())
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct BadPatch {
    pub case: StateCase,
    pub how: u8,
    pub at: Index2,
}

fn bad_patch() -> BoxedStrategy<BadPatch> {
    (state_case(), 0u8..10, index2())
        .prop_map(|(case, how, at)| BadPatch { case, how, at })
        .boxed()
}

/// Patches that cannot be used: nothing happens and the exit status says so.
fn p05_patch(c: &BadPatch, o: &mut Obs) -> CheckResult {
    let s = &c.case;
    let (from, _) = if s.reverse { (&s.after, &s.before) } else { (&s.before, &s.after) };
    let name = NAMES[s.name];
    let w = World::new()?;
    w.put(name, from)?;
    w.put("bystander", &Some(b"not mine\n".to_vec()))?;
    let v = saved_value(&s.before, &s.after, name, "new name", s.ctx);
    let doc = serde_json::to_vec_pretty(&v).map_err(|e| e.to_string())?;
    let patch = w.root.join("patch");
    match c.how {
        // cut short anywhere
        0..=2 => w.patch_file(&doc[..c.at.of(doc.len())])?,
        // no such file
        3 => {}
        // a directory
        4 => io(std::fs::create_dir(&patch))?,
        // another document
        5 => w.patch_file(["null", "[]", "{}", "\"TextAdd\"", "{\"Other\": {}}", "0", "--- a\n+++ b\n@@ -1 +1 @@\n-a\n+b\n"][c.at.of(7)].as_bytes())?,
        // a field missing, a field of the wrong type
        6 | 7 => {
            let mut v = v.clone();
            let inner = v.as_object_mut().unwrap().values_mut().next().unwrap().as_object_mut().unwrap();
            let keys: Vec<String> = inner.keys().cloned().collect();
            let k = &keys[c.at.of(keys.len())];
            if c.how == 6 {
                inner.remove(k);
            } else {
                inner.insert(k.clone(), Value::from(1.5));
            }
            w.patch_file(v.to_string().as_bytes())?;
        }
        // followed by something else
        8 => w.patch_file(&[&doc[..], b"\n{}"].concat())?,
        // damaged text
        _ => {
            let mut d = doc.clone();
            let k = c.at.of(d.len());
            d[k] = 0xff;
            w.patch_file(&d)?;
        }
    }
    let old = w.tree();
    let r = w.patch(s.reverse).run();
    o.nontrivial = true;
    ensure!(r.code.is_some_and(|x| x != 0), "{}", r.show());
    says_why("afterwards", &r)?;
    same("afterwards", &w.tree(), &old)
}

// ---------------------------------------------------------------- P06

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct History {
    /// versions of each file
    pub files: Vec<Vec<Content>>,
    pub ctx: u8,
    /// push (true) or pop
    pub walk: Vec<bool>,
    /// which names they have
    #[serde(default)]
    pub names: usize,
}

impl History {
    fn name(&self, i: usize) -> &'static str {
        if self.names == 0 {
            FILES[i]
        } else {
            NAMES[(self.names + 5 * i) % NAMES.len()]
        }
    }
}

#[derive(Debug, Clone)]
enum Step {
    Keep,
    Edit(Vec<Op<u8>>),
    Eol,
    Binary(Index, u8),
    Text,
    Delete,
    Replace(Vec<u8>),
}

fn step() -> BoxedStrategy<Step> {
    prop_oneof![
        1 => Just(Step::Keep),
        6 => vec(op((0u8..8).boxed()), 1..4).prop_map(Step::Edit),
        1 => Just(Step::Eol),
        2 => (any::<Index>(), 128u8..=255).prop_map(|(i, b)| Step::Binary(i, b)),
        1 => Just(Step::Text),
        2 => Just(Step::Delete),
        1 => vec(0u8..8, 0..20).prop_map(Step::Replace),
    ]
    .boxed()
}

fn file_versions(n: usize) -> BoxedStrategy<Vec<Content>> {
    (vec(0u8..8, 0..20), any::<bool>(), prop::bool::weighted(0.8), vec(step(), n - 1))
        .prop_map(|(mut lines, mut eol, mut exists, steps)| {
            let mut binary: Option<(Index, u8)> = None;
            let content = |lines: &[u8], eol: bool, exists: bool, binary: &Option<(Index, u8)>| {
                exists.then(|| {
                    let mut c = letters(lines, eol).into_bytes();
                    if let (Some((i, b)), false) = (binary, c.is_empty()) {
                        let k = i.index(c.len());
                        c[k] = *b;
                    }
                    c
                })
            };
            let mut out = vec![content(&lines, eol, exists, &binary)];
            for s in steps {
                match s {
                    Step::Keep => {}
                    Step::Edit(ops) => {
                        lines = apply_ops(&lines, &ops);
                        lines.truncate(60);
                        exists = true;
                    }
                    Step::Eol => eol = !eol,
                    Step::Binary(i, b) => binary = Some((i, b)),
                    Step::Text => binary = None,
                    Step::Delete => exists = false,
                    Step::Replace(l) => {
                        lines = l;
                        exists = true;
                    }
                }
                out.push(content(&lines, eol, exists, &binary));
            }
            out
        })
        .boxed()
}

fn history() -> BoxedStrategy<History> {
    (1usize..4, 2usize..6)
        .prop_flat_map(|(k, n)| (vec(file_versions(n), k), 0u8..4, vec(prop::bool::weighted(0.6), 1..14), 0..NAMES.len()))
        .prop_map(|(files, ctx, walk, names)| History { files, ctx, walk, names })
        .boxed()
}

/// Tens of versions and moves.
fn long_history() -> BoxedStrategy<History> {
    (1usize..3, 8usize..30)
        .prop_flat_map(|(k, n)| (vec(file_versions(n), k), 0u8..4, vec(prop::bool::weighted(0.6), 40..120), 0..NAMES.len()))
        .prop_map(|(files, ctx, walk, names)| History { files, ctx, walk, names })
        .boxed()
}

/// Files of a few thousand bytes, many of round sizes.
fn sized_history() -> BoxedStrategy<History> {
    let sized = (sizes(13), any::<u8>(), prop::bool::weighted(0.5)).prop_map(|(n, salt, text)| {
        Some(
            (0..n)
                .map(|i| {
                    let x = ((i ^ i >> 7).wrapping_mul(0x9E37_79B1) >> 24) as u8 ^ salt;
                    match (text, i % 16) {
                        (true, 15) => b'\n',
                        (true, _) => b'a' + x % 26,
                        _ => x,
                    }
                })
                .collect(),
        )
    });
    let version = prop_oneof![3 => sized, 1 => Just(None), 1 => contents().prop_map(|(b, _)| b)];
    (1usize..3, 2usize..5)
        .prop_flat_map(move |(k, n)| (vec(vec(version.clone(), n), k), 0u8..4, vec(prop::bool::weighted(0.6), 4..14), 0..NAMES.len()))
        .prop_map(|(files, ctx, walk, names)| History { files, ctx, walk, names })
        .boxed()
}

const FILES: &[&str] = &["one", "sub/two", "three.txt"];

fn p06(h: &History, o: &mut Obs) -> CheckResult {
    let n = h.files[0].len();
    let w = World::new()?;
    let ctx = h.ctx.to_string();
    // the versions and the patches between them
    let mut trees = vec![];
    let mut patches: Vec<Vec<PathBuf>> = vec![];
    for v in 0..n {
        let d = w.root.join(format!("v{v}"));
        for (i, f) in h.files.iter().enumerate() {
            let p = d.join(h.name(i));
            io(std::fs::create_dir_all(p.parent().unwrap()))?;
            if let Some(c) = &f[v] {
                io(std::fs::write(p, c))?;
            }
        }
        trees.push(scratch::tree(&d));
    }
    for v in 0..n - 1 {
        let mut set = vec![];
        for (i, f) in h.files.iter().enumerate() {
            if f[v].is_none() && f[v + 1].is_none() {
                continue;
            }
            let next = format!("../v{}/{}", v + 1, h.name(i));
            let cwd = w.root.join(format!("v{v}"));
            let r = Spec::new("pw_diff", args(["-c", &ctx, "--", h.name(i), &next]), &cwd).run();
            ensure!(r.ok(), "pw_diff of {} at version {v}: {}", h.name(i), r.show());
            let p = w.root.join(format!("p{v}-{i}"));
            io(std::fs::write(&p, &r.stdout))?;
            set.push(p);
        }
        patches.push(set);
    }
    // the walk
    let place = |t: &Tree| -> CheckResult {
        for (p, c) in t {
            match c {
                None => io(std::fs::create_dir_all(w.work.join(p)))?,
                Some(c) => {
                    io(std::fs::create_dir_all(w.work.join(p).parent().unwrap()))?;
                    io(std::fs::write(w.work.join(p), c))?
                }
            }
        }
        Ok(())
    };
    place(&trees[0])?;
    let mut at = 0;
    let mut moves = 0;
    let mut popped = false;
    for (k, push) in h.walk.iter().enumerate() {
        if (*push && at == n - 1) || (!push && at == 0) {
            continue;
        }
        moves += 1;
        let set = if *push { &patches[at] } else { &patches[at - 1] };
        let order: Vec<&PathBuf> = if *push { set.iter().collect() } else { set.iter().rev().collect() };
        for p in order {
            let mut a = args([p]);
            if !push {
                a.push("-r".into());
            }
            let r = Spec::new("pw_patch", a, &w.work).run();
            ensure!(r.ok(), "step {k} ({}) at version {at}: {}", if *push { "push" } else { "pop" }, r.show());
        }
        at = if *push { at + 1 } else { at - 1 };
        popped |= !push;
        same(&format!("step {k}, version {at}"), &w.tree(), &trees[at])?;
    }
    o.nontrivial = moves >= 2;
    o.label_if(popped, "pushes and pops");
    o.label_if(h.files.iter().any(|f| f.iter().any(|c| c.is_none())), "files come or go");
    o.label_if(h.files.iter().any(|f| f.iter().flatten().any(|c| std::str::from_utf8(c).is_err())), "binary versions");
    Ok(())
}

/// Every walk of a given length over a few fixed series.
fn p06_exh(thorough: bool) -> Box<dyn Iterator<Item = History>> {
    let t = |s: &str| Some(s.as_bytes().to_vec());
    let series: Vec<Vec<Vec<Content>>> = vec![
        vec![vec![t("a\nb\nc\n"), t("a\nx\nc\n"), t("a\nx\nx\nc"), None]],
        vec![vec![None, t(""), t("a"), Some(vec![0xff, b'a'])], vec![t("z\n"), None, t("z\n"), t("z\nz\nz\n")]],
        vec![vec![t("a\na\na\na\n"), t("a\na\n"), t("a\na\na\n"), t("")]],
    ];
    let len = if thorough { 8 } else { 5 };
    let mut v = vec![];
    for files in series {
        for m in 0..1u32 << len {
            v.push(History { files: files.clone(), ctx: (m % 3) as u8, walk: (0..len).map(|i| m >> i & 1 == 1).collect(), names: 0 });
        }
    }
    Box::new(v.into_iter())
}

// ---------------------------------------------------------------- P07

/// A change diff and any version of the file.
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct TargetCase {
    pub before: Vec<u8>,
    pub after: Vec<u8>,
    pub target: Vec<u8>,
    pub text: bool,
    pub ctx: u8,
    pub reverse: bool,
    pub name: usize,
    pub verbose: u8,
}

fn target_case() -> BoxedStrategy<TargetCase> {
    let text = |t: TextTriple| (t.before.into_bytes(), t.after.into_bytes(), t.target.into_bytes(), true, t.ctx, t.reverse);
    let contents = prop_oneof![
        3 => text_triple().prop_map(text),
        3 => super::text::any_merge_triple().prop_map(text),
        2 => byte_triple().prop_map(|t| (t.before, t.after, t.target, false, t.ctx, t.reverse)),
        2 => super::bytes::grown_triple().prop_map(|t| (t.before, t.after, t.target, false, t.ctx, t.reverse)),
    ];
    (contents, 0..NAMES.len(), prop_oneof![3 => Just(0u8), 2 => 1u8..4])
        .prop_map(|((before, after, target, text, ctx, reverse), name, verbose)| TargetCase {
            before,
            after,
            target,
            text,
            ctx,
            reverse,
            name,
            verbose,
        })
        .boxed()
}

fn p07(c: &TargetCase, o: &mut Obs) -> CheckResult {
    let name = NAMES[c.name];
    // what the library does with it
    let (out, log, value) = if c.text {
        let s = |v: &Vec<u8>| String::from_utf8(v.clone()).map_err(|e| e.to_string());
        let patch = text_patch(&s(&c.before)?, &s(&c.after)?, c.ctx);
        let target = s(&c.target)?;
        let (r, log) = captured(|| apply_text(&patch, &target, c.reverse));
        let v = serde_json::json!({"TextChange": {"before_path": name, "after_path": "elsewhere", "clumps": patch.0}});
        (r?.0.into_bytes(), log, v)
    } else {
        let patch = byte_patch(&c.before, &c.after, c.ctx);
        let (r, log) = captured(|| apply_bytes(&patch, &c.target, c.reverse));
        let v = serde_json::json!({"ByteChange": {
            "before_path": name, "after_path": "elsewhere", "compressed": false, "clumps": patch.0}});
        (r?, log, v)
    };
    let told = outcomes(&log)?;
    o.nontrivial = told.iter().any(|t| *t != Told::Clean);
    o.label(if c.text { "text" } else { "bytes" });
    o.label_if(told.contains(&Told::Failed), "failed");
    o.label_if(told.len() > 1 && told.iter().any(|t| *t != told[0]), "several outcomes");
    o.label_if(c.verbose > 0, "verbose");
    let w = World::new()?;
    w.put(name, &Some(c.target.clone()))?;
    w.neighbours(name)?;
    let old = w.tree();
    w.patch_file(value.to_string().as_bytes())?;
    let mut s = w.patch(c.reverse);
    for _ in 0..c.verbose {
        s.args.insert(0, "-v".into());
    }
    let r = s.run();
    ensure!(r.ok(), "{}", r.show());
    same("afterwards", &w.tree(), &with(&old, name, &Some(out)))?;
    let stderr = String::from_utf8_lossy(&r.stderr).into_owned();
    let named: Vec<usize> = stderr.lines().filter_map(hunk_number).collect();
    let want: Vec<usize> = told
        .iter()
        .enumerate()
        .filter(|(_, t)| match c.verbose {
            0 => **t == Told::Failed,
            1 => **t != Told::Clean,
            _ => true,
        })
        .map(|(i, _)| i + 1)
        .collect();
    ensure_eq!(named, want, "hunks named at verbosity {} in {stderr:?}, where {told:?}", c.verbose);
    Ok(())
}


pub fn props() -> Vec<Property> {
    const RUN: &[&str] = &["the programs are built from the current tree with the default (dev) profile", "paths are valid UTF-8 and the directories of the files exist"];
    const FAULTS: &[&str] = &[
        "faults are injected at the C library's file functions; closing a file may fail without being noticed",
        "of long runs of reads or writes of one file the quick tier disturbs the first, the last and a few others",
    ];
    vec![
        Property {
            id: "P01",
            level: "exploration",
            rule: "file pairs (text, binary, mixed, one missing), unusual names, contexts, verbosity; real processes in a scratch directory. Non-trivial: the two files differ",
            assumptions: RUN,
            subs: vec![rand_proc("diff_patch", "pw_diff, then pw_patch", cli_case, p01, 3_000, 200_000),
                rand_proc("paths", "paths of any characters, however spelled, also one path given twice", || named_case(true), p01_named, 800, 60_000),
                rand_proc("rooted", "absolute paths, paths through other directories and links to directories; the patch anywhere, by any name", rooted_case, p01_rooted, 800, 60_000),
                rand_proc("together", "several files patched at the same time in one directory", together_case, p01_together, 150, 10_000),
                rand_proc("large", "files of tens of thousands of bytes", large_case, p01, 40, 3_000),
                rand_proc("big", "sizes around powers of two up to 2^22", big_case, p01, 64, 1_000),
                rand_proc("big_binary", "changed binary files of more than 2^16 bytes", big_binary_case, p01, 8, 200),
            ],
        },
        Property {
            id: "P02",
            level: "exploration",
            rule: "as P01: applied and reversed, reversed alone, and applied again. Non-trivial: the two files differ",
            assumptions: RUN,
            subs: vec![rand_proc("reverse", "pw_patch --reverse", cli_case, p02, 2_000, 130_000),
                rand_proc("paths", "paths of any characters, however spelled, also one path given twice", || named_case(true), p02_named, 600, 40_000),
                rand_proc("rooted", "absolute paths, paths through other directories and links to directories; the patch anywhere, by any name", rooted_case, p02_rooted, 400, 30_000),
                rand_proc("large", "files of tens of thousands of bytes", large_case, p02, 24, 2_000),
                rand_proc("big", "sizes around powers of two up to 2^22", big_case, p02, 64, 1_000),
            ],
        },
        Property {
            id: "P03",
            level: "fault_enumeration",
            rule: "changes of small files; an undisturbed run lists its file operations, then each is made to fail, be interrupted, be cut short or be the last one (killed before, in the middle, after). Every output size limit. Non-trivial: the change changes something",
            assumptions: FAULTS,
            subs: vec![
                exh("fixed", "fixed changes, every operation, every disturbance", p03_exh, p03),
                rand_proc("faults", "random changes, selected operations and disturbances", || fault_case(true, false), p03, 100, 8_000),
                rand_proc("size_limit", "every limit on the size of files", || fault_case(true, false), p03_limit, 150, 12_000),
                rand_proc("large_faults", "changes of large files, selected operations and disturbances", || large_fault_case(true), p03, 12, 600),
                rand_proc("large_limit", "changes of large files, limits around buffer sizes", || large_fault_case(true), p03_limit, 16, 1_000),
            ],
        },
        Property {
            id: "P04",
            level: "fault_enumeration",
            rule: "file pairs; faults at every file operation, limits on the output at and around its size and at random places, full device, broken pipe, inputs that cannot be read. All non-trivial",
            assumptions: &[
                "faults are injected at the C library's file functions; closing a file may fail without being noticed",
                "after a passing read failure pw_diff may try again: exit 0 then requires a complete and correct diff",
            ],
            subs: vec![
                rand_proc("faults", "every operation disturbed", diff_fault_case, p04, 80, 6_000),
                rand_proc("large", "large files, every operation disturbed", large_diff_case, p04, 8, 400),
                rand_proc("large_output", "large files, limited and refused output", large_diff_case, p04_output, 16, 1_000),
                rand_proc("output", "limited and refused output", diff_fault_case, p04_output, 250, 20_000),
                rand_proc("paths", "paths of any kind, also ones that cannot be recorded, one path given twice", || named_case(false), p04_named, 1_000, 60_000),
                rand_proc("input", "unusable inputs and arguments", bad_input, p04_input, 600, 40_000),
            ],
        },
        Property {
            id: "P05",
            level: "fault_enumeration",
            rule: "all six kinds of diff in both directions against every state of the target path; unusable patches; faults at every operation of creations and deletions; every size limit",
            assumptions: &["a creation that fails while writing may leave a beginning of the content behind: only a non-zero exit status is required"],
            subs: vec![
                rand_proc("states", "what is there already", state_case, p05_state, 3_000, 200_000),
                rand_proc("bad_patch", "patches that cannot be used", bad_patch, p05_patch, 2_500, 200_000),
                rand_proc("faults", "creations and deletions, every operation disturbed", || fault_case(false, false), p05_faults, 100, 8_000),
                rand_proc("size_limit", "creations, every limit on the size of files", || fault_case(false, false), p05_limit, 150, 12_000),
                rand_proc("large_faults", "creations and deletions of large files, selected operations and disturbances", || large_fault_case(false), p05_faults, 12, 600),
                rand_proc("large_limit", "creations of large files, limits around buffer sizes", || large_fault_case(false), p05_limit, 16, 1_000),
            ],
        },
        Property {
            id: "P06",
            level: "exploration",
            rule: "random histories of up to 3 files and 5 versions and random push/pop walks over the series of diffs; every walk of a fixed length over fixed series. Non-trivial: at least two moves",
            assumptions: RUN,
            subs: vec![
                rand_proc("histories", "random histories and walks", history, p06, 700, 40_000),
                rand_proc("sizes", "contents of up to 8194 bytes, many around powers of two", sized_history, p06, 150, 8_000),
                rand_proc("long", "histories of up to 29 versions and walks of up to 119 moves", long_history, p06, 24, 1_500),
                exh("walks", "every walk of length 5 (8 thorough) over three series", p06_exh, p06),
            ],
        },
        Property {
            id: "P07",
            level: "exploration",
            rule: "change diffs (text and byte) and targets that are edited, partly patched, truncated or unrelated versions of the file; oracle: the result and the outcomes of the library, which T05, T08 and B02 judge. Non-trivial: some hunk is not applied cleanly",
            assumptions: RUN,
            subs: vec![rand_proc("targets", "any version of the file", target_case, p07, 4_000, 300_000)],
        },
    ]
}
