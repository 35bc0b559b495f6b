//! F01-F03: saved diffs, kinds of diff, I/O errors in the library.

use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::path::{Path, PathBuf};

use super::seqs::{index2, script, Index2};
use crate::engine::*;
use crate::gen::*;
use crate::io::*;
use crate::model::*;
use crate::{ensure, ensure_eq, scratch};

use pw_diff_lib::apply_bytes::ApplyClumpsClean;
use pw_diff_lib::apply_text::ApplyClumpsFuzzy;
use pw_diff_lib::byte_diff::{ByteChangeDiff, PathAndBytes};
use pw_diff_lib::diff::Diff;
use pw_diff_lib::range::Range;
use pw_diff_lib::sequence::*;
use pw_diff_lib::snippet::{Snippet, SnippetWrite};
use pw_diff_lib::text_diff::{PathAndLines, TextChangeDiff};

/// Contents of a file, or its absence.
pub type Content = Option<Vec<u8>>;

/// A pair of file states, related or not, at least one present.
pub fn contents() -> BoxedStrategy<(Content, Content)> {
    let text = text_pair_contents().prop_map(|(a, b)| (a.into_bytes(), b.into_bytes()));
    let bytes = byte_pair_contents();
    // a text with a damaged byte on one or both sides
    let damaged = (plain_pair_contents(), index2(), 128u8..=255, 0u8..3).prop_map(|((a, b), i, x, which)| {
        let (mut a, mut b) = (a.into_bytes(), b.into_bytes());
        if which != 1 && !a.is_empty() {
            let k = i.of(a.len());
            a[k] = x;
        }
        if which != 0 && !b.is_empty() {
            let k = i.of(b.len());
            b[k] = x;
        }
        (a, b)
    });
    (
        prop_oneof![4 => text, 3 => bytes, 2 => damaged],
        prop_oneof![4 => Just((true, true)), 1 => Just((true, false)), 1 => Just((false, true))],
    )
        .prop_map(|((a, b), (x, y))| (x.then_some(a), y.then_some(b)))
        .boxed()
}

/// File names: plain, nested and unusual ones.
pub const NAMES: &[&str] = &[
    "old", "new", "a.txt", "with space", "d/e/f", "d/x", "-dash", "quote\"quote", "back\\slash", "caf\u{e9}",
    "new\nline", "..dots", "\u{65e5}\u{672c}", "tab\there", "d/with 'apostrophe'", "{\"json\"}", "%41", "~",
    "f.txt", "data.bin", "p.json", "d/run.sh", "f.patch", "x.orig", "y~", ".hidden", "UPPER", "f.tar.gz",
];

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct FileCase {
    pub before: Content,
    pub after: Content,
    pub names: (usize, usize),
    pub ctx: u8,
}

pub fn file_case() -> BoxedStrategy<FileCase> {
    (
        contents(),
        prop_oneof![2 => Just((0usize, 1usize)), 3 => (0..NAMES.len(), 0..NAMES.len())],
        ctx(),
    )
        .prop_map(|((before, after), (i, j), ctx)| FileCase {
            before,
            after,
            names: if i == j { (i, (i + 1) % NAMES.len()) } else { (i, j) },
            ctx,
        })
        .boxed()
}

/// A path as it may be given to the programs: names of any characters, spelled in several ways.
#[derive(Debug, Clone, Hash, Serialize, Deserialize, PartialEq)]
pub struct Spelled {
    pub names: Vec<Vec<u8>>,
    /// what stands before each name
    pub seps: Vec<u8>,
}

impl Spelled {
    fn with(&self, sep: impl Fn(usize) -> &'static str) -> PathBuf {
        use std::os::unix::ffi::OsStringExt;
        let mut v = vec![];
        for (i, n) in self.names.iter().enumerate() {
            v.extend(sep(i).as_bytes());
            v.extend(n);
        }
        PathBuf::from(std::ffi::OsString::from_vec(v))
    }
    /// as given
    pub fn path(&self) -> PathBuf {
        self.with(|i| match (i, self.seps.get(i).map_or(0, |s| s % 8)) {
            (0, 0..=4) => "",
            (0, 5 | 6) => "./",
            (0, _) => ".//./",
            (_, 0..=4) => "/",
            (_, 5) => "//",
            (_, 6) => "/./",
            (_, _) => "/.//",
        })
    }
    /// as seen when listing the directory
    pub fn plain(&self) -> PathBuf {
        self.with(|i| if i == 0 { "" } else { "/" })
    }
    pub fn utf8(&self) -> bool {
        self.names.iter().all(|n| std::str::from_utf8(n).is_ok())
    }
}

/// A file or directory name.
fn name(utf8: bool) -> BoxedStrategy<Vec<u8>> {
    let chars = prop_oneof![
        3 => prop::char::range(' ', '~'),
        1 => prop::char::range('\u{1}', '\u{1f}'),
        1 => prop::char::range('\u{7f}', '\u{2ff}'),
        1 => any::<char>(),
        1 => prop::sample::select(vec!['\u{feff}', '\u{202e}', '\u{fffd}', '\u{10ffff}', '\\', '"', '\n', ' ', '-', '.']),
    ];
    let text = vec(chars, 1..8).prop_map(|v| v.into_iter().collect::<String>().into_bytes());
    let long = (200usize..=255, any::<bool>()).prop_map(|(n, wide)| {
        if wide { "\u{e9}".repeat(n / 2).into_bytes() } else { vec![b'n'; n] }
    });
    let usual = prop::sample::select(vec!["a", "b", "d", "f", "README.md", "-c", "--", "...", "..f", ".hidden"]).prop_map(|s| s.as_bytes().to_vec());
    // what a program might strip
    let edge = || prop::sample::select(vec!["", " ", "  ", "\t", "\n", "\r", ".", "~", "\"", "'", "\u{a0}", "\\", "*", "$", "%"]);
    let edges = (edge(), prop::sample::select(vec!["f", "f.txt", "a b", "old"]), edge()).prop_map(|(x, n, y)| format!("{x}{n}{y}").into_bytes());
    let raw = vec(prop_oneof![1 => any::<u8>(), 1 => 128u8..=255], 1..6);
    if utf8 {
        prop_oneof![4 => text, 1 => long, 3 => usual, 1 => edges].boxed()
    } else {
        prop_oneof![2 => text, 1 => long, 1 => usual, 1 => edges, 6 => raw].boxed()
    }
    .prop_map(|mut v: Vec<u8>| {
        v.retain(|b| *b != 0 && *b != b'/');
        if v.is_empty() || v == b"." || v == b".." {
            v.push(b'x');
        }
        v
    })
    .boxed()
}

pub fn spelled(utf8: bool) -> BoxedStrategy<Spelled> {
    (prop_oneof![3 => vec(name(utf8), 1..=1), 1 => vec(name(utf8), 1..4)], vec(any::<u8>(), 3))
        .prop_map(|(names, seps)| Spelled { names, seps })
        .boxed()
}

/// File pairs with paths of any kind; both may be the same.
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct NamedCase {
    pub before: Content,
    pub after: Content,
    pub first: Spelled,
    pub second: Spelled,
    pub ctx: u8,
}

impl NamedCase {
    pub fn same(&self) -> bool {
        self.first.names == self.second.names
    }
    pub fn utf8(&self) -> bool {
        self.first.utf8() && (self.second.utf8() || self.before.is_none() || self.after.is_none())
    }
}

pub fn named_case(utf8: bool) -> BoxedStrategy<NamedCase> {
    (contents(), spelled(utf8), spelled(utf8), prop::bool::weighted(0.1), ctx())
        .prop_map(|((before, after), first, mut second, same, ctx)| {
            let (x, y) = (&first.names, &second.names);
            let inside = x.iter().zip(y).all(|(a, b)| a == b); // one would have to be a file and a directory
            if same || inside {
                second.names = first.names.clone();
                return NamedCase { after: before.clone(), before, first, second, ctx };
            }
            NamedCase { before, after, first, second, ctx }
        })
        .boxed()
}

/// Compares the case's files in the library.
fn named_diff(c: &NamedCase) -> Result<(Result<Diff, String>, PathBuf, PathBuf), String> {
    let dir = scratch::fresh("files");
    let (b, a) = (dir.join(c.first.path()), dir.join(c.second.path()));
    for (p, content) in [(&b, &c.before), (&a, &c.after)] {
        std::fs::create_dir_all(p.parent().unwrap()).map_err(|e| e.to_string())?;
        if let Some(content) = content {
            std::fs::write(p, content).map_err(|e| e.to_string())?;
        }
    }
    Ok((Diff::new(&b, &a, c.ctx).map_err(|e| format!("Diff::new: {e}")), b, a))
}

/// The paths a diff names.
fn paths(d: &Diff) -> (PathBuf, Option<PathBuf>) {
    match d {
        Diff::TextChange(t) => (t.before_path().to_path_buf(), Some(t.after_path().to_path_buf())),
        Diff::ByteChange(t) => (t.before_path().to_path_buf(), Some(t.after_path().to_path_buf())),
        Diff::TextAdd(p) | Diff::TextRemove(p) => (p.path().to_path_buf(), None),
        Diff::ByteAdd(p) | Diff::ByteRemove(p) => (p.path().to_path_buf(), None),
    }
}

fn names_of(c: &NamedCase, o: &mut Obs) {
    o.nontrivial = !c.utf8() || c.first.path() != Path::new("a");
    o.label_if(!c.utf8(), "names that are not UTF-8");
    o.label_if(c.same(), "one path given twice");
}

fn f02_names(c: &NamedCase, o: &mut Obs) -> CheckResult {
    names_of(c, o);
    let (d, b, a) = named_diff(c)?;
    if c.before.is_none() && c.after.is_none() {
        ensure!(d.is_err(), "a diff of nothing");
        return Ok(());
    }
    let d = d?;
    let change = c.before.is_some() && c.after.is_some();
    ensure_eq!(paths(&d), (b, change.then_some(a)), "paths named");
    Ok(())
}

/// A diff whose paths cannot be saved is not saved at all.
fn f01_names(c: &NamedCase, o: &mut Obs) -> CheckResult {
    names_of(c, o);
    let (d, _, _) = named_diff(c)?;
    let Ok(d) = d else { return Ok(()) };
    let mut out = vec![];
    let r = d.to_writer(&mut out);
    if c.utf8() {
        r.map_err(|e| format!("to_writer: {e}"))?;
    } else if r.is_err() {
        o.label("refused");
        ensure!(load(&out).is_err(), "refused, but what was written loads");
        return Ok(());
    }
    let back = load(&out).map_err(|e| format!("loading a saved diff: {e}"))?;
    ensure_eq!(paths(&back), paths(&d), "paths after reloading");
    ensure!(saved(&back)? == out, "saved again");
    Ok(())
}

/// Writes the case's files below this thread's scratch directory.
fn place(c: &FileCase) -> Result<(PathBuf, PathBuf), String> {
    let dir = scratch::fresh("files");
    let (b, a) = (dir.join(NAMES[c.names.0]), dir.join(NAMES[c.names.1]));
    for (p, content) in [(&b, &c.before), (&a, &c.after)] {
        std::fs::create_dir_all(p.parent().unwrap()).map_err(|e| e.to_string())?;
        if let Some(content) = content {
            std::fs::write(p, content).map_err(|e| e.to_string())?;
        }
    }
    Ok((b, a))
}

pub fn saved(d: &Diff) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    d.to_writer(&mut out).map_err(|e| format!("to_writer: {e}"))?;
    Ok(out)
}

fn kind(d: &Diff) -> &'static str {
    match d {
        Diff::TextChange(_) => "TextChange",
        Diff::TextAdd(_) => "TextAdd",
        Diff::TextRemove(_) => "TextRemove",
        Diff::ByteChange(_) => "ByteChange",
        Diff::ByteAdd(_) => "ByteAdd",
        Diff::ByteRemove(_) => "ByteRemove",
    }
}

fn load(bytes: &[u8]) -> Result<Diff, String> {
    Diff::from_reader(&mut &bytes[..]).map_err(|e| e.to_string())
}

/// What a diff does to its first file, and back.
fn effects(d: &Diff, c: &FileCase) -> Result<(Vec<u8>, Vec<u8>), String> {
    let e = |e: std::io::Error| e.to_string();
    let (mut x, mut y) = (vec![], vec![]);
    match d {
        Diff::TextChange(t) => {
            let s = |v: &Content| String::from_utf8(v.clone().unwrap_or_default()).map_err(|e| e.to_string());
            t.apply_into(&seq_text(&s(&c.before)?), &mut x, false).map_err(e)?;
            t.apply_into(&seq_text(&s(&c.after)?), &mut y, true).map_err(e)?;
        }
        Diff::ByteChange(b) => {
            b.apply_into(&seq_bytes(c.before.as_deref().unwrap_or(&[])), &mut x, false).map_err(e)?;
            b.apply_into(&seq_bytes(c.after.as_deref().unwrap_or(&[])), &mut y, true).map_err(e)?;
        }
        Diff::TextAdd(p) | Diff::TextRemove(p) => p.write_into(&mut x).map_err(e)?,
        Diff::ByteAdd(p) | Diff::ByteRemove(p) => p.write_into(&mut x).map_err(e)?,
    }
    Ok((x, y))
}

// ---------------------------------------------------------------- F02 (used by F01 too)

fn same_path(v: &Value, p: &PathBuf) -> bool {
    v.as_str().map(PathBuf::from).as_ref() == Some(p)
}

fn utf8(c: &Content) -> bool {
    c.as_ref().map_or(true, |v| std::str::from_utf8(v).is_ok())
}

fn recorded(c: &FileCase, d: &Diff, b: &PathBuf, a: &PathBuf) -> CheckResult {
    let text = utf8(&c.before) && utf8(&c.after);
    let want = match (&c.before, &c.after, text) {
        (Some(_), Some(_), true) => "TextChange",
        (Some(_), Some(_), false) => "ByteChange",
        (Some(_), None, true) => "TextRemove",
        (Some(_), None, false) => "ByteRemove",
        (None, _, true) => "TextAdd",
        (None, _, false) => "ByteAdd",
    };
    ensure_eq!(kind(d), want, "kind of diff");
    let v: Value = serde_json::from_slice(&saved(d)?).map_err(|e| format!("the saved diff is not JSON: {e}"))?;
    let v = &v[want];
    match d {
        Diff::TextChange(t) => {
            ensure_eq!(t.before_path(), b.as_path(), "before path");
            ensure_eq!(t.after_path(), a.as_path(), "after path");
        }
        Diff::ByteChange(t) => {
            ensure_eq!(t.before_path(), b.as_path(), "before path");
            ensure_eq!(t.after_path(), a.as_path(), "after path");
        }
        Diff::TextAdd(p) | Diff::TextRemove(p) => ensure_eq!(p.path(), b.as_path(), "path"),
        Diff::ByteAdd(p) | Diff::ByteRemove(p) => ensure_eq!(p.path(), b.as_path(), "path"),
    }
    match want {
        "TextChange" | "ByteChange" => {
            ensure!(same_path(&v["before_path"], b), "saved before path {}", v["before_path"]);
            ensure!(same_path(&v["after_path"], a), "saved after path {}", v["after_path"]);
            let (x, y) = (c.before.clone().unwrap(), c.after.clone().unwrap());
            ensure!(text || v["compressed"] != Value::Bool(true), "uncompressed content said to be compressed");
            let hunks = if text {
                let p = text_patch(std::str::from_utf8(&x).unwrap(), std::str::from_utf8(&y).unwrap(), c.ctx);
                serde_json::to_value(&p.0)
            } else {
                serde_json::to_value(&byte_patch(&x, &y, c.ctx).0)
            }
            .map_err(|e| e.to_string())?;
            ensure_eq!(v["clumps"], hunks, "saved hunks");
        }
        _ => {
            ensure!(same_path(&v["path"], b), "saved path {}", v["path"]);
            let content = c.before.clone().or(c.after.clone()).unwrap();
            if text {
                let lines = split(std::str::from_utf8(&content).unwrap());
                ensure_eq!(v["lines"], serde_json::json!(lines), "saved lines");
            } else {
                ensure!(v["compressed"] != Value::Bool(true), "uncompressed content said to be compressed");
                ensure_eq!(v["bytes"], serde_json::json!(content), "saved bytes");
            }
        }
    }
    Ok(())
}

/// Contents that can be read only once.
fn f02_pipes(c: &FileCase, o: &mut Obs) -> CheckResult {
    use std::io::Write;
    use std::os::fd::AsRawFd;
    let (mut b, mut a) = place(c)?;
    let mut ends = vec![];
    // (both, the first or the second of the two)
    for (at, content, not) in [(&mut b, &c.before, 2), (&mut a, &c.after, 1)] {
        if let Some(content) = content.as_ref().filter(|x| x.len() < 60_000 && c.ctx % 3 != not) {
            let (r, mut w) = std::io::pipe().map_err(|e| e.to_string())?;
            w.write_all(content).map_err(|e| e.to_string())?;
            *at = format!("/proc/self/fd/{}", r.as_raw_fd()).into();
            ends.push(r);
        }
    }
    let d = Diff::new(&b, &a, c.ctx).map_err(|e| format!("Diff::new: {e}"))?;
    o.nontrivial = c.before != c.after && !ends.is_empty();
    o.label(kind(&d));
    recorded(c, &d, &b, &a)
}

/// Each kind of diff and of recorded content, asked for directly.
fn constructors(c: &FileCase, b: &Path, a: &Path) -> CheckResult {
    let both = c.before.is_some() && c.after.is_some();
    let text = TextChangeDiff::new(b, a, c.ctx);
    ensure_eq!(text.is_ok(), both && utf8(&c.before) && utf8(&c.after), "a text change was made");
    if let Ok(t) = text {
        ensure_eq!((t.before_path(), t.after_path()), (b, a), "paths of a text change");
        let mut out = vec![];
        t.to_writer(&mut out).map_err(|e| format!("to_writer: {e}"))?;
        let v: Value = serde_json::from_slice(&out).map_err(|e| format!("not JSON: {e}"))?;
        let p = text_patch(
            std::str::from_utf8(c.before.as_deref().unwrap()).unwrap(),
            std::str::from_utf8(c.after.as_deref().unwrap()).unwrap(),
            c.ctx,
        );
        ensure_eq!(v["clumps"], serde_json::to_value(&p.0).map_err(|e| e.to_string())?, "saved hunks of a text change");
    }
    let bytes = ByteChangeDiff::new(b, a, c.ctx);
    ensure_eq!(bytes.is_ok(), both, "a byte change was made");
    if let Ok(t) = bytes {
        ensure_eq!((t.before_path(), t.after_path()), (b, a), "paths of a byte change");
        let mut out = vec![];
        t.to_writer(&mut out).map_err(|e| format!("to_writer: {e}"))?;
        let v: Value = serde_json::from_slice(&out).map_err(|e| format!("not JSON: {e}"))?;
        ensure!(v["compressed"] != Value::Bool(true), "uncompressed content said to be compressed");
        let p = byte_patch(c.before.as_deref().unwrap(), c.after.as_deref().unwrap(), c.ctx);
        ensure_eq!(v["clumps"], serde_json::to_value(&p.0).map_err(|e| e.to_string())?, "saved hunks of a byte change");
    }
    for (path, content) in [(b, &c.before), (a, &c.after)] {
        let lines = PathAndLines::new(path);
        ensure_eq!(lines.is_ok(), content.is_some() && utf8(content), "lines of {path:?} recorded");
        if let Ok(mut p) = lines {
            let mut out = vec![];
            p.write_into(&mut out).map_err(|e| e.to_string())?;
            ensure_eq!((p.path(), Some(&out)), (path, content.as_ref()), "recorded lines");
            p.change_path(Path::new("another/name"));
            ensure_eq!(p.path(), Path::new("another/name"), "path changed");
        }
        let bytes = PathAndBytes::new(path);
        ensure_eq!(bytes.is_ok(), content.is_some(), "bytes of {path:?} recorded");
        if let Ok(mut p) = bytes {
            let mut out = vec![];
            p.write_into(&mut out).map_err(|e| e.to_string())?;
            ensure_eq!((p.path(), Some(&out)), (path, content.as_ref()), "recorded bytes");
            p.change_path(Path::new("another/name"));
            ensure_eq!(p.path(), Path::new("another/name"), "path changed");
        }
    }
    let dir = scratch::dir();
    for p in [dir.clone(), dir.join("does/not/exist")] {
        ensure!(PathAndLines::new(&p).is_err() && PathAndBytes::new(&p).is_err(), "content of {p:?}");
        for (x, y) in [(b, p.as_path()), (p.as_path(), a)] {
            ensure!(TextChangeDiff::new(x, y, c.ctx).is_err() && ByteChangeDiff::new(x, y, c.ctx).is_err(), "a change between {x:?} and {y:?}");
        }
    }
    Ok(())
}

fn f02(c: &FileCase, o: &mut Obs) -> CheckResult {
    let (b, a) = place(c)?;
    let d = Diff::new(&b, &a, c.ctx).map_err(|e| format!("Diff::new: {e}"))?;
    o.nontrivial = c.before != c.after;
    o.label(kind(&d));
    recorded(c, &d, &b, &a)?;
    // (comparing large or repetitive files byte by byte would take too long)
    if few_pairs(c.before.as_deref().unwrap_or(&[]), c.after.as_deref().unwrap_or(&[])) {
        constructors(c, &b, &a)?;
    }
    // comparing changes nothing
    for (p, content) in [(&b, &c.before), (&a, &c.after)] {
        ensure_eq!(&std::fs::read(p).ok(), content, "file {p:?} after comparing");
    }
    let dir = scratch::dir();
    let none = dir.join("does/not/exist");
    ensure!(Diff::new(&none, &dir.join("nor this"), c.ctx).is_err(), "a diff of two missing files");
    // something unreadable is an error
    ensure!(Diff::new(&dir, &none, c.ctx).is_err(), "a removed directory was recorded");
    ensure!(Diff::new(&none, &dir, c.ctx).is_err(), "an added directory was recorded");
    // so is a path that cannot be looked up
    use std::os::unix::ffi::OsStrExt;
    let nul = std::ffi::OsStr::from_bytes(b"nul\0nul");
    let file = if c.before.is_some() { &b } else { &a };
    for bad in [file.join("below a file"), dir.join("n".repeat(300)), dir.join(nul), PathBuf::new()] {
        ensure!(Diff::new(&bad, &none, c.ctx).is_err(), "a diff of {bad:?} and nothing");
        ensure!(Diff::new(&none, &bad, c.ctx).is_err(), "a diff of nothing and {bad:?}");
        ensure!(TextChangeDiff::new(&bad, file, c.ctx).is_err() && ByteChangeDiff::new(file, &bad, c.ctx).is_err(), "a change of {bad:?}");
        ensure!(PathAndLines::new(&bad).is_err() && PathAndBytes::new(&bad).is_err(), "content of {bad:?}");
    }
    if c.before.is_some() {
        ensure!(Diff::new(&b, &dir, c.ctx).is_err() && Diff::new(&dir, &b, c.ctx).is_err(), "a directory was compared");
    }
    Ok(())
}

impl Big {
    fn files(&self) -> FileCase {
        let (before, after) = self.contents();
        FileCase { before, after, names: (0, 1), ctx: self.ctx }
    }
}

// ---------------------------------------------------------------- F01

fn f01_round(c: &FileCase, o: &mut Obs) -> CheckResult {
    let (b, a) = place(c)?;
    let d = Diff::new(&b, &a, c.ctx).map_err(|e| format!("Diff::new: {e}"))?;
    let first = saved(&d)?;
    o.nontrivial = first.len() > 120;
    o.label(kind(&d));
    let back = load(&first).map_err(|e| format!("loading a saved diff: {e}"))?;
    let again = saved(&back)?;
    ensure_eq!(String::from_utf8_lossy(&again), String::from_utf8_lossy(&first), "saved again");
    recorded(c, &back, &b, &a)?;
    let (x, y) = effects(&d, c)?;
    ensure!((&x, &y) == (&effects(&back, c)?.0, &effects(&back, c)?.1), "the reloaded diff applies differently");
    // and with the right result
    match (&c.before, &c.after) {
        (Some(old), Some(new)) => ensure!(&x == new && &y == old, "the diff does not apply to its own files"),
        (old, new) => ensure!(Some(&x) == old.as_ref().or(new.as_ref()), "recorded content differs"),
    }
    // the inner form
    match &d {
        Diff::TextChange(t) => {
            let mut s = vec![];
            t.to_writer(&mut s).map_err(|e| e.to_string())?;
            let t2 = TextChangeDiff::from_reader(&mut &s[..]).map_err(|e| e.to_string())?;
            let mut s2 = vec![];
            t2.to_writer(&mut s2).map_err(|e| e.to_string())?;
            ensure!(s == s2 && t2.before_path() == b && t2.after_path() == a, "text change diff saved again");
        }
        Diff::ByteChange(t) => {
            let mut s = vec![];
            t.to_writer(&mut s).map_err(|e| e.to_string())?;
            let t2 = ByteChangeDiff::from_reader(&mut &s[..]).map_err(|e| e.to_string())?;
            let mut s2 = vec![];
            t2.to_writer(&mut s2).map_err(|e| e.to_string())?;
            ensure!(s == s2 && t2.before_path() == b && t2.after_path() == a, "byte change diff saved again");
        }
        _ => {}
    }
    Ok(())
}

/// A diff built without files (by its saved form), then damaged.
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct DamageCase {
    pub before: Content,
    pub after: Content,
    pub ctx: u8,
    #[serde(default)]
    pub inner: bool,
    pub damages: Vec<Damage>,
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub enum Damage {
    Truncate(Index2),
    Byte(Index2, u8),
    Delete(Index2, u8),
    Insert(Index2, u8),
    Append(u8),
    Twice,
    /// replace (or drop) one value anywhere in the document
    Value(Index2, u8),
}

fn damage_case() -> BoxedStrategy<DamageCase> {
    let d = prop_oneof![
        2 => index2().prop_map(Damage::Truncate),
        2 => (index2(), prop_oneof![any::<u8>(), prop::sample::select(b"{}[],:\"\\0-9.eE ntf".to_vec())]).prop_map(|(i, b)| Damage::Byte(i, b)),
        1 => (index2(), 1u8..20).prop_map(|(i, n)| Damage::Delete(i, n)),
        1 => (index2(), any::<u8>()).prop_map(|(i, b)| Damage::Insert(i, b)),
        1 => any::<u8>().prop_map(Damage::Append),
        1 => Just(Damage::Twice),
        4 => (index2(), any::<u8>()).prop_map(|(i, b)| Damage::Value(i, b)),
    ];
    (contents(), ctx(), prop::bool::weighted(0.3), vec(d, 1..4))
        .prop_map(|((before, after), ctx, inner, damages)| DamageCase { before, after, ctx, inner, damages })
        .boxed()
}

/// The saved form, written independently of the library's structures.
pub fn saved_value(before: &Content, after: &Content, bp: &str, ap: &str, ctx: u8) -> Value {
    let s = |v: &Vec<u8>| String::from_utf8(v.clone()).unwrap();
    let text = utf8(before) && utf8(after);
    match (before, after) {
        (Some(b), Some(a)) if text => serde_json::json!({"TextChange": {
            "before_path": bp, "after_path": ap, "clumps": text_patch(&s(b), &s(a), ctx).0}}),
        (Some(b), Some(a)) => serde_json::json!({"ByteChange": {
            "before_path": bp, "after_path": ap, "compressed": false, "clumps": byte_patch(b, a, ctx).0}}),
        (b, a) => {
            let (k, c) = match (b, a) {
                (Some(c), None) => ("Remove", c),
                (_, Some(c)) => ("Add", c),
                _ => unreachable!(),
            };
            if text {
                serde_json::json!({format!("Text{k}"): {"path": bp, "lines": split(&s(c))}})
            } else {
                serde_json::json!({format!("Byte{k}"): {"path": bp, "compressed": false, "bytes": c}})
            }
        }
    }
}

fn nodes(v: &Value) -> usize {
    1 + match v {
        Value::Array(a) => a.iter().map(nodes).sum(),
        Value::Object(o) => o.values().map(nodes).sum(),
        _ => 0,
    }
}

/// Replaces (Some) or removes (None) the n-th value.
fn mutate(v: &mut Value, n: &mut usize, with: &Option<Value>) -> bool {
    if *n == 0 {
        if let Some(w) = with {
            *v = w.clone();
        }
        return true;
    }
    *n -= 1;
    match v {
        Value::Array(a) => {
            for i in 0..a.len() {
                if *n == 0 && with.is_none() {
                    a.remove(i);
                    return true;
                }
                if mutate(&mut a[i], n, with) {
                    return true;
                }
            }
        }
        Value::Object(o) => {
            let keys: Vec<String> = o.keys().cloned().collect();
            for k in keys {
                if *n == 0 && with.is_none() {
                    o.remove(&k);
                    return true;
                }
                if mutate(o.get_mut(&k).unwrap(), n, with) {
                    return true;
                }
            }
        }
        _ => {}
    }
    false
}

fn junk(k: u8) -> Option<Value> {
    use serde_json::json;
    match k % 16 {
        0..=3 => None,
        4 => Some(Value::Null),
        5 => Some(json!(-1)),
        6 => Some(json!(256)),
        7 => Some(json!(1.5)),
        8 => Some(json!("x")),
        9 => Some(json!([])),
        10 => Some(json!({})),
        11 => Some(json!(true)),
        12 => Some(json!(u64::MAX)),
        13 => Some(json!([1, 2])),
        14 => Some(json!({"start": 0, "items": []})),
        _ => Some(json!("TextChange")),
    }
}

/// Is this value a complete saved diff? (Structures may also be given as arrays.)
fn complete(v: &Value) -> bool {
    let field = |v: &Value, names: &[&str], i: usize| -> Option<Value> {
        match v {
            Value::Object(o) => o.get(names[i]).cloned(),
            Value::Array(a) if a.len() == names.len() => a.get(i).cloned(),
            _ => None,
        }
    };
    let is_u8 = |v: &Value| v.as_u64().is_some_and(|n| n < 256);
    let pair = |v: &Value| v.as_array().is_some_and(|a| a.len() == 2 && a.iter().all(is_u8));
    let snip = |v: &Value, text: bool| -> bool {
        let n = ["start", "items"];
        field(v, &n, 0).is_some_and(|x| x.is_u64())
            && field(v, &n, 1).is_some_and(|x| {
                x.as_array().is_some_and(|a| a.iter().all(|i| if text { i.is_string() } else { is_u8(i) }))
            })
    };
    let clump = |v: &Value, text: bool| -> bool {
        let n = ["context_lengths", "before", "after"];
        field(v, &n, 0).is_some_and(|x| pair(&x))
            && field(v, &n, 1).is_some_and(|x| snip(&x, text))
            && field(v, &n, 2).is_some_and(|x| snip(&x, text))
    };
    let Some(o) = v.as_object() else { return false };
    if o.len() != 1 {
        return false;
    }
    let (k, d) = o.iter().next().unwrap();
    let str_ = |x: Option<Value>| x.is_some_and(|x| x.is_string());
    match k.as_str() {
        "TextChange" => {
            let n = ["before_path", "after_path", "clumps"];
            str_(field(d, &n, 0))
                && str_(field(d, &n, 1))
                && field(d, &n, 2).is_some_and(|x| x.as_array().is_some_and(|a| a.iter().all(|c| clump(c, true))))
        }
        "ByteChange" => {
            let n = ["before_path", "after_path", "compressed", "clumps"];
            str_(field(d, &n, 0))
                && str_(field(d, &n, 1))
                && field(d, &n, 2).is_some_and(|x| x.is_boolean())
                && field(d, &n, 3).is_some_and(|x| x.as_array().is_some_and(|a| a.iter().all(|c| clump(c, false))))
        }
        "TextAdd" | "TextRemove" => {
            let n = ["path", "lines"];
            str_(field(d, &n, 0))
                && field(d, &n, 1).is_some_and(|x| x.as_array().is_some_and(|a| a.iter().all(|i| i.is_string())))
        }
        "ByteAdd" | "ByteRemove" => {
            let n = ["path", "compressed", "bytes"];
            str_(field(d, &n, 0))
                && field(d, &n, 1).is_some_and(|x| x.is_boolean())
                && field(d, &n, 2).is_some_and(|x| x.as_array().is_some_and(|a| a.iter().all(is_u8)))
        }
        _ => false,
    }
}

/// Loads a change by itself and saves it again.
fn load_change(kind: &str, bytes: &[u8]) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    let e = |e: serde_json::Error| e.to_string();
    if kind == "TextChange" {
        TextChangeDiff::from_reader(&mut &bytes[..]).map_err(e)?.to_writer(&mut out).map_err(e)?;
    } else {
        ByteChangeDiff::from_reader(&mut &bytes[..]).map_err(e)?.to_writer(&mut out).map_err(e)?;
    }
    Ok(out)
}

fn f01_damage(c: &DamageCase, o: &mut Obs) -> CheckResult {
    let mut v = saved_value(&c.before, &c.after, "old", "new", c.ctx);
    // undamaged, it loads
    let good = serde_json::to_vec_pretty(&v).map_err(|e| e.to_string())?;
    let d = load(&good).map_err(|e| format!("a complete saved diff is refused: {e}"))?;
    let again: Value = serde_json::from_slice(&saved(&d)?).map_err(|e| e.to_string())?;
    ensure_eq!(again, v, "reloaded diff");
    // a change by itself
    let kind = v.as_object().and_then(|o| o.keys().next().cloned()).unwrap_or_default();
    let inner = c.inner && kind.ends_with("Change");
    if inner {
        v = v[&kind].take();
    }
    let good = serde_json::to_vec_pretty(&v).map_err(|e| e.to_string())?;
    for damage in &c.damages {
        if let Damage::Value(i, k) = damage {
            let mut n = i.of(nodes(&v));
            mutate(&mut v, &mut n, &junk(*k));
        }
    }
    let mut bytes = serde_json::to_vec_pretty(&v).map_err(|e| e.to_string())?;
    for damage in &c.damages {
        let len = bytes.len();
        if len == 0 {
            break;
        }
        match damage {
            Damage::Truncate(i) => bytes.truncate(i.of(len)),
            Damage::Byte(i, b) => bytes[i.of(len)] = *b,
            Damage::Delete(i, n) => {
                let p = i.of(len);
                bytes.drain(p..(p + *n as usize).min(len));
            }
            Damage::Insert(i, b) => bytes.insert(i.of(len + 1), *b),
            Damage::Append(b) => bytes.push(*b),
            Damage::Twice => {
                let copy = bytes.clone();
                bytes.extend(copy)
            }
            Damage::Value(..) => {}
        }
    }
    o.nontrivial = bytes != good;
    if inner {
        o.label("a change by itself");
        let again = load_change(&kind, &bytes);
        o.label(if again.is_ok() { "still loads" } else { "refused" });
        if let Ok(again) = again {
            for text in [&bytes, &again] {
                let v: Value = serde_json::from_slice(text)
                    .map_err(|e| format!("loaded although it is not a JSON document: {e}: {:?}", String::from_utf8_lossy(text)))?;
                ensure!(complete(&serde_json::json!({ kind.clone(): v })), "loaded although it is not a complete saved change: {v}");
            }
        }
        return Ok(());
    }
    let loaded = load(&bytes);
    o.label(if loaded.is_ok() { "still loads" } else { "refused" });
    if let Ok(d) = loaded {
        let v: Value = serde_json::from_slice(&bytes)
            .map_err(|e| format!("loaded although it is not a JSON document: {e}: {:?}", String::from_utf8_lossy(&bytes)))?;
        ensure!(complete(&v), "loaded although it is not a complete saved diff: {v}");
        let again = saved(&d)?;
        let w: Value = serde_json::from_slice(&again).map_err(|e| e.to_string())?;
        ensure!(complete(&w), "the loaded diff is saved incompletely: {w}");
    }
    Ok(())
}

fn f01_prefixes(c: &DamageCase, o: &mut Obs) -> CheckResult {
    let v = saved_value(&c.before, &c.after, "old", "new", c.ctx);
    let bytes = saved(&load(&serde_json::to_vec(&v).unwrap())?)?;
    o.nontrivial = bytes.len() > 100;
    if c.inner && c.before.is_some() && c.after.is_some() {
        o.label("a change by itself");
        let (kind, inner) = v.as_object().and_then(|o| o.iter().next()).unwrap();
        let bytes = load_change(kind, &serde_json::to_vec(inner).unwrap())?;
        let step = (bytes.len() / 400).max(1);
        for n in (0..bytes.len()).step_by(step).chain(bytes.len().saturating_sub(5)..bytes.len()) {
            ensure!(load_change(kind, &bytes[..n]).is_err(), "the first {n} of {} bytes load as a change", bytes.len());
        }
        return Ok(());
    }
    let step = (bytes.len() / 400).max(1);
    for n in (0..bytes.len()).step_by(step).chain(bytes.len().saturating_sub(5)..bytes.len()) {
        ensure!(load(&bytes[..n]).is_err(), "the first {n} of {} bytes load as a diff", bytes.len());
    }
    Ok(())
}

// ---------------------------------------------------------------- F03

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct FaultCase {
    pub before: Content,
    pub after: Content,
    /// target the patch is applied to, made from the first (or second, reversed) file
    pub target: Option<Vec<u8>>,
    pub reverse: bool,
    pub ctx: u8,
    pub script: Vec<Step>,
    /// which offsets to fail at, if there are too many to try all
    pub picks: Vec<Index2>,
}

fn fault_case() -> BoxedStrategy<FaultCase> {
    let related = prop_oneof![
        1 => text_triple().prop_map(|t| (Some(t.before.into_bytes()), Some(t.after.into_bytes()), Some(t.target.into_bytes()))),
        1 => byte_triple().prop_map(|t| (Some(t.before), Some(t.after), Some(t.target))),
        1 => contents().prop_map(|(b, a)| (b, a, None)),
    ];
    (related, any::<bool>(), ctx(), script(false), vec(index2(), 12))
        .prop_map(|((before, after, target), reverse, ctx, script, picks)| FaultCase {
            before,
            after,
            target,
            reverse,
            ctx,
            script,
            picks,
        })
        .boxed()
}

/// More than fits any buffer on the way.
fn large_fault_case() -> BoxedStrategy<FaultCase> {
    (fault_case(), big(17, 14, true))
        .prop_map(|(mut c, b)| {
            (c.before, c.after) = b.contents();
            c.target = None;
            c.picks.truncate(4);
            c
        })
        .boxed()
}

/// Fails once, at a limit, and would accept everything afterwards.
struct FailOnce {
    out: Vec<u8>,
    limit: usize,
    failed: bool,
}

impl std::io::Write for FailOnce {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if !self.failed && self.out.len() == self.limit && !buf.is_empty() {
            self.failed = true;
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "injected"));
        }
        let mut n = buf.len();
        if !self.failed {
            n = n.min(self.limit - self.out.len());
        }
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// `f` writes something: it must do so completely or fail, leaving a prefix.
fn faults(
    what: &str,
    c: &FaultCase,
    f: &dyn Fn(&mut dyn std::io::Write) -> Result<(), String>,
    o: &mut Obs,
) -> CheckResult {
    let mut full = vec![];
    f(&mut full).map_err(|e| format!("{what} on an in-memory buffer: {e}"))?;
    let mut w = ScriptWriter::new(&c.script, None, false);
    f(&mut w).map_err(|e| format!("{what} on a short-writing destination: {e}"))?;
    ensure!(w.out == full, "{what}: a short-writing destination received {:?}, expected {:?}", String::from_utf8_lossy(&w.out), String::from_utf8_lossy(&full));
    let n = full.len();
    let limits: Vec<usize> = if n <= 40 {
        (0..n).collect()
    } else {
        let block = |k: usize| n / k * k; // where the last whole block of this size ends
        c.picks.iter().map(|p| p.of(n)).chain([0, 1, n / 2, n - 2, n - 1, block(4096), block(8192), block(65536)]).filter(|l| *l < n).collect()
    };
    o.nontrivial |= n > 1;
    for l in limits {
        for zero in [false, true] {
            let mut w = ScriptWriter::new(&c.script, Some(l), zero);
            let r = f(&mut w);
            ensure!(r.is_err(), "{what}: success although the destination failed at byte {l} of {n}");
            ensure!(w.out == full[..l], "{what}: after a failure at byte {l} the destination holds something else than a prefix");
        }
        let mut w = FailOnce { out: vec![], limit: l, failed: false };
        let r = f(&mut w);
        ensure!(r.is_err(), "{what}: success although one write failed at byte {l} of {n}");
        // (what was buffered may be tried again)
        ensure!(full.starts_with(&w.out), "{what}: after one failed write at byte {l} the destination holds something else than a prefix");
    }
    Ok(())
}

struct Dyn<'a>(&'a mut dyn std::io::Write);
impl std::io::Write for Dyn<'_> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.0.write(buf)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.0.flush()
    }
}

fn f03(c: &FaultCase, o: &mut Obs) -> CheckResult {
    let v = saved_value(&c.before, &c.after, "old", "new", c.ctx);
    let json = serde_json::to_vec(&v).map_err(|e| e.to_string())?;
    let d = load(&json)?;
    o.label(kind(&d));
    let es = |e: std::io::Error| e.to_string();
    faults("saving a diff", c, &|w| d.to_writer(&mut Dyn(w)).map_err(|e| e.to_string()), o)?;
    let target = c.target.clone().unwrap_or_else(|| {
        if c.reverse { c.after.clone() } else { c.before.clone() }.unwrap_or_default()
    });
    match &d {
        Diff::TextChange(t) => {
            faults("saving a text change", c, &|w| t.to_writer(&mut Dyn(w)).map_err(|e| e.to_string()), o)?;
            let seq = seq_text(&String::from_utf8_lossy(&target));
            faults("patching text", c, &|w| t.apply_into(&seq, &mut Dyn(w), c.reverse).map(|_| ()).map_err(es), o)?;
        }
        Diff::ByteChange(t) => {
            faults("saving a byte change", c, &|w| t.to_writer(&mut Dyn(w)).map_err(|e| e.to_string()), o)?;
            let seq = seq_bytes(&target);
            faults("patching bytes", c, &|w| t.apply_into(&seq, &mut Dyn(w), c.reverse).map_err(es), o)?;
        }
        Diff::TextAdd(p) | Diff::TextRemove(p) => {
            faults("writing recorded lines", c, &|w| p.write_into(&mut Dyn(w)).map_err(es), o)?
        }
        Diff::ByteAdd(p) | Diff::ByteRemove(p) => {
            faults("writing recorded bytes", c, &|w| p.write_into(&mut Dyn(w)).map_err(es), o)?
        }
    }
    // readers
    let pretty = saved(&d)?;
    let got = Diff::from_reader(&mut ScriptReader::new(&pretty, &c.script)).map_err(|e| format!("loading through a short-reading source: {e}"))?;
    ensure!(saved(&got)? == pretty, "a short-reading source gives another diff");
    for p in c.picks.iter().take(4) {
        let k = p.of(pretty.len() + 1);
        let mut s: Vec<Step> = vec![];
        if k > 0 {
            s.push(Step::Chunk(k));
        }
        s.push(Step::Fail);
        let mut r = OneByte(ScriptReader::new(&pretty, &s), k);
        ensure!(Diff::from_reader(&mut r).is_err(), "loaded although reading failed after byte {k} of {}", pretty.len());
    }
    Ok(())
}

/// Parts of sequences and snippets, written by themselves.
fn f03_parts(c: &FaultCase, o: &mut Obs) -> CheckResult {
    let data = c.target.clone().or(c.before.clone()).or(c.after.clone()).unwrap_or_default();
    let lines = Seq::<String>::from(String::from_utf8_lossy(&data).to_string());
    let bytes = Seq::<u8>::from(data);
    parts("lines", &lines, c, o)?;
    parts("bytes", &bytes, c, o)
}

fn parts<T: PartialEq + Clone>(what: &str, seq: &Seq<T>, c: &FaultCase, o: &mut Obs) -> CheckResult
where
    Seq<T>: WriteDataInto,
    Snippet<T>: SnippetWrite,
{
    let es = |e: std::io::Error| e.to_string();
    let (i, j) = (c.picks[0].of(seq.len() + 1), c.picks[1].of(seq.len() + 1));
    let (i, j) = (i.min(j), i.max(j));
    let snippet = seq.extract_snippet(Range(i, j));
    let (l, r) = (c.picks[2].of((j - i).min(255) + 1), c.picks[3].of((j - i).min(255) + 1));
    let red = (l + r <= j - i).then_some((l as u8, r as u8));
    faults(&format!("writing a range of {what}"), c, &|w| seq.write_into(&mut Dyn(w), Range(i, j)).map_err(es), o)?;
    faults(&format!("writing {what} from {i}"), c, &|w| seq.write_into_all_from(&mut Dyn(w), i).map_err(es), o)?;
    faults(&format!("writing a snippet of {what}"), c, &|w| snippet.write_into(&mut Dyn(w), red).map_err(es), o)?;
    faults(&format!("writing a whole snippet of {what}"), c, &|w| snippet.write_into(&mut Dyn(w), None).map_err(es), o)?;
    let copy = |w: &mut dyn std::io::Write| {
        let mut cursor = ConsumableSeq::new(seq);
        cursor.write_into_upto(&mut Dyn(w), i)?;
        cursor.advance_consumed_by(j - i);
        cursor.write_remainder(&mut Dyn(w)).map(|_| ())
    };
    faults(&format!("copying {what} around {i}..{j}"), c, &|w| copy(w).map_err(es), o)
}

/// Delivers the first k bytes in pieces of any size, then always fails.
struct OneByte<'a>(ScriptReader<'a>, usize);
impl std::io::Read for OneByte<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.0.at >= self.1 {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "injected read failure"));
        }
        let n = buf.len().min(self.1 - self.0.at);
        buf[..n].copy_from_slice(&self.0.data[self.0.at..self.0.at + n]);
        self.0.at += n;
        Ok(n)
    }
}

#[allow(dead_code)]
fn types(_: &PathAndLines, _: &PathAndBytes) {}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "F01",
            level: "exploration",
            rule: "diffs of every kind (made from files; unusual contents and paths) saved, reloaded, saved again and applied; saved diffs truncated at every point and damaged at random (bytes, values, fields, trailing data), against an independent validator of the format. Non-trivial: more than an empty diff / actually damaged",
            assumptions: &[],
            subs: vec![
                rand("round_trip", "saved and reloaded", file_case, f01_round, 6_000, 250_000),
                rand("names", "paths of any kind", || named_case(false), f01_names, 3_000, 120_000),
                rand_few("big", "sizes around powers of two up to 2^24", || big(24, 18, true), |b, o| f01_round(&b.files(), o), 160, 2_000),
                rand("damaged", "random damage", damage_case, f01_damage, 30_000, 1_500_000),
                rand("prefixes", "every truncation", damage_case, f01_prefixes, 300, 12_000),
            ],
        },
        Property {
            id: "F02",
            level: "exploration",
            rule: "pairs of files, present or not, text or not, with plain, nested and unusual names. Non-trivial: the two states differ",
            assumptions: &[],
            subs: vec![
                rand("files", "file pairs", file_case, f02, 8_000, 300_000),
                rand("names", "paths of any kind, one path given twice", || named_case(false), f02_names, 3_000, 120_000),
                rand_few("big", "sizes around powers of two up to 2^24", || big(24, 18, true), |b, o| f02(&b.files(), o), 160, 2_000),
                rand("pipes", "files of which one or both are pipes", file_case, f02_pipes, 6_000, 200_000),
            ],
        },
        Property {
            id: "F03",
            level: "fault_enumeration",
            rule: "for each generated diff and target, every writing operation is run against a destination failing at each byte (12 random and up to 8 fixed offsets above 40 bytes) in three ways (for good, accepting nothing, once), and against short-writing and interrupting destinations; loading against short-reading, interrupted and failing sources. Non-trivial: more than one byte is written",
            assumptions: &[],
            subs: vec![rand("faults", "diffs and targets", fault_case, f03, 4_000, 150_000),
                rand_few("large", "contents of up to 2^17 bytes", large_fault_case, f03, 200, 4_000),
                rand("parts", "ranges, snippets and copies of sequences", fault_case, f03_parts, 4_000, 150_000)],
        },
    ]
}
