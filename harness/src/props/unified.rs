//! U01-U06: unified diff hunks, headers and file header lines.

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::Index;
use serde::{Deserialize, Serialize};

use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::scratch;
use crate::{ensure, ensure_eq};

use pw_cub_diff_lib::text_diff::{DiffParseError, StartAndLength};
use pw_cub_diff_lib::unified_diff::{
    after_path_and_time_stamp, before_path_and_time_stamp, starts_and_lengths, StartsAndLengths,
    UnifiedClumpIter, UnifiedDiffClump,
};
use pw_diff_lib::apply_text::{ApplyClumpFuzzy, ApplyClumpsFuzzy, TextClumpBasics};
use pw_diff_lib::changes::{ChangeBasics, Changes};
use pw_diff_lib::range::Range;
use pw_diff_lib::sequence::Seq;

// ---------------------------------------------------------------- reference model

/// A hunk as the unified format defines it. Starts as written in the header.
#[derive(Debug, Clone, PartialEq)]
struct RefHunk {
    b_start: usize,
    a_start: usize,
    before: Vec<String>,
    after: Vec<String>,
    lead: usize,
    trail: usize,
    context_only: bool,
    consumed: usize,
}

impl RefHunk {
    /// 0-based position of the hunk's region
    fn pos(start: usize, len: usize) -> usize {
        if len > 0 {
            start - 1
        } else {
            start
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
enum Header {
    Not,
    /// resembles a header but is not in the canonical form: no expectation
    Loose,
    TooBig,
    Numbers(usize, usize, usize, usize),
}

fn digits(s: &mut std::iter::Peekable<std::str::Chars>) -> Option<String> {
    let mut out = String::new();
    while let Some(c) = s.next_if(|c| c.is_numeric()) {
        out.push(c);
    }
    (!out.is_empty()).then_some(out)
}

/// Hand-written recogniser of hunk header lines, independent of any regular expression.
fn ref_header(line: &str) -> Header {
    let mut loose = false;
    let body = line.strip_suffix('\n').unwrap_or(line);
    if body.contains('\n') {
        return Header::Not;
    }
    let Some(rest) = body.strip_prefix("@@") else {
        return Header::Not;
    };
    let mut it = rest.chars().peekable();
    let mut spaces = |it: &mut std::iter::Peekable<std::str::Chars>| {
        let mut n = 0;
        while let Some(c) = it.next_if(|c| c.is_whitespace()) {
            n += 1;
            if c != ' ' {
                loose = true;
            }
        }
        if n > 1 {
            loose = true;
        }
        n > 0
    };
    let mut nums: Vec<Option<String>> = vec![];
    for sign in ['-', '+'] {
        if !spaces(&mut it) || it.next() != Some(sign) {
            return Header::Not;
        }
        let Some(n) = digits(&mut it) else {
            return Header::Not;
        };
        nums.push(Some(n));
        if it.next_if_eq(&',').is_some() {
            let Some(n) = digits(&mut it) else {
                return Header::Not;
            };
            nums.push(Some(n));
        } else {
            nums.push(None);
        }
    }
    if !spaces(&mut it) || it.next() != Some('@') || it.next() != Some('@') {
        return Header::Not;
    }
    if let Some(c) = it.peek() {
        if *c != ' ' && *c != '\r' {
            loose = true;
        }
    }
    let all: Vec<String> = nums.into_iter().map(|n| n.unwrap_or("1".to_string())).collect();
    if loose || all.iter().any(|n| !n.bytes().all(|b| b.is_ascii_digit())) {
        return Header::Loose;
    }
    let v: Vec<Option<usize>> = all.iter().map(|n| decimal(n)).collect();
    match (v[0], v[1], v[2], v[3]) {
        (Some(a), Some(b), Some(c), Some(d)) => Header::Numbers(a, b, c, d),
        _ => Header::TooBig,
    }
}

fn decimal(s: &str) -> Option<usize> {
    let mut n = 0usize;
    for b in s.bytes() {
        n = n.checked_mul(10)?.checked_add((b - b'0') as usize)?;
    }
    Some(n)
}

#[derive(Debug, Clone, PartialEq)]
enum Expect {
    /// not a hunk header
    NoHunk,
    /// an error: why, of which kind, and the index of the line it is about
    Bad(&'static str, &'static str, usize),
    Hunk(RefHunk),
    /// outside what the format defines: any answer, but never a crash
    Any,
}

/// Reference parser.
fn ref_parse(lines: &[String], at: usize) -> Expect {
    let Some(first) = lines.get(at) else {
        return Expect::NoHunk;
    };
    let (bs, bl, as_, al) = match ref_header(first) {
        Header::Not => return Expect::NoHunk,
        Header::Loose => return Expect::Any,
        Header::TooBig => return Expect::Bad("a number too large", "number", at),
        Header::Numbers(a, b, c, d) => (a, b, c, d),
    };
    let mut h = RefHunk {
        b_start: bs,
        a_start: as_,
        before: vec![],
        after: vec![],
        lead: 0,
        trail: 0,
        context_only: true,
        consumed: 1,
    };
    let mut odd = (bs == 0 && bl > 0) || (as_ == 0 && al > 0);
    let mut n = at + 1;
    let mut closed = (false, false);
    while h.before.len() < bl || h.after.len() < al {
        let Some(line) = lines.get(n) else {
            return if odd { Expect::Any } else { Expect::Bad("cut short", "end", n) };
        };
        n += 1;
        h.consumed += 1;
        let (inb, ina) = match line.chars().next() {
            Some('-') => (true, false),
            Some('+') => (false, true),
            Some(' ') => (true, true),
            // some programs write empty context lines without the space
            Some('\n') | Some('\r') => return Expect::Any,
            // a marker where no line has been seen, or a second one
            Some('\\') => return Expect::Any,
            _ => return if odd { Expect::Any } else { Expect::Bad("unknown prefix", "body", n - 1) },
        };
        if (inb && closed.0) || (ina && closed.1) {
            // a line after a side's line without newline
            odd = true;
        }
        let mut text = line[1..].to_string();
        let this = n - 1;
        if lines.get(n).is_some_and(|l| l.starts_with('\\')) {
            n += 1;
            h.consumed += 1;
            if let Some(t) = text.strip_suffix('\n') {
                text = t.to_string();
            } else {
                odd = true;
            }
            closed.0 |= inb;
            closed.1 |= ina;
        } else if !text.ends_with('\n') {
            odd = true; // the diff itself ends without a newline
        }
        if inb && ina {
            h.trail += 1;
        } else {
            if h.context_only {
                h.lead = h.trail;
            }
            h.context_only = false;
            h.trail = 0;
        }
        if inb {
            h.before.push(text.clone());
        }
        if ina {
            h.after.push(text);
        }
        if h.before.len() > bl || h.after.len() > al {
            return if odd { Expect::Any } else { Expect::Bad("more lines than announced", "body", this) };
        }
    }
    if h.context_only {
        h.lead = h.trail;
    }
    if bl == 0 && al == 0 {
        odd = true;
    }
    if odd {
        return Expect::Any;
    }
    Expect::Hunk(h)
}

/// Applies hunks by the rules of the format: exact positions, exact lines.
fn ref_apply_hunks(hunks: &[RefHunk], text: &str, reverse: bool) -> Result<String, String> {
    let src = split(text);
    let mut out = String::new();
    let mut at = 0usize;
    let mut produced = 0usize;
    for (i, h) in hunks.iter().enumerate() {
        let (fs, from, ts, to) = if reverse {
            (h.a_start, &h.after, h.b_start, &h.before)
        } else {
            (h.b_start, &h.before, h.a_start, &h.after)
        };
        ensure!(fs > 0 || from.is_empty(), "hunk {i}: start 0 with lines");
        ensure!(ts > 0 || to.is_empty(), "hunk {i}: start 0 with lines");
        let pos = RefHunk::pos(fs, from.len());
        ensure!(pos >= at, "hunk {i} overlaps or precedes the previous one: {pos} < {at}");
        ensure!(pos + from.len() <= src.len(), "hunk {i} ends beyond the text");
        for l in &src[at..pos] {
            out.push_str(l);
        }
        produced += pos - at;
        ensure_eq!(RefHunk::pos(ts, to.len()), produced, "hunk {} position on the other side", i);
        ensure_eq!(&src[pos..pos + from.len()], &from[..], "hunk {} lines", i);
        for l in to {
            out.push_str(l);
        }
        produced += to.len();
        at = pos + from.len();
    }
    for l in &src[at..] {
        out.push_str(l);
    }
    Ok(out)
}

fn err_line(e: &DiffParseError) -> &'static str {
    match e {
        DiffParseError::ParseNumberError(..) => "number",
        DiffParseError::UnexpectedEndOfInput => "end",
        DiffParseError::UnexpectedEndClump(_) => "body",
        DiffParseError::SyntaxError(_) => "syntax",
    }
}

/// The index of the line an error is about.
fn line_of(e: &DiffParseError) -> Option<usize> {
    match e {
        DiffParseError::ParseNumberError(_, n) => Some(*n),
        DiffParseError::UnexpectedEndOfInput => None,
        DiffParseError::UnexpectedEndClump(n) => Some(*n),
        DiffParseError::SyntaxError(n) => Some(*n),
    }
}

fn strs<'a>(it: impl Iterator<Item = &'a String>) -> Vec<String> {
    it.cloned().collect()
}

/// Everything observable about a parsed hunk against the reference.
fn compare(got: &UnifiedDiffClump, want: &RefHunk) -> CheckResult {
    let sal = &got.starts_and_lengths;
    ensure_eq!(
        (sal.before.start, sal.before.length, sal.after.start, sal.after.length),
        (want.b_start, want.before.len(), want.a_start, want.after.len()),
        "header numbers"
    );
    ensure_eq!(got.before_lines.to_vec(), want.before, "old lines");
    ensure_eq!(got.after_lines.to_vec(), want.after, "new lines");
    ensure_eq!(got.lines_consumed, want.consumed, "lines consumed");
    let (s, e) = got.context_lengths;
    if want.context_only {
        ensure!(s as usize + e as usize <= want.before.len(), "context lengths {s},{e} of a hunk of {} lines", want.before.len());
    } else {
        ensure_eq!((s as usize, e as usize), (want.lead.min(255), want.trail.min(255)), "context lengths");
    }
    ensure_eq!(TextClumpBasics::context_lengths(got), got.context_lengths, "context_lengths()");
    if want.b_start.max(want.a_start) > isize::MAX as usize / 2 {
        return Ok(()); // positions beyond any possible text
    }
    for reverse in [false, true] {
        let (bs, b, as_, a) = if reverse {
            (want.a_start, &want.after, want.b_start, &want.before)
        } else {
            (want.b_start, &want.before, want.a_start, &want.after)
        };
        let (bp, ap) = (RefHunk::pos(bs, b.len()), RefHunk::pos(as_, a.len()));
        ensure_eq!(got.before_start(reverse), bp, "before_start({})", reverse);
        ensure_eq!(got.after_start(reverse), ap, "after_start({})", reverse);
        ensure_eq!(got.before_length(reverse), b.len(), "before_length({})", reverse);
        ensure_eq!(got.after_length(reverse), a.len(), "after_length({})", reverse);
        ensure_eq!(got.before_end(reverse), bp + b.len(), "before_end({})", reverse);
        ensure_eq!(got.after_end(reverse), ap + a.len(), "after_end({})", reverse);
        ensure_eq!(got.before_range(None, reverse), Range(bp, bp + b.len()), "before_range({})", reverse);
        ensure_eq!(got.after_range(None, reverse), Range(ap, ap + a.len()), "after_range({})", reverse);
        ensure_eq!(strs(got.before_lines(None, reverse)), *b, "before_lines({})", reverse);
        ensure_eq!(strs(got.after_lines(None, reverse)), *a, "after_lines({})", reverse);
        let redn = (s.min(1), e.min(2));
        let (rs, re) = (redn.0 as usize, redn.1 as usize);
        let my = got.my_before_range(Some(redn), reverse);
        ensure_eq!(my, Range(rs, b.len() - re), "my_before_range({:?}, {})", redn, reverse);
        ensure_eq!(strs(got.before_lines(Some(my), reverse)), b[rs..b.len() - re], "before_lines of a range");
        ensure_eq!(got.before_range(Some(redn), reverse), Range(bp + rs, bp + b.len() - re), "before_range({:?}, {})", redn, reverse);
        let my = got.my_after_range(Some(redn), reverse);
        ensure_eq!(my, Range(rs, a.len() - re), "my_after_range({:?}, {})", redn, reverse);
        ensure_eq!(strs(got.after_lines(Some(my), reverse)), a[rs..a.len() - re], "after_lines of a range");
        ensure_eq!(got.after_range(Some(redn), reverse), Range(ap + rs, ap + a.len() - re), "after_range({:?}, {})", redn, reverse);
    }
    Ok(())
}

fn check_parse(text: &str, at: usize) -> Result<Expect, String> {
    let lines = split(text);
    let want = ref_parse(&lines, at);
    let got = UnifiedDiffClump::get_from_at(&seq_text(text), at);
    match (&want, got) {
        (Expect::NoHunk, Ok(None)) => {}
        (Expect::NoHunk, Ok(Some(_))) => return Err("a line that is no hunk header was taken for a hunk".into()),
        (Expect::NoHunk, Err(e)) => return Err(format!("error ({}) for a line that is no hunk header", err_line(&e))),
        (Expect::Bad(w, kind, line), Err(e)) => {
            ensure_eq!(err_line(&e), *kind, "kind of the error for a hunk with {}", w);
            if let Some(l) = line_of(&e) {
                ensure_eq!(l, *line, "line of the error for a hunk with {}", w);
            }
        }
        (Expect::Bad(w, ..), Ok(Some(c))) => {
            return Err(format!(
                "a bad hunk ({w}) was accepted with {} old and {} new lines",
                c.before_lines.len(),
                c.after_lines.len()
            ))
        }
        (Expect::Bad(w, ..), Ok(None)) => return Err(format!("a bad hunk ({w}) was reported as no hunk")),
        (Expect::Hunk(h), Ok(Some(c))) => compare(&c, h)?,
        (Expect::Hunk(_), Ok(None)) => return Err("a well-formed hunk was not recognised".into()),
        (Expect::Hunk(_), Err(e)) => return Err(format!("error ({}) for a well-formed hunk", err_line(&e))),
        (Expect::Any, Ok(Some(c))) => {
            ensure_eq!(
                (c.before_lines.len(), c.after_lines.len()),
                (c.starts_and_lengths.before.length, c.starts_and_lengths.after.length),
                "line counts against the header"
            );
            ensure!(
                c.lines_consumed >= 1 && at + c.lines_consumed <= lines.len(),
                "hunk of {} lines at {at} in a text of {} lines", c.lines_consumed, lines.len()
            );
        }
        (Expect::Any, _) => {}
    }
    Ok(want)
}

// ---------------------------------------------------------------- U01

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct HunkCase {
    pub b_start: usize,
    pub a_start: usize,
    /// 0: context, 1: removed, 2: added; and the line's content
    pub body: Vec<(u8, String)>,
    pub noeol: (bool, bool),
    /// write the counts even if they are 1
    pub explicit: (bool, bool),
    pub section: String,
    pub marker: String,
    pub lead: Vec<String>,
    pub tail: Vec<String>,
}

/// The hunk's text and the meaning it was built from.
fn write_hunk(c: &HunkCase) -> (Vec<String>, RefHunk) {
    let nb = c.body.iter().filter(|(k, _)| *k != 2).count();
    let na = c.body.iter().filter(|(k, _)| *k != 1).count();
    let b_start = if nb > 0 { c.b_start.max(1) } else { c.b_start };
    let a_start = if na > 0 { c.a_start.max(1) } else { c.a_start };
    let side = |start: usize, n: usize, explicit: bool| {
        if n == 1 && !explicit {
            format!("{start}")
        } else {
            format!("{start},{n}")
        }
    };
    let mut out = vec![format!(
        "@@ -{} +{} @@{}\n",
        side(b_start, nb, c.explicit.0),
        side(a_start, na, c.explicit.1),
        c.section
    )];
    let last_b = c.body.iter().rposition(|(k, _)| *k != 2);
    let last_a = c.body.iter().rposition(|(k, _)| *k != 1);
    let mut h = RefHunk {
        b_start,
        a_start,
        before: vec![],
        after: vec![],
        lead: c.body.iter().take_while(|(k, _)| *k == 0).count(),
        trail: c.body.iter().rev().take_while(|(k, _)| *k == 0).count(),
        context_only: c.body.iter().all(|(k, _)| *k == 0),
        consumed: 0,
    };
    for (i, (k, text)) in c.body.iter().enumerate() {
        let bare = match k {
            1 => c.noeol.0 && last_b == Some(i),
            2 => c.noeol.1 && last_a == Some(i),
            _ => (c.noeol.0 || c.noeol.1) && last_b == Some(i) && last_a == Some(i),
        };
        let line = if bare { text.clone() } else { format!("{text}\n") };
        out.push(format!("{}{text}\n", [' ', '-', '+'][*k as usize]));
        if bare {
            out.push(format!("\\{}\n", c.marker));
        }
        if *k != 2 {
            h.before.push(line.clone());
        }
        if *k != 1 {
            h.after.push(line);
        }
    }
    h.consumed = out.len();
    (out, h)
}

fn content() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[a-c]{0,2}",
        3 => (0..PALETTE.len()).prop_map(|i| PALETTE[i].to_string()),
        1 => "[^\n]{0,6}",
        1 => prop_oneof![Just("- x"), Just("+ x"), Just("-- x"), Just("++ x"), Just("-- "), Just("++ "), Just("-- a/b\t2024-01-02 03:04:05.000000000 +0000"), Just("++ a/b"), Just("--- "), Just("diff --git a/b a/b"), Just("Index: a"), Just("  x"), Just("\\ x"), Just("a  "), Just("a\t"), Just("-"), Just("+"), Just("\r"), Just("@@ -1,2 +3,4 @@")].prop_map(String::from),
    ]
    .boxed()
}

fn body() -> BoxedStrategy<Vec<(u8, String)>> {
    prop_oneof![
        // the usual shape
        4 => (vec(content(), 0..4), vec((1u8..3, content()), 1..6), vec(content(), 0..4)).prop_map(|(l, m, t)| {
            l.into_iter().map(|x| (0, x)).chain(m).chain(t.into_iter().map(|x| (0, x))).collect()
        }),
        // anything
        3 => vec((0u8..3, content()), 1..10),
        // one kind only
        1 => (0u8..3, vec(content(), 1..5)).prop_map(|(k, v)| v.into_iter().map(|x| (k, x)).collect()),
    ]
    .boxed()
}

fn start() -> BoxedStrategy<usize> {
    prop_oneof![4 => 0usize..5, 3 => 0usize..2000, 1 => 0usize..(1 << 40)].boxed()
}

fn section() -> BoxedStrategy<String> {
    prop_oneof![
        4 => Just(String::new()),
        1 => Just(" ".to_string()),
        2 => " [^\n]{0,12}",
        1 => prop_oneof![Just(" @@"), Just(" -1,2 +3,4 @@"), Just(" fn main() {"), Just(" @@ -7 +7 @@"), Just("\r"), Just(" \\ No newline")].prop_map(String::from),
    ]
    .boxed()
}

fn other_line() -> BoxedStrategy<String> {
    prop_oneof![
        Just("--- a\n"), Just("+++ b\n"), Just("diff --git a/x b/x\n"), Just("-- \n"), Just("\n"),
        Just("@@ -1 +1 @@\n"), Just(" a\n"), Just("+a\n"), Just("-a\n"), Just("Only in b: x\n"), Just("index 1..2\n"),
    ]
    .prop_map(String::from)
    .boxed()
}

fn hunk_case() -> BoxedStrategy<HunkCase> {
    (
        (start(), start()),
        body(),
        (prop::bool::weighted(0.3), prop::bool::weighted(0.3)),
        any::<(bool, bool)>(),
        section(),
        prop_oneof![3 => Just(" No newline at end of file".to_string()), 1 => Just(" Kein Zeilenumbruch am Dateiende.".to_string()), 1 => Just(" ".to_string())],
        (vec(other_line(), 0..4), vec(other_line(), 0..4)),
    )
        .prop_map(|((b_start, a_start), body, noeol, explicit, section, marker, (lead, tail))| HunkCase {
            b_start, a_start, body, noeol, explicit, section, marker, lead, tail,
        })
        .boxed()
}

fn long_hunk_case() -> BoxedStrategy<HunkCase> {
    (
        hunk_case(),
        prop_oneof![0usize..20, 120usize..140, 250usize..262, 500usize..520],
        prop_oneof![0usize..20, 120usize..140, 250usize..262, 500usize..520],
        0usize..300,
    )
        .prop_map(|(mut c, lead, trail, mid)| {
            let mut body: Vec<(u8, String)> = (0..lead).map(|i| (0, format!("l{i}"))).collect();
            body.extend(c.body.clone());
            body.extend((0..mid).map(|i| (1 + (i % 2) as u8, format!("m{i}"))));
            body.extend((0..trail).map(|i| (0, format!("t{i}"))));
            c.body = body;
            c
        })
        .boxed()
}

/// Tens of thousands of lines, described briefly: context, changed lines, context around a small hunk.
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct HugeHunk {
    pub case: HunkCase,
    pub lead: u32,
    pub mid: u32,
    pub trail: u32,
    /// changed lines: removed and added in turn, removed, added
    pub kind: u8,
}

fn huge_hunk() -> BoxedStrategy<HugeHunk> {
    let size = || {
        prop_oneof![
            2 => 0u32..20,
            1 => (8u32..=16, 0u32..5).prop_map(|(e, d)| (1 << e) + d - 2),
            1 => 0u32..40_000,
        ]
    };
    (hunk_case(), size(), size(), size(), 0u8..3)
        .prop_map(|(case, lead, mid, trail, kind)| HugeHunk { case, lead, mid, trail, kind })
        .boxed()
}

fn u01_huge(c: &HugeHunk, o: &mut Obs) -> CheckResult {
    let mut case = c.case.clone();
    let mut body: Vec<(u8, String)> = (0..c.lead).map(|i| (0, format!("l{i}"))).collect();
    body.extend(case.body);
    body.extend((0..c.mid).map(|i| (if c.kind == 0 { 1 + (i % 2) as u8 } else { c.kind }, format!("m{i}"))));
    body.extend((0..c.trail).map(|i| (0, format!("t{i}"))));
    o.label_if(body.len() > 65_536, "more than 65536 lines");
    case.body = body;
    u01(&case, o)
}

fn hunk_text(c: &HunkCase) -> (String, usize, RefHunk) {
    let (lines, h) = write_hunk(c);
    let mut text: String = c.lead.concat();
    text.push_str(&lines.concat());
    text.push_str(&c.tail.concat());
    (text, c.lead.len(), h)
}

fn u01(c: &HunkCase, o: &mut Obs) -> CheckResult {
    let (text, at, want) = hunk_text(c);
    o.nontrivial = !want.context_only;
    o.label_if(text.lines().any(|l| l.starts_with('\\')), "no-newline marker");
    o.label_if(want.before.is_empty() || want.after.is_empty(), "one side empty");
    o.label_if(want.lead > 255 || want.trail > 255, "context beyond 255");
    o.label_if(want.before.len() == 1 || want.after.len() == 1, "count of 1");
    match UnifiedDiffClump::get_from_at(&seq_text(&text), at) {
        Ok(Some(got)) => compare(&got, &want)?,
        Ok(None) => return Err("a well-formed hunk was not recognised".into()),
        Err(e) => return Err(format!("error ({}) for a well-formed hunk", err_line(&e))),
    }
    // the reference parser agrees with the generator (a check of the checker)
    match ref_parse(&split(&text), at) {
        Expect::Hunk(h) => ensure_eq!(h, want, "reference parser against the generated meaning"),
        e => return Err(format!("reference parser: {e:?}")),
    }
    Ok(())
}

/// All bodies of up to 4 lines over {context, removed, added} with all marker choices.
fn u01_exh(thorough: bool) -> Box<dyn Iterator<Item = HunkCase>> {
    let max = if thorough { 7 } else { 5 };
    Box::new(all_seqs(3, max).into_iter().filter(|s| !s.is_empty()).flat_map(|s| {
        (0..16u8).map(move |m| HunkCase {
            b_start: (m % 4) as usize,
            a_start: (m / 4 % 4) as usize,
            body: s.iter().enumerate().map(|(i, k)| (*k, ((b'a' + i as u8) as char).to_string())).collect(),
            noeol: (m & 1 != 0, m & 2 != 0),
            explicit: (m & 4 != 0, m & 8 != 0),
            section: String::new(),
            marker: " No newline at end of file".into(),
            lead: vec![],
            tail: if m & 1 != 0 { vec!["-- \n".into()] } else { vec![] },
        })
    }))
}

/// Hunks of every length up to a few hundred and around powers of two.
fn u01_lengths(thorough: bool) -> Box<dyn Iterator<Item = HugeHunk>> {
    let lines = |k: &[u8]| -> Vec<(u8, String)> { k.iter().map(|k| (*k, format!("s{k}"))).collect() };
    let case = move |k: &[u8]| HunkCase {
        b_start: 3,
        a_start: 4,
        body: lines(k),
        noeol: (k.len() == 2, false),
        explicit: (false, false),
        section: String::new(),
        marker: " No newline at end of file".into(),
        lead: vec!["x\n".into()],
        tail: vec!["@@ -1 +1 @@\n".into()],
    };
    let sizes = lengths(if thorough { 1_100 } else { 300 }, 16);
    Box::new(sizes.flat_map(move |n| {
        (0..3u8)
            .map(|kind| HugeHunk { case: case(&[]), lead: 0, mid: n, trail: 0, kind })
            .chain([(n, 0), (0, n), (n, n)].map(|(lead, trail)| HugeHunk { case: case(&[1, 2]), lead, mid: 0, trail, kind: 0 }))
            .collect::<Vec<_>>()
    }))
}

// ---------------------------------------------------------------- U02

fn render(before: &str, after: &str, ctx: u8) -> Vec<(String, Vec<String>)> {
    let changes = Changes::<String>::new(seq_text(before), seq_text(after));
    UnifiedClumpIter {
        before: &changes.before,
        after: &changes.after,
        iter: changes.change_clumps(ctx),
    }
    .map(|c| (c.header, c.lines))
    .collect()
}

fn hunk_lines(h: &(String, Vec<String>)) -> String {
    let mut s = h.0.clone();
    if !s.ends_with('\n') {
        s.push('\n');
    }
    s.push_str(&h.1.concat());
    s
}

/// Parses a rendered hunk strictly.
fn parse_rendered(h: &(String, Vec<String>)) -> Result<RefHunk, String> {
    ensure!(
        !h.0.trim_end_matches('\n').contains('\n'),
        "header {:?} is more than a line", h.0
    );
    for (i, l) in h.1.iter().enumerate() {
        ensure!(l.ends_with('\n') && l.matches('\n').count() == 1, "entry {i} is not one line: {l:?}");
        ensure!(matches!(l.as_bytes()[0], b' ' | b'+' | b'-' | b'\\'), "entry {i} has no prefix: {l:?}");
        if l.starts_with('\\') {
            ensure!(l.starts_with("\\ "), "entry {i} is not a standard marker: {l:?}");
            ensure!(i > 0 && !h.1[i - 1].starts_with('\\'), "marker {i} follows no line");
        }
    }
    let text = hunk_lines(h);
    let lines = split(&text);
    match ref_parse(&lines, 0) {
        Expect::Hunk(r) => {
            ensure_eq!(r.consumed, lines.len(), "lines of the hunk its header announces");
            Ok(r)
        }
        e => Err(format!("rendered hunk is not well-formed ({e:?}): {text:?}")),
    }
}

fn u02(p: &TextPair, o: &mut Obs) -> CheckResult {
    let hunks = render(&p.before, &p.after, p.ctx);
    o.nontrivial = !hunks.is_empty();
    o.label_if(hunks.len() > 1, "several hunks");
    o.label_if(
        !p.before.is_empty() && !p.after.is_empty() && (p.before.ends_with('\n') != p.after.ends_with('\n')),
        "final newline on one side only",
    );
    o.label_if(p.before.is_empty() || p.after.is_empty(), "one side empty");
    ensure_eq!(hunks.is_empty(), p.before == p.after, "no hunks");
    let parsed: Vec<RefHunk> = hunks.iter().map(parse_rendered).collect::<Result<_, _>>()?;
    for (i, h) in parsed.iter().enumerate() {
        ensure!(!h.context_only, "hunk {i} changes nothing");
        ensure!(h.lead <= p.ctx as usize && h.trail <= p.ctx as usize, "hunk {i} has more than {} lines of context", p.ctx);
    }
    ensure_eq!(ref_apply_hunks(&parsed, &p.before, false)?, p.after, "applied to the first text");
    ensure_eq!(ref_apply_hunks(&parsed, &p.after, true)?, p.before, "reversed on the second text");
    Ok(())
}

/// The system's patch program as a second opinion.
fn u02_gnu(p: &TextPair, o: &mut Obs) -> CheckResult {
    let hunks = render(&p.before, &p.after, p.ctx);
    if hunks.is_empty() || !std::path::Path::new("/usr/bin/patch").exists() {
        return Ok(());
    }
    // patch's own restrictions: lines with CR and NUL are treated specially
    if p.before.contains(['\r', '\0']) || p.after.contains(['\r', '\0']) {
        return Ok(());
    }
    o.nontrivial = true;
    let dir = scratch::fresh("gnu");
    let mut diff = "--- old\n+++ new\n".to_string();
    for h in &hunks {
        diff.push_str(&hunk_lines(h));
    }
    let w = |n: &str, s: &str| std::fs::write(dir.join(n), s).map_err(|e| e.to_string());
    w("d", &diff)?;
    for (from, to, r) in [(&p.before, &p.after, "-f"), (&p.after, &p.before, "-R")] {
        w("old", from)?;
        let out = std::process::Command::new("/usr/bin/patch")
            .args([r, "--posix", "-f", "-F0", "-s", "-u", "-o", "out", "old", "d"])
            .current_dir(&dir)
            .output()
            .map_err(|e| e.to_string())?;
        let res = std::fs::read_to_string(dir.join("out")).unwrap_or_default();
        ensure!(
            out.status.success() && res == *to,
            "patch {r}: {:?} {} {:?} result {res:?}, expected {to:?}",
            out.status, String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr)
        );
        let _ = std::fs::remove_file(dir.join("out"));
    }
    Ok(())
}

// ---------------------------------------------------------------- U03

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct TextAt {
    pub text: String,
    pub at: usize,
}

fn u03(c: &TextAt, o: &mut Obs) -> CheckResult {
    let n = split(&c.text).len();
    let at = c.at.min(n);
    // the chosen index, and then every other one
    let e = check_parse(&c.text, at)?;
    o.label(match e {
        Expect::NoHunk => "no hunk",
        Expect::Bad(..) => "bad hunk",
        Expect::Hunk(_) => "hunk",
        Expect::Any => "outside the format",
    });
    o.nontrivial = e != Expect::NoHunk;
    if n <= 40 {
        for i in 0..=n {
            check_parse(&c.text, i).map_err(|m| format!("at line {i}: {m}"))?;
        }
    }
    Ok(())
}

fn odd_number() -> BoxedStrategy<String> {
    prop_oneof![
        4 => (0usize..6).prop_map(|n| n.to_string()),
        1 => Just("18446744073709551615".to_string()),
        1 => Just("18446744073709551616".to_string()),
        1 => Just("9223372036854775807".to_string()),
        1 => "[0-9]{1,30}",
        1 => prop_oneof![Just("٣"), Just("-1"), Just(""), Just("x"), Just("00"), Just("007"), Just("+1")].prop_map(String::from),
    ]
    .boxed()
}

fn odd_header() -> BoxedStrategy<String> {
    let num = || (odd_number(), prop::option::of(odd_number())).prop_map(|(a, b)| match b {
        Some(b) => format!("{a},{b}"),
        None => a,
    });
    prop_oneof![
        5 => (num(), num(), section(), prop_oneof![4 => Just("\n"), 1 => Just("")]).prop_map(|(b, a, s, e)| format!("@@ -{b} +{a} @@{s}{e}")),
        1 => (num(), num()).prop_map(|(b, a)| format!("@@ +{b} -{a} @@\n")),
        1 => (num(), num()).prop_map(|(b, a)| format!("@@@ -{b} -{a} +{a} @@@\n")),
        1 => (num(), num()).prop_map(|(b, a)| format!(" @@ -{b} +{a} @@\n")),
        1 => (num(), num()).prop_map(|(b, a)| format!("@@ -{b} +{a}\n")),
        1 => (num(), num()).prop_map(|(b, a)| format!("@@ -{b} +{a} @\n")),
        1 => (num(), num()).prop_map(|(b, a)| format!("@@  -{b}\t+{a}  @@x\n")),
        1 => (num(), num()).prop_map(|(b, a)| format!("@@-{b} +{a} @@\n")),
        1 => (num(), num()).prop_map(|(b, a)| format!("@@ -{b}+{a} @@\n")),
        1 => (num(), num()).prop_map(|(b, a)| format!("x@@ -{b} +{a} @@\n")),
    ]
    .boxed()
}

fn any_line() -> BoxedStrategy<String> {
    prop_oneof![
        3 => ("[-+ ]", content()).prop_map(|(p, c)| format!("{p}{c}\n")),
        2 => Just("\\ No newline at end of file\n".to_string()),
        1 => other_line(),
        1 => odd_header(),
        1 => content().prop_map(|c| format!("{c}\n")),
        1 => Just("\n".to_string()),
        1 => "\\PC{0,5}".prop_map(|c| format!("{c}\n")),
    ]
    .boxed()
}

#[derive(Debug, Clone)]
enum Mut {
    Del(Index),
    Dup(Index),
    Swap(Index, Index),
    Ins(Index, String),
    Prefix(Index, char),
    CutLines(Index),
    CutBytes(Index),
    Header(String),
}

fn mutation() -> BoxedStrategy<Mut> {
    prop_oneof![
        any::<Index>().prop_map(Mut::Del),
        any::<Index>().prop_map(Mut::Dup),
        any::<(Index, Index)>().prop_map(|(a, b)| Mut::Swap(a, b)),
        (any::<Index>(), any_line()).prop_map(|(i, l)| Mut::Ins(i, l)),
        (any::<Index>(), prop_oneof![Just('-'), Just('+'), Just(' '), Just('\\'), Just('@'), any::<char>()])
            .prop_map(|(i, c)| Mut::Prefix(i, c)),
        any::<Index>().prop_map(Mut::CutLines),
        any::<Index>().prop_map(Mut::CutBytes),
        odd_header().prop_map(Mut::Header),
    ]
    .boxed()
}

fn mutate(lines: &mut Vec<String>, header: usize, m: &Mut) {
    if lines.is_empty() {
        return;
    }
    let n = lines.len();
    match m {
        Mut::Del(i) => {
            lines.remove(i.index(n));
        }
        Mut::Dup(i) => {
            let l = lines[i.index(n)].clone();
            lines.insert(i.index(n), l);
        }
        Mut::Swap(a, b) => lines.swap(a.index(n), b.index(n)),
        Mut::Ins(i, l) => lines.insert(i.index(n + 1), l.clone()),
        Mut::Prefix(i, c) => {
            let l = &mut lines[i.index(n)];
            let rest: String = l.chars().skip(1).collect();
            *l = if rest.is_empty() && *c != '\n' { format!("{c}\n") } else { format!("{c}{rest}") };
        }
        Mut::CutLines(i) => lines.truncate(i.index(n + 1)),
        Mut::CutBytes(i) => {
            let all = lines.concat();
            let mut k = i.index(all.len() + 1);
            while !all.is_char_boundary(k) {
                k -= 1;
            }
            *lines = split(&all[..k]);
        }
        Mut::Header(h) => {
            if header < n {
                lines[header] = h.clone();
            }
        }
    }
}

fn mutated() -> BoxedStrategy<TextAt> {
    (hunk_case(), vec(mutation(), 1..4))
        .prop_map(|(c, ms)| {
            let (text, at, _) = hunk_text(&c);
            let mut lines = split(&text);
            for m in &ms {
                mutate(&mut lines, at, m);
            }
            TextAt { text: lines.concat(), at }
        })
        .boxed()
}

fn headed() -> BoxedStrategy<TextAt> {
    (odd_header(), vec(any_line(), 0..8))
        .prop_map(|(h, l)| TextAt { text: h + &l.concat(), at: 0 })
        .boxed()
}

fn raw_text() -> BoxedStrategy<TextAt> {
    (
        prop_oneof![
            2 => "[-+ @,0-3\\\\\n]{0,60}",
            1 => "\\PC{0,40}",
            2 => vec(any_line(), 0..10).prop_map(|v| v.concat()),
            1 => vec(any::<char>(), 0..30).prop_map(|v| v.into_iter().collect::<String>()),
        ],
        0usize..12,
    )
        .prop_map(|(text, at)| TextAt { text, at })
        .boxed()
}

/// Hunks of every length up to a few hundred and around powers of two that are a line short or have
/// a line too many.
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct Miscounted {
    pub n: u32,
    /// the kind of line
    pub kind: u8,
    /// 0: as announced, 1: one more, 2: one fewer, 3: one fewer and something else instead
    pub how: u8,
}

fn u03_lengths(thorough: bool) -> Box<dyn Iterator<Item = Miscounted>> {
    Box::new(lengths(if thorough { 1_100 } else { 300 }, 13).flat_map(|n| (0..12u8).map(move |k| Miscounted { n, kind: k % 3, how: k / 3 })))
}

fn u03_miscounted(c: &Miscounted, o: &mut Obs) -> CheckResult {
    let Miscounted { n, kind, how } = *c;
    let (b, a) = match kind {
        0 => (n + 1, n + 1),
        1 => (n, 1),
        _ => (1, n),
    };
    let mut text = format!("@@ -1,{b} +1,{a} @@\n");
    let m = if how == 1 { n + 1 } else if how >= 2 { n - 1 } else { n };
    (0..m).for_each(|i| text += &format!("{}{i}\n", [' ', '-', '+'][kind as usize]));
    if how == 3 {
        text += "other\n";
    }
    match kind {
        0 => text += "-old\n+new\n",
        1 => text += "+new\n",
        _ => text += "-old\n",
    }
    u03(&TextAt { text, at: 0 }, o)
}

/// Every body over the five kinds of line under every small header.
fn u03_exh(thorough: bool) -> Box<dyn Iterator<Item = TextAt>> {
    let max = if thorough { 5 } else { 4 };
    let bodies = all_seqs(5, max);
    Box::new((0..16usize).flat_map(move |h| {
        let head = format!("@@ -1,{} +1,{} @@\n", h % 4, h / 4);
        let bodies = bodies.clone();
        bodies.into_iter().map(move |b| {
            let mut text = head.clone();
            for k in b {
                text.push_str([" a\n", "-b\n", "+c\n", "\\ No newline at end of file\n", "x\n"][k as usize]);
            }
            TextAt { text, at: 0 }
        })
    }))
}

// ---------------------------------------------------------------- U04

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct Numbers {
    pub n: [usize; 4],
    pub explicit: (bool, bool),
    pub section: String,
    pub eol: bool,
}

fn number() -> BoxedStrategy<usize> {
    prop_oneof![
        4 => 0usize..4, 2 => 0usize..1000, 1 => any::<usize>(), 1 => any::<u32>().prop_map(|x| x as usize),
        1 => prop_oneof![Just(usize::MAX), Just(usize::MAX - 1), Just(1 << 63), Just(i64::MAX as usize), Just(10), Just(100)],
    ]
    .boxed()
}

fn u04(c: &Numbers, o: &mut Obs) -> CheckResult {
    let [bs, bl, as_, al] = c.n;
    o.nontrivial = true;
    o.label_if(bl == 1 || al == 1, "count of 1");
    let sal = StartsAndLengths {
        before: StartAndLength { start: bs, length: bl },
        after: StartAndLength { start: as_, length: al },
    };
    let side = |s: usize, l: usize, e: bool| if l == 1 && !e { s.to_string() } else { format!("{s},{l}") };
    let text = format!("{sal}");
    ensure_eq!(text, format!("@@ -{} +{} @@", side(bs, bl, false), side(as_, al, false)), "formatted header");
    let spelt = format!(
        "@@ -{} +{} @@{}{}",
        side(bs, bl, c.explicit.0),
        side(as_, al, c.explicit.1),
        c.section,
        if c.eol { "\n" } else { "" }
    );
    for t in [&text, &(text.clone() + "\n"), &spelt] {
        match starts_and_lengths(t, 7) {
            Ok(Some(got)) => {
                ensure!(got == sal, "{t:?} parsed to {got:?}");
            }
            other => return Err(format!("{t:?} parsed to {other:?}")),
        }
    }
    // starts and counts agree with what the hunk parser sees
    Ok(())
}

fn numbers_case() -> BoxedStrategy<Numbers> {
    ([number(), number(), number(), number()], any::<(bool, bool)>(), section(), any::<bool>())
        .prop_map(|(n, explicit, section, eol)| Numbers { n, explicit, section, eol })
        .boxed()
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct Line(pub String);

fn u04_lines(l: &Line, o: &mut Obs) -> CheckResult {
    let want = ref_header(&l.0);
    let got = starts_and_lengths(&l.0, 3);
    o.nontrivial = want != Header::Not || l.0.contains("@@");
    match (&want, &got) {
        (Header::Not, Ok(None)) | (Header::Loose, _) => Ok(()),
        (Header::TooBig, Err(DiffParseError::ParseNumberError(_, 3))) => Ok(()),
        (Header::Numbers(a, b, c, d), Ok(Some(s)))
            if (*a, *b, *c, *d) == (s.before.start, s.before.length, s.after.start, s.after.length) =>
        {
            Ok(())
        }
        _ => Err(format!("{:?}: got {got:?}, expected {want:?}", l.0)),
    }
}

// ---------------------------------------------------------------- U05

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct FileHeader {
    pub path: String,
    pub quoted: bool,
    pub stamp: Option<String>,
    pub sep: String,
    /// after the path (no timestamp) or the timestamp
    pub end: String,
    pub before: bool,
}

fn u05(c: &FileHeader, o: &mut Obs) -> CheckResult {
    let mut line = if c.before { "--- " } else { "+++ " }.to_string();
    if c.quoted {
        line.push_str(&format!("\"{}\"", c.path));
    } else {
        line.push_str(&c.path);
    }
    if let Some(s) = &c.stamp {
        line.push_str(&c.sep);
        line.push_str(s);
    }
    line.push_str(&c.end);
    o.nontrivial = true;
    o.label_if(c.stamp.is_some(), "timestamp");
    o.label_if(c.quoted, "quoted path");
    let (own, other) = if c.before {
        (before_path_and_time_stamp(&line), after_path_and_time_stamp(&line))
    } else {
        (after_path_and_time_stamp(&line), before_path_and_time_stamp(&line))
    };
    ensure!(other.is_none(), "{line:?} recognised as the other kind of header");
    let Some(got) = own else {
        return Err(format!("{line:?} not recognised"));
    };
    ensure_eq!(got.file_path, c.path, "path of {:?}", line);
    ensure_eq!(got.time_stamp, c.stamp, "timestamp of {:?}", line);
    Ok(())
}

fn stamp() -> BoxedStrategy<String> {
    let zone = || (prop_oneof![Just('-'), Just('+')], 0u16..=9999).prop_map(|(s, z)| format!("{s}{z:04}"));
    prop_oneof![
        (0u16..=9999, 1u8..=12, 1u8..=31, 0u8..24, 0u8..60, 0u8..=60, prop::option::of(0u32..1_000_000_000), zone()).prop_map(
            |(y, mo, d, h, mi, s, ns, z)| {
                let f = ns.map_or(String::new(), |n| format!(".{n:09}"));
                format!("{y:04}-{mo:02}-{d:02} {h:02}:{mi:02}:{s:02}{f} {z}")
            }
        ),
        (0usize..7, 0usize..12, 1u8..=31, 0u8..24, 0u8..60, 0u8..=60, 0u16..=9999, zone()).prop_map(
            |(wd, mo, d, h, mi, s, y, z)| {
                const W: [&str; 7] = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"];
                const M: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
                format!("{} {} {d:02} {h:02}:{mi:02}:{s:02} {y:04} {z}", W[wd], M[mo])
            }
        ),
    ]
    .boxed()
}

fn file_header() -> BoxedStrategy<FileHeader> {
    let plain = prop_oneof![
        3 => "[a-z./_-]{1,12}",
        2 => "[^\\s\"\\p{C}\\p{Z}]{1,10}",
        1 => prop_oneof![Just("/dev/null"), Just("a/b.c"), Just("---"), Just("+++"), Just("2002-02-21"), Just("a\\b"), Just("日本語"), Just("@@"), Just("é")].prop_map(String::from),
    ];
    let quoted = prop_oneof![
        2 => "[a-z ./]{1,12}",
        1 => "[^\"\n]{1,10}",
        1 => (stamp(), "[a-z]{1,3}").prop_map(|(s, p)| format!("{p} {s}")),
        1 => prop_oneof![Just(" "), Just("a b"), Just("a\tb"), Just("dir x/file y"), Just(" a "), Just("a\\b")].prop_map(String::from),
    ];
    (
        prop_oneof![plain.prop_map(|p| (p, false)), quoted.prop_map(|p| (p, true))],
        prop::option::weighted(0.7, stamp()),
        prop_oneof![3 => Just("\t"), 2 => Just(" "), 1 => Just("  ")],
        prop_oneof![4 => Just("\n"), 1 => Just("\r\n"), 1 => Just("\t\n")],
        any::<bool>(),
    )
        .prop_map(|((path, quoted), stamp, sep, end, before)| FileHeader {
            path,
            quoted,
            stamp,
            sep: sep.to_string(),
            end: end.to_string(),
            before,
        })
        .boxed()
}

/// Lines that are no file header of the given kind, whatever else they are.
fn u05_not(l: &Line, o: &mut Obs) -> CheckResult {
    let b = l.0.strip_prefix("--- ").is_some_and(|r| !r.is_empty() && !r.starts_with(char::is_whitespace));
    let a = l.0.strip_prefix("+++ ").is_some_and(|r| !r.is_empty() && !r.starts_with(char::is_whitespace));
    let gb = before_path_and_time_stamp(&l.0);
    let ga = after_path_and_time_stamp(&l.0);
    o.nontrivial = l.0.starts_with(['-', '+']);
    ensure!(b || gb.is_none(), "{:?} taken for a --- line: {gb:?}", l.0);
    ensure!(a || ga.is_none(), "{:?} taken for a +++ line: {ga:?}", l.0);
    for g in [gb, ga].into_iter().flatten() {
        ensure!(!g.file_path.is_empty() && l.0.contains(&g.file_path), "path {:?} is not in {:?}", g.file_path, l.0);
        if let Some(t) = g.time_stamp {
            ensure!(l.0.contains(&t), "timestamp {t:?} is not in {:?}", l.0);
        }
    }
    Ok(())
}

fn not_header() -> BoxedStrategy<Line> {
    prop_oneof![
        2 => ("(-{1,5}|\\+{1,5}|[-+ ]{2,5})", "[ \t]{0,2}", "[a-z\" ]{0,6}", prop::option::of(stamp()), "\n?")
            .prop_map(|(a, b, c, d, e)| format!("{a}{b}{c}{}{e}", d.map_or(String::new(), |s| format!("\t{s}")))),
        1 => any_line(),
        1 => file_header().prop_map(|h| format!("{} {}{}{}\n", if h.before { "*** " } else { "---" }, h.path, h.sep, h.stamp.unwrap_or_default())),
        1 => "\\PC{0,20}",
    ]
    .prop_map(Line)
    .boxed()
}

// ---------------------------------------------------------------- U06

/// Makes parsed hunks applicable. Every query goes to the parsed hunk.
struct Parsed(UnifiedDiffClump);

impl ChangeBasics for Parsed {
    fn before_start(&self, r: bool) -> usize {
        self.0.before_start(r)
    }
    fn before_end(&self, r: bool) -> usize {
        self.0.before_end(r)
    }
    fn before_length(&self, r: bool) -> usize {
        self.0.before_length(r)
    }
    fn before_range(&self, x: Option<(u8, u8)>, r: bool) -> Range {
        self.0.before_range(x, r)
    }
    fn my_before_range(&self, x: Option<(u8, u8)>, r: bool) -> Range {
        self.0.my_before_range(x, r)
    }
    fn after_start(&self, r: bool) -> usize {
        self.0.after_start(r)
    }
    fn after_end(&self, r: bool) -> usize {
        self.0.after_end(r)
    }
    fn after_length(&self, r: bool) -> usize {
        self.0.after_length(r)
    }
    fn after_range(&self, x: Option<(u8, u8)>, r: bool) -> Range {
        self.0.after_range(x, r)
    }
    fn my_after_range(&self, x: Option<(u8, u8)>, r: bool) -> Range {
        self.0.my_after_range(x, r)
    }
}

impl TextClumpBasics for Parsed {
    fn context_lengths(&self) -> (u8, u8) {
        TextClumpBasics::context_lengths(&self.0)
    }
    fn before_lines(&self, range: Option<Range>, r: bool) -> impl Iterator<Item = &String> {
        self.0.before_lines(range, r)
    }
    fn after_lines(&self, range: Option<Range>, r: bool) -> impl Iterator<Item = &String> {
        self.0.after_lines(range, r)
    }
}

impl ApplyClumpFuzzy for Parsed {}

struct ParsedPatch(Vec<Parsed>);

impl ApplyClumpsFuzzy<Parsed> for ParsedPatch {
    fn clumps<'s>(&'s self) -> impl Iterator<Item = &'s Parsed>
    where
        Parsed: 's,
    {
        self.0.iter()
    }
}

/// Finds the hunks of a unified diff one after another.
fn parse_all(text: &str) -> Result<ParsedPatch, String> {
    let seq: Seq<String> = seq_text(text);
    let n = split(text).len();
    let mut at = 0;
    let mut out = vec![];
    while at < n {
        match UnifiedDiffClump::get_from_at(&seq, at) {
            Ok(Some(c)) => {
                ensure!(c.lines_consumed > 0, "a hunk that consumes nothing at {at}");
                at += c.lines_consumed;
                out.push(Parsed(c));
            }
            Ok(None) => at += 1,
            Err(e) => return Err(format!("error ({}) at line {at} of {text:?}", err_line(&e))),
        }
    }
    ensure_eq!(at, n, "the last hunk ends with the diff");
    Ok(ParsedPatch(out))
}

/// The same hunks in GNU diff's form: removals before additions.
fn gnu_form(hunks: &[RefHunk]) -> String {
    let mut s = String::from("--- old\t2002-02-21 23:30:39.942229878 -0800\n+++ new\t2002-02-21 23:30:50.442260588 -0800\n");
    let side = |st: usize, n: usize| if n == 1 { st.to_string() } else { format!("{st},{n}") };
    for h in hunks {
        s.push_str(&format!("@@ -{} +{} @@\n", side(h.b_start, h.before.len()), side(h.a_start, h.after.len())));
        let put = |s: &mut String, p: char, l: &str| {
            s.push(p);
            s.push_str(l);
            if !l.ends_with('\n') {
                s.push_str("\n\\ No newline at end of file\n");
            }
        };
        let (nb, na) = (h.before.len(), h.after.len());
        for l in &h.before[..h.lead] {
            put(&mut s, ' ', l);
        }
        for l in &h.before[h.lead..nb - h.trail] {
            put(&mut s, '-', l);
        }
        for l in &h.after[h.lead..na - h.trail] {
            put(&mut s, '+', l);
        }
        for l in &h.before[nb - h.trail..] {
            put(&mut s, ' ', l);
        }
    }
    s
}

fn u06(p: &TextPair, o: &mut Obs) -> CheckResult {
    let rendered = render(&p.before, &p.after, p.ctx);
    let n = rendered.len();
    o.nontrivial = n > 0;
    o.label_if(n > 1, "several hunks");
    o.label_if(!p.before.ends_with('\n') || !p.after.ends_with('\n'), "no final newline");
    let mut text = String::from("--- old\n+++ new\n");
    for h in &rendered {
        text.push_str(&hunk_lines(h));
    }
    let refs: Vec<RefHunk> = rendered.iter().map(parse_rendered).collect::<Result<_, _>>()?;
    for (what, text) in [("rendered", text), ("GNU form", gnu_form(&refs))] {
        let patch = parse_all(&text)?;
        ensure_eq!(patch.0.len(), n, "{} hunks found", what);
        for (from, to, reverse) in [(&p.before, &p.after, false), (&p.after, &p.before, true)] {
            let (out, stats) = apply_text(&patch, from, reverse)?;
            ensure_eq!(out, *to, "{}, reverse={}", what, reverse);
            ensure_eq!(stats, Stats::all_clean(n), "statistics of {}, reverse={}", what, reverse);
        }
    }
    Ok(())
}

/// On any target, a parsed diff does what the native one does.
fn u06_native(t: &TextTriple, o: &mut Obs) -> CheckResult {
    let native = text_patch(&t.before, &t.after, t.ctx);
    let text: String = render(&t.before, &t.after, t.ctx).iter().map(hunk_lines).collect();
    let patch = parse_all(&text)?;
    o.nontrivial = !native.0.is_empty();
    let a = apply_text(&native, &t.target, t.reverse)?;
    let b = apply_text(&patch, &t.target, t.reverse)?;
    o.label_if(a.1.failed > 0, "failed hunks");
    o.label_if(a.1.fuzzy > 0, "fuzzy hunks");
    ensure_eq!(b, a, "parsed against native");
    Ok(())
}

/// Diffs written by the system's diff program.
fn u06_gnu(p: &TextPair, o: &mut Obs) -> CheckResult {
    if !std::path::Path::new("/usr/bin/diff").exists() {
        return Ok(());
    }
    let dir = scratch::fresh("gnudiff");
    let w = |n: &str, s: &str| std::fs::write(dir.join(n), s).map_err(|e| e.to_string());
    w("old", &p.before)?;
    w("new", &p.after)?;
    let out = std::process::Command::new("/usr/bin/diff")
        .args(["-a", &format!("-U{}", p.ctx), "old", "new"])
        .env("LC_ALL", "C")
        .env("TZ", "UTC")
        .current_dir(&dir)
        .output()
        .map_err(|e| e.to_string())?;
    let Ok(text) = String::from_utf8(out.stdout) else { return Ok(()) };
    if text.is_empty() {
        return Ok(());
    }
    o.nontrivial = true;
    let lines = split(&text);
    for (l, name, before) in [(&lines[0], "old", true), (&lines[1], "new", false)] {
        let got = if before { before_path_and_time_stamp(l) } else { after_path_and_time_stamp(l) };
        let Some(got) = got else { return Err(format!("{l:?} not recognised")) };
        ensure_eq!(got.file_path, name, "path of {:?}", l);
        let stamp = l[4 + name.len() + 1..].trim_end_matches('\n').to_string();
        ensure_eq!(got.time_stamp, Some(stamp), "timestamp of {:?}", l);
    }
    let patch = parse_all(&text)?;
    for (from, to, reverse) in [(&p.before, &p.after, false), (&p.after, &p.before, true)] {
        let (out, stats) = apply_text(&patch, from, reverse)?;
        ensure_eq!(out, *to, "diff -U{}, reverse={}", p.ctx, reverse);
        ensure_eq!(stats, Stats::all_clean(patch.0.len()), "statistics");
    }
    Ok(())
}

const CTXS: &[u8] = &[0, 1, 3];

/// Small pairs with every combination of final newlines.
fn exh_pairs_eol(thorough: bool) -> Box<dyn Iterator<Item = TextPair>> {
    let seqs = std::rc::Rc::new(all_seqs(2, if thorough { 5 } else { 4 }));
    let n = seqs.len();
    Box::new((0..n * n).flat_map(move |k| {
        let (b, a) = (seqs[k / n].clone(), seqs[k % n].clone());
        (0..4 * CTXS.len()).map(move |m| TextPair {
            before: letters(&b, m & 1 != 0),
            after: letters(&a, m & 2 != 0),
            ctx: CTXS[m / 4],
        })
    }))
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "U01",
            level: "exploration",
            rule: "hunks written from a known meaning (lines of any content, +/- in any order, marker placement, explicit or omitted counts, section text, lines before and after). Non-trivial: the hunk removes or adds a line",
            assumptions: &["the hunk is not followed by a line starting with a backslash other than its own marker"],
            subs: vec![
                rand("hunks", "random hunks", hunk_case, u01, 60_000, 6_000_000),
                rand("long", "hunks with hundreds of lines and contexts around 128 and 256", long_hunk_case, u01, 2_000, 100_000),
                rand_few("huge", "hunks of tens of thousands of lines", huge_hunk, u01_huge, 64, 2_000),
                exh("lengths", "hunks of every length up to 300 (1100 thorough) and around powers of two up to 2^16", u01_lengths, u01_huge),
                exh("all_small", "all bodies of up to 5 lines (7 thorough), all marker and count choices", u01_exh, u01),
            ],
        },
        Property {
            id: "U02",
            level: "exploration",
            rule: "text pairs and contexts; hunks are checked line by line, read by an independent strict parser and applied by an independent applier (and by patch(1) if it is installed). Non-trivial: the texts differ",
            assumptions: &["patch(1) is a second opinion only: texts with CR or NUL are not given to it"],
            subs: vec![
                rand("pairs", "random pairs", text_pair, u02, 60_000, 4_000_000),
                rand_few("huge_text", "texts of tens of thousands of lines, described by their edits", || huge(70_000), |h, o| u02(&h.text(), o), 48, 1500),
                rand_few("many_changes", "hundreds of changes", || many_changes(4_000), |h, o| u02(&h.text(), o), 48, 1500),
                rand("long", "long pairs with large contexts", long_text_pair, u02, 400, 20_000),
                exh("lengths", "hunks of every length up to 260 (1100 thorough) and around powers of two up to 2^14 (2^15), changes after that many lines or that far apart", exh_lengths, u02),
                exh("all_small", "all pairs over 2 lines up to length 4 (5 thorough), with and without final newlines, contexts 0, 1, 3", exh_pairs_eol, u02),
                rand_proc("patch", "patch(1) applies the rendering", text_pair, u02_gnu, 400, 30_000),
            ],
        },
        Property {
            id: "U03",
            level: "exploration",
            rule: "texts at every line index; compared with a strict hand-written parser. Non-trivial: the chosen line looks like a hunk header",
            assumptions: &["no expectation (beyond no crash, counts matching the header and staying within the text) for: empty body lines, misplaced or repeated markers, lines after a side's unterminated line, a start of 0 with a non-zero count, a diff without its own final newline, non-canonical header spacing"],
            subs: vec![
                rand("mutated", "well-formed hunks, mutated, truncated", mutated, u03, 60_000, 6_000_000),
                rand("headers", "odd headers over arbitrary lines", headed, u03, 40_000, 4_000_000),
                rand("raw", "arbitrary text", raw_text, u03, 30_000, 3_000_000),
                exh("all_small", "all bodies of up to 4 lines (5 thorough) over 5 kinds of line under headers with counts 0-3", u03_exh, u03),
                exh("lengths", "hunks of every length up to 300 (1100 thorough) and around powers of two up to 2^13, as announced, a line too long or too short", u03_lengths, u03_miscounted),
            ],
        },
        Property {
            id: "U04",
            level: "exploration",
            rule: "four header numbers over the whole range with all spellings; near-miss header lines against a hand-written recogniser. Non-trivial: the line contains @@",
            assumptions: &["no expectation for non-canonical spacing"],
            subs: vec![
                rand("numbers", "format, parse, compare", numbers_case, u04, 60_000, 6_000_000),
                rand("lines", "near-miss headers", || prop_oneof![3 => odd_header(), 1 => any_line()].prop_map(Line).boxed(), u04_lines, 40_000, 4_000_000),
            ],
        },
        Property {
            id: "U05",
            level: "exploration",
            rule: "file header lines written from a known path and timestamp. Non-trivial: every line of the first kind; of the second kind those starting with - or +",
            assumptions: &["the path or timestamp is followed by the line's end"],
            subs: vec![
                rand("headers", "known path and timestamp", file_header, u05, 40_000, 4_000_000),
                rand("others", "lines of other kinds", not_header, u05_not, 30_000, 3_000_000),
            ],
        },
        Property {
            id: "U06",
            level: "exploration",
            rule: "text pairs rendered, parsed, applied in both directions, also rewritten in GNU form and as written by diff(1); arbitrary targets against the native hunks. Non-trivial: the texts differ",
            assumptions: &["parsed hunks are applied through a wrapper that forwards every query to them"],
            subs: vec![
                rand("pairs", "random pairs", text_pair, u06, 50_000, 4_000_000),
                rand_few("huge_text", "texts of tens of thousands of lines, described by their edits", || huge(70_000), |h, o| u06(&h.text(), o), 48, 1500),
                rand_few("many_changes", "hundreds of changes", || many_changes(4_000), |h, o| u06(&h.text(), o), 48, 1500),
                rand("long", "long pairs with large contexts", long_text_pair, u06, 300, 15_000),
                exh("lengths", "hunks of every length up to 260 (1100 thorough) and around powers of two up to 2^14 (2^15), changes after that many lines or that far apart", exh_lengths, u06),
                exh("all_small", "all pairs over 2 lines up to length 4 (5 thorough), with and without final newlines, contexts 0, 1, 3", exh_pairs_eol, u06),
                rand("native", "arbitrary targets, against native hunks", text_triple, u06_native, 40_000, 3_000_000),
                rand("native_mixed", "structured targets, hunks in any state, against native hunks", super::text::any_merge_triple, u06_native, 8_000, 500_000),
                rand("native_big_context", "contexts of up to 255 lines, hunks in any state, against native hunks", super::text::big_ctx_triple, u06_native, 800, 40_000),
                rand_proc("diff", "diffs written by diff(1)", text_pair, u06_gnu, 400, 30_000),
            ],
        },
    ]
}
