//! Reference models and adapters to the code under test.

use pw_diff_lib::apply_bytes::ApplyClumpsClean;
use pw_diff_lib::apply_text::{ApplyClumpsFuzzy, Statistics, TextClumpBasics};
use pw_diff_lib::byte_diff::ByteChangeClump;
use pw_diff_lib::changes::{Change, Changes};
use pw_diff_lib::range::Len;
use pw_diff_lib::sequence::Seq;
use pw_diff_lib::text_diff::TextChangeClump;

/// Reference line splitting: a line ends after each '\n', and nowhere else.
pub fn split(text: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur = String::new();
    for c in text.chars() {
        cur.push(c);
        if c == '\n' {
            out.push(std::mem::take(&mut cur));
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

pub fn seq_text(text: &str) -> Seq<String> {
    Seq::<String>::from(text)
}

pub fn seq_bytes(bytes: &[u8]) -> Seq<u8> {
    Seq::<u8>::from(bytes)
}

/// Length of the longest contiguous run common to both (dynamic programming, quadratic).
pub fn longest_run<T: PartialEq>(b: &[T], a: &[T]) -> usize {
    let mut best = 0;
    let mut prev = vec![0usize; a.len() + 1];
    for x in b {
        let mut cur = vec![0usize; a.len() + 1];
        for (j, y) in a.iter().enumerate() {
            if x == y {
                cur[j + 1] = prev[j] + 1;
                best = best.max(cur[j + 1]);
            }
        }
        prev = cur;
    }
    best
}

/// Text hunks as a patch, as the library's own users do it.
pub struct TextPatch(pub Vec<TextChangeClump>);

impl ApplyClumpsFuzzy<TextChangeClump> for TextPatch {
    fn clumps<'s>(&'s self) -> impl Iterator<Item = &'s TextChangeClump>
    where
        TextChangeClump: 's,
    {
        self.0.iter()
    }
}

pub struct BytePatch(pub Vec<ByteChangeClump>);

impl ApplyClumpsClean<'_, ByteChangeClump> for BytePatch {
    fn clumps<'s>(&'s self) -> impl Iterator<Item = &'s ByteChangeClump>
    where
        ByteChangeClump: 's,
    {
        self.0.iter()
    }
}

pub fn text_patch(before: &str, after: &str, ctx: u8) -> TextPatch {
    let changes = Changes::<String>::new(seq_text(before), seq_text(after));
    TextPatch(
        changes
            .change_clumps(ctx)
            .map(TextChangeClump::from)
            .collect(),
    )
}

pub fn byte_patch(before: &[u8], after: &[u8], ctx: u8) -> BytePatch {
    let changes = Changes::<u8>::new(seq_bytes(before), seq_bytes(after));
    BytePatch(
        changes
            .change_clumps(ctx)
            .map(ByteChangeClump::from)
            .collect(),
    )
}

#[derive(Debug, Clone, Default, PartialEq)]
pub struct Stats {
    pub clean: usize,
    pub fuzzy: usize,
    pub already: usize,
    pub already_fuzzy: usize,
    pub failed: usize,
}

impl From<Statistics> for Stats {
    fn from(s: Statistics) -> Self {
        Stats {
            clean: s.clean,
            fuzzy: s.fuzzy,
            already: s.already_applied,
            already_fuzzy: s.already_applied_fuzzy,
            failed: s.failed,
        }
    }
}

impl Stats {
    pub fn all_clean(n: usize) -> Self {
        Stats {
            clean: n,
            fuzzy: 0,
            already: 0,
            already_fuzzy: 0,
            failed: 0,
        }
    }
    pub fn total(&self) -> usize {
        self.clean + self.fuzzy + self.already + self.already_fuzzy + self.failed
    }
}

pub fn apply_text<P, C>(patch: &P, target: &str, reverse: bool) -> Result<(String, Stats), String>
where
    P: ApplyClumpsFuzzy<C>,
    C: pw_diff_lib::apply_text::ApplyClumpFuzzy,
{
    let mut out = vec![];
    let stats = patch
        .apply_into(&seq_text(target), &mut out, reverse)
        .map_err(|e| format!("apply_into returned an error on an in-memory buffer: {e}"))?;
    let out = String::from_utf8(out).map_err(|e| format!("output is not UTF-8: {e}"))?;
    Ok((out, stats.into()))
}

pub fn apply_bytes<P, C>(patch: &P, target: &[u8], reverse: bool) -> Result<Vec<u8>, String>
where
    P: for<'x> ApplyClumpsClean<'x, C>,
    C: pw_diff_lib::apply_bytes::ApplyClumpClean,
{
    let mut out = vec![];
    patch
        .apply_into(&seq_bytes(target), &mut out, reverse)
        .map_err(|e| format!("apply_into returned an error on an in-memory buffer: {e}"))?;
    Ok(out)
}

/// A hunk's recorded data, direction already resolved.
#[derive(Debug, Clone, PartialEq)]
pub struct Hunk<T> {
    pub b_start: usize,
    pub b: Vec<T>,
    pub a_start: usize,
    pub a: Vec<T>,
    pub ctx: (usize, usize),
}

pub fn text_hunks(p: &TextPatch, reverse: bool) -> Vec<Hunk<String>> {
    p.0.iter()
        .map(|c| {
            let (b, a) = (c.before(reverse), c.after(reverse));
            let (s, e) = c.context_lengths();
            Hunk {
                b_start: b.start,
                b: b.items.to_vec(),
                a_start: a.start,
                a: a.items.to_vec(),
                ctx: (s as usize, e as usize),
            }
        })
        .collect()
}

/// Byte hunks do not expose their context lengths: they are taken from the saved form.
pub fn byte_hunks(p: &BytePatch, reverse: bool) -> Vec<Hunk<u8>> {
    p.0.iter()
        .map(|c| {
            let (b, a) = (c.before(reverse), c.after(reverse));
            let v = serde_json::to_value(c).unwrap();
            let cl = &v["context_lengths"];
            Hunk {
                b_start: b.start,
                b: b.items.to_vec(),
                a_start: a.start,
                a: a.items.to_vec(),
                ctx: (
                    cl[0].as_u64().unwrap_or(u64::MAX) as usize,
                    cl[1].as_u64().unwrap_or(u64::MAX) as usize,
                ),
            }
        })
        .collect()
}

/// Reference patcher: replaces each recorded before-region by the after-region, strictly.
pub fn reference_apply<T: PartialEq + Clone + std::fmt::Debug>(
    hunks: &[Hunk<T>],
    base: &[T],
) -> Result<Vec<T>, String> {
    let mut out: Vec<T> = vec![];
    let mut at = 0;
    for (n, h) in hunks.iter().enumerate() {
        if h.b_start < at {
            return Err(format!("hunk {n} starts at {} before the end {at} of the previous one", h.b_start));
        }
        let end = h.b_start + h.b.len();
        if end > base.len() {
            return Err(format!("hunk {n} ends at {end}, beyond the input's {} items", base.len()));
        }
        if base[h.b_start..end] != h.b[..] {
            return Err(format!("hunk {n} does not record the input's items at {}", h.b_start));
        }
        out.extend_from_slice(&base[at..h.b_start]);
        if out.len() != h.a_start {
            return Err(format!(
                "hunk {n} records after-position {} but it lies at {}",
                h.a_start,
                out.len()
            ));
        }
        out.extend_from_slice(&h.a);
        at = end;
    }
    out.extend_from_slice(&base[at..]);
    Ok(out)
}

/// Changes without zero-length unchanged entries (which carry no content).
pub fn significant(changes: &[Change]) -> Vec<Change> {
    changes
        .iter()
        .filter(|c| !matches!(c, Change::NoChange(cs) if cs.len() == 0))
        .cloned()
        .collect()
}
