//! D01-D06: computing changes and hunks.

use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::{ensure, ensure_eq};

use pw_diff_lib::apply_bytes::ApplyClumpsClean;
use pw_diff_lib::apply_text::ApplyClumpsFuzzy;
use pw_diff_lib::byte_diff::ByteChangeDiff;
use pw_diff_lib::diff::Diff;
use pw_diff_lib::text_diff::TextChangeDiff;
use pw_diff_lib::changes::{Change, ChangeBasics, ChangeClump, Changes, ChangesGenerator};
use pw_diff_lib::common_subsequence::CommonSubsequence;
use pw_diff_lib::range::{Len, Range};
use pw_diff_lib::sequence::{ByteItemIndices, ContentItemIndices, Seq, StringItemIndices};

// ---------------------------------------------------------------- D01

fn r(r: Range) -> (usize, usize) {
    (r.start(), r.end())
}

/// The (before, after) ranges of a change, read off the variant alone.
fn spans(c: &Change) -> ((usize, usize), (usize, usize)) {
    match c {
        Change::NoChange(cs) => ((cs.0, cs.0 + cs.2), (cs.1, cs.1 + cs.2)),
        Change::Delete(b, j) => ((b.0, b.1), (*j, *j)),
        Change::Insert(i, a) => ((*i, *i), (a.0, a.1)),
        Change::Replace(b, a) => ((b.0, b.1), (a.0, a.1)),
    }
}

fn basics_agree<C: ChangeBasics>(c: &C, b: (usize, usize), a: (usize, usize), what: &str) -> CheckResult {
    for (reverse, x, y) in [(false, b, a), (true, a, b)] {
        ensure_eq!(c.before_start(reverse), x.0, "{what}: before start, reverse {reverse}");
        ensure_eq!(c.before_end(reverse), x.1, "{what}: before end, reverse {reverse}");
        ensure_eq!(c.before_length(reverse), x.1 - x.0, "{what}: before length, reverse {reverse}");
        ensure_eq!(r(c.before_range(None, reverse)), x, "{what}: before range, reverse {reverse}");
        ensure_eq!(r(c.my_before_range(None, reverse)), (0, x.1 - x.0), "{what}: relative before range, reverse {reverse}");
        ensure_eq!(c.after_start(reverse), y.0, "{what}: after start, reverse {reverse}");
        ensure_eq!(c.after_end(reverse), y.1, "{what}: after end, reverse {reverse}");
        ensure_eq!(c.after_length(reverse), y.1 - y.0, "{what}: after length, reverse {reverse}");
        ensure_eq!(r(c.after_range(None, reverse)), y, "{what}: after range, reverse {reverse}");
        ensure_eq!(r(c.my_after_range(None, reverse)), (0, y.1 - y.0), "{what}: relative after range, reverse {reverse}");
        for (s, e) in [(0u8, 0u8), (1, 0), (0, 1), (1, 1), (2, 3)] {
            let red = Some((s, e));
            let (s, e) = (s as usize, e as usize);
            if x.1 - x.0 >= s + e {
                ensure_eq!(r(c.before_range(red, reverse)), (x.0 + s, x.1 - e), "{what}: reduced before range {red:?}");
                ensure_eq!(r(c.my_before_range(red, reverse)), (s, x.1 - x.0 - e), "{what}: reduced relative before range {red:?}");
            }
            if y.1 - y.0 >= s + e {
                ensure_eq!(r(c.after_range(red, reverse)), (y.0 + s, y.1 - e), "{what}: reduced after range {red:?}");
                ensure_eq!(r(c.my_after_range(red, reverse)), (s, y.1 - y.0 - e), "{what}: reduced relative after range {red:?}");
            }
        }
    }
    Ok(())
}

pub fn edit_script<T: PartialEq + Clone + std::fmt::Debug>(
    before: &[T],
    after: &[T],
    changes: &[Change],
) -> CheckResult {
    let (mut i, mut j) = (0, 0);
    let mut last_unchanged: Option<bool> = None;
    let mut rebuilt: Vec<T> = vec![];
    for (n, c) in changes.iter().enumerate() {
        let (b, a) = spans(c);
        ensure_eq!((b.0, a.0), (i, j), "change {n} {c:?} starts at the wrong place");
        ensure!(b.0 <= b.1 && a.0 <= a.1, "change {n} {c:?} has an inverted range");
        ensure!(
            b.1 <= before.len() && a.1 <= after.len(),
            "change {n} {c:?} runs past the end"
        );
        let unchanged = matches!(c, Change::NoChange(_));
        match c {
            Change::NoChange(_) => {
                ensure!(b.1 > b.0, "change {n} {c:?} is empty");
                ensure!(
                    before[b.0..b.1] == after[a.0..a.1],
                    "change {n} {c:?} calls different items unchanged: {:?} / {:?}",
                    &before[b.0..b.1],
                    &after[a.0..a.1]
                );
                rebuilt.extend_from_slice(&before[b.0..b.1]);
            }
            Change::Delete(..) => ensure!(b.1 > b.0, "change {n} {c:?} is empty"),
            Change::Insert(..) => {
                ensure!(a.1 > a.0, "change {n} {c:?} is empty");
                rebuilt.extend_from_slice(&after[a.0..a.1]);
            }
            Change::Replace(..) => {
                ensure!(b.1 > b.0 && a.1 > a.0, "change {n} {c:?} has an empty side");
                rebuilt.extend_from_slice(&after[a.0..a.1]);
            }
        }
        ensure!(
            last_unchanged != Some(unchanged),
            "changes {} and {n} are of the same kind and adjacent: {changes:?}",
            n - 1
        );
        last_unchanged = Some(unchanged);
        basics_agree(c, b, a, &format!("change {n} {c:?}"))?;
        (i, j) = (b.1, a.1);
    }
    ensure_eq!((i, j), (before.len(), after.len()), "changes {changes:?} do not reach the end");
    ensure!(rebuilt == after, "replaying {changes:?} does not give the second input");
    Ok(())
}

fn group_queries<T: PartialEq + Clone + std::fmt::Debug>(clump: &ChangeClump<T>) -> CheckResult {
    let (Some(f), Some(l)) = (clump.changes.first(), clump.changes.last()) else {
        return Err("empty group".into());
    };
    let (b, a) = ((spans(f).0 .0, spans(l).0 .1), (spans(f).1 .0, spans(l).1 .1));
    ensure_eq!(clump.starts(), (b.0, a.0), "starts of {:?}", clump.changes);
    ensure_eq!(clump.ends(), (b.1, a.1), "ends of {:?}", clump.changes);
    let (rb, ra) = clump.ranges();
    ensure_eq!((r(rb), r(ra)), (b, a), "ranges of {:?}", clump.changes);
    basics_agree(clump, b, a, &format!("group {:?}", clump.changes))
}

fn clump_queries<T: PartialEq + Clone + std::fmt::Debug>(ch: &Changes<T>, ctx: u8) -> CheckResult {
    for clump in ch.change_clumps(ctx) {
        group_queries(&clump)?;
    }
    // groups that begin or end anywhere in the list
    let n = ch.changes.len();
    for i in 0..n {
        for j in [i + 1, (i + 3).min(n)] {
            group_queries(&ChangeClump {
                before: &ch.before,
                after: &ch.after,
                changes: ch.changes[i..j].to_vec(),
            })?;
        }
    }
    Ok(())
}

fn kinds(o: &mut Obs, changes: &[Change]) {
    o.nontrivial = changes.len() >= 2;
    o.label_if(changes.is_empty(), "no entries");
    o.label_if(changes.len() >= 4, "four or more entries");
    o.label_if(changes.iter().any(|c| matches!(c, Change::Replace(..))), "has replacement");
    o.label_if(changes.iter().any(|c| matches!(c, Change::Delete(..))), "has deletion");
    o.label_if(changes.iter().any(|c| matches!(c, Change::Insert(..))), "has insertion");
}

fn d01_text(p: &TextPair, o: &mut Obs) -> CheckResult {
    let ch = Changes::<String>::new(seq_text(&p.before), seq_text(&p.after));
    kinds(o, &ch.changes);
    let (b, a) = (split(&p.before), split(&p.after));
    edit_script(&b, &a, &ch.changes)?;
    ensure!(ch.before.to_vec() == b && ch.after.to_vec() == a, "inputs altered");
    clump_queries(&ch, p.ctx)
}

fn d01_bytes(p: &BytePair, o: &mut Obs) -> CheckResult {
    let ch = Changes::<u8>::new(seq_bytes(&p.before), seq_bytes(&p.after));
    kinds(o, &ch.changes);
    edit_script(&p.before, &p.after, &ch.changes)?;
    clump_queries(&ch, p.ctx)
}

// ---------------------------------------------------------------- D02

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct Ranged {
    pair: TextPair,
    br: (u16, u16),
    ar: (u16, u16),
}

fn ranged_check<T, I>(before: &Seq<T>, after: &Seq<T>, br: (usize, usize), ar: (usize, usize), o: &mut Obs) -> CheckResult
where
    T: PartialEq + Clone + std::fmt::Debug,
    I: ContentItemIndices<T>,
{
    let g = ChangesGenerator::<T, I>::new(before, after);
    let got = g.longest_common_subsequence(Range(br.0, br.1), Range(ar.0, ar.1));
    let best = longest_run(&before[br.0..br.1], &after[ar.0..ar.1]);
    o.nontrivial = best > 0;
    o.label_if(best > 1, "common run of two or more");
    o.label_if(br.1 - br.0 < before.len() || ar.1 - ar.0 < after.len(), "proper sub-range");
    match got {
        None => ensure_eq!(best, 0, "nothing found although a common run of this length exists"),
        Some(cs) => {
            ensure!(cs.len() > 0, "empty run returned");
            ensure!(
                cs.before_start() >= br.0 && cs.before_end() <= br.1 && cs.after_start() >= ar.0 && cs.after_end() <= ar.1,
                "{cs:?} outside {br:?} {ar:?}"
            );
            ensure!(
                before[cs.before_start()..cs.before_end()] == after[cs.after_start()..cs.after_end()],
                "{cs:?} is not common: {:?} / {:?}",
                &before[cs.before_start()..cs.before_end()],
                &after[cs.after_start()..cs.after_end()]
            );
            ensure_eq!(cs.len(), best, "length of the run found, {cs:?}");
        }
    }
    Ok(())
}

fn clip(r: (u16, u16), len: usize) -> (usize, usize) {
    let a = (r.0 as usize * (len + 1)) >> 16;
    let b = (r.1 as usize * (len + 1)) >> 16;
    (a.min(b), a.max(b))
}

fn d02_range_text(p: &Ranged, o: &mut Obs) -> CheckResult {
    let (b, a) = (seq_text(&p.pair.before), seq_text(&p.pair.after));
    let (br, ar) = (clip(p.br, b.len()), clip(p.ar, a.len()));
    ranged_check::<String, StringItemIndices>(&b, &a, br, ar, o)
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct RangedBytes {
    pair: BytePair,
    br: (u16, u16),
    ar: (u16, u16),
}

fn d02_range_bytes(p: &RangedBytes, o: &mut Obs) -> CheckResult {
    let (b, a) = (seq_bytes(&p.pair.before), seq_bytes(&p.pair.after));
    let (br, ar) = (clip(p.br, b.len()), clip(p.ar, a.len()));
    ranged_check::<u8, ByteItemIndices>(&b, &a, br, ar, o)
}

fn ranges() -> BoxedStrategy<(u16, u16)> {
    prop_oneof![
        2 => Just((0u16, u16::MAX)),
        3 => (any::<u16>(), any::<u16>()),
        1 => any::<u16>().prop_map(|x| (0, x)),
        1 => any::<u16>().prop_map(|x| (x, u16::MAX)),
    ]
    .boxed()
}

fn maximal<T: PartialEq + Clone + std::fmt::Debug>(before: &[T], after: &[T], changes: &[Change], o: &mut Obs) -> CheckResult {
    let best = longest_run(before, after);
    o.nontrivial = best > 0 && changes.iter().any(|c| !matches!(c, Change::NoChange(_)));
    o.label_if(best > 1, "common run of two or more");
    let kept = changes
        .iter()
        .map(|c| match c {
            Change::NoChange(cs) => cs.len(),
            _ => 0,
        })
        .max()
        .unwrap_or(0);
    ensure!(kept >= best, "longest unchanged run is {kept}, but a common run of {best} exists; {changes:?}");
    for c in changes {
        if let Change::Replace(b, a) = c {
            o.label("replacement checked");
            for x in &before[b.0..b.1] {
                ensure!(
                    !after[a.0..a.1].contains(x),
                    "{c:?} both removes and adds {x:?}; {changes:?}"
                );
            }
        }
    }
    Ok(())
}

fn d02_text(p: &TextPair, o: &mut Obs) -> CheckResult {
    let ch = Changes::<String>::new(seq_text(&p.before), seq_text(&p.after));
    maximal(&split(&p.before), &split(&p.after), &ch.changes, o)
}

fn d02_bytes(p: &BytePair, o: &mut Obs) -> CheckResult {
    let ch = Changes::<u8>::new(seq_bytes(&p.before), seq_bytes(&p.after));
    maximal(&p.before, &p.after, &ch.changes, o)
}

fn d02_range_exh(thorough: bool) -> Box<dyn Iterator<Item = ExRange>> {
    let seqs = std::rc::Rc::new(all_seqs(2, if thorough { 6 } else { 5 }));
    let n = seqs.len();
    Box::new((0..n * n).flat_map(move |k| {
        let (b, a) = (seqs[k / n].clone(), seqs[k % n].clone());
        let mut v = vec![];
        let (lb, la) = (b.len() as u8, a.len() as u8);
        for (x, y) in [(0, lb), (1.min(lb), lb), (0, lb.saturating_sub(1)), (1.min(lb), lb.saturating_sub(1).max(1.min(lb)))] {
            for (z, w) in [(0, la), (1.min(la), la), (0, la.saturating_sub(1)), (1.min(la), la.saturating_sub(1).max(1.min(la)))] {
                v.push(ExRange { before: b.clone(), after: a.clone(), br: (x, y), ar: (z, w) });
            }
        }
        v
    }))
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct ExRange {
    before: Vec<u8>,
    after: Vec<u8>,
    br: (u8, u8),
    ar: (u8, u8),
}

fn d02_ex(p: &ExRange, o: &mut Obs) -> CheckResult {
    let us = |x: (u8, u8)| (x.0 as usize, x.1 as usize);
    ranged_check::<u8, ByteItemIndices>(&seq_bytes(&p.before), &seq_bytes(&p.after), us(p.br), us(p.ar), o)
}

// ---------------------------------------------------------------- D03

fn d03_text(p: &TextPair, o: &mut Obs) -> CheckResult {
    let n = text_patch(&p.before, &p.after, p.ctx).0.len();
    o.nontrivial = p.before != p.after;
    o.label_if(p.before == p.after, "identical");
    ensure_eq!(n == 0, p.before == p.after, "empty diff <=> identical inputs ({n} hunks)");
    let n = text_patch(&p.before, &p.before, p.ctx).0.len();
    ensure_eq!(n, 0, "hunks of a text against itself");
    Ok(())
}

fn d03_bytes(p: &BytePair, o: &mut Obs) -> CheckResult {
    let n = byte_patch(&p.before, &p.after, p.ctx).0.len();
    o.nontrivial = p.before != p.after;
    o.label_if(p.before == p.after, "identical");
    ensure_eq!(n == 0, p.before == p.after, "empty diff <=> identical inputs ({n} hunks)");
    ensure_eq!(byte_patch(&p.before, &p.before, p.ctx).0.len(), 0, "hunks of bytes against themselves");
    Ok(())
}

/// Inputs differing in one single item (or in the final newline only).
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct OneOff {
    lines: Vec<u8>,
    at: u16,
    to: u8,
    mode: u8,
    ctx: u8,
}

fn one_off() -> BoxedStrategy<OneOff> {
    (
        (1u8..=30).prop_flat_map(|a| proptest::collection::vec(0..a, 1..60)),
        any::<u16>(),
        0u8..32,
        0u8..4,
        ctx(),
    )
        .prop_map(|(lines, at, to, mode, ctx)| OneOff { lines, at, to, mode, ctx })
        .boxed()
}

fn d03_one(p: &OneOff, o: &mut Obs) -> CheckResult {
    let mut other = p.lines.clone();
    let i = (p.at as usize * other.len()) >> 16;
    match p.mode {
        0 => other[i] = if other[i] == p.to { p.to + 1 } else { p.to },
        1 => {
            other.remove(i);
        }
        2 => other.insert(i, p.to),
        _ => {}
    }
    o.nontrivial = true;
    o.label(["replaced", "removed", "inserted", "final newline"][p.mode as usize]);
    let (b, a) = (letters(&p.lines, true), letters(&other, p.mode != 3));
    for (x, y) in [(&b, &a), (&a, &b)] {
        ensure!(!text_patch(x, y, p.ctx).0.is_empty(), "text diff of inputs differing at {i} is empty");
        ensure!(
            !byte_patch(x.as_bytes(), y.as_bytes(), p.ctx).0.is_empty(),
            "byte diff of inputs differing at {i} is empty"
        );
    }
    Ok(())
}

/// The same question through files, by every constructor that takes paths.
fn d03_files(p: &BytePair, o: &mut Obs) -> CheckResult {
    let dir = crate::scratch::fresh("same");
    let (x, y) = (dir.join("x"), dir.join("y"));
    std::fs::write(&x, &p.before).map_err(|e| e.to_string())?;
    std::fs::write(&y, &p.after).map_err(|e| e.to_string())?;
    o.nontrivial = p.before != p.after;
    o.label_if(p.before == p.after, "identical");
    let utf8 = |v: &[u8]| std::str::from_utf8(v).is_ok();
    let text = utf8(&p.before) && utf8(&p.after);
    o.label(if text { "text" } else { "bytes" });
    // (comparing large or repetitive files byte by byte would take too long)
    let few = few_pairs(&p.before, &p.before) && few_pairs(&p.before, &p.after);
    for (f, g, same) in [(&x, &y, p.before == p.after), (&y, &x, p.before == p.after), (&x, &x, true)] {
        if text {
            let n = TextChangeDiff::new(f, g, p.ctx).map_err(|e| e.to_string())?.clumps().count();
            ensure_eq!(n == 0, same, "text diff of two files is empty <=> they are identical ({n} hunks)");
        }
        if few {
            let n = ByteChangeDiff::new(f, g, p.ctx).map_err(|e| e.to_string())?.clumps().count();
            ensure_eq!(n == 0, same, "byte diff of two files is empty <=> they are identical ({n} hunks)");
        }
        let n = match Diff::new(f, g, p.ctx).map_err(|e| e.to_string())? {
            Diff::TextChange(d) => d.clumps().count(),
            Diff::ByteChange(d) => d.clumps().count(),
            _ => return Err("two existing files do not give a change".into()),
        };
        ensure_eq!(n == 0, same, "diff of two files is empty <=> they are identical ({n} hunks)");
    }
    Ok(())
}

fn cosmetic_text() -> BoxedStrategy<TextPair> {
    (cosmetic_pair(), ctx()).prop_map(|((before, after), ctx)| TextPair { before, after, ctx }).boxed()
}

fn file_pair() -> BoxedStrategy<BytePair> {
    let text = |(a, b): (String, String)| (a.into_bytes(), b.into_bytes());
    (
        prop_oneof![
            3 => cosmetic_pair().prop_map(text),
            2 => text_pair_contents().prop_map(text),
            2 => byte_pair_contents(),
            1 => byte_pair_contents().prop_map(|(a, _)| (a.clone(), a)),
        ],
        ctx(),
    )
        .prop_map(|((before, after), ctx)| BytePair { before, after, ctx })
        .boxed()
}

// ---------------------------------------------------------------- D04

#[derive(Debug, PartialEq)]
struct Expected {
    b: (usize, usize),
    a: (usize, usize),
    ctx: (usize, usize),
    changes: Vec<Change>,
}

/// Reference grouping of an edit script into hunks.
fn expected_hunks(changes: &[Change], c: usize) -> Vec<Expected> {
    // positions of the actual changes
    let idx: Vec<usize> = (0..changes.len())
        .filter(|i| !matches!(changes[*i], Change::NoChange(_)))
        .collect();
    let run = |i: usize| match changes[i] {
        Change::NoChange(cs) => cs,
        _ => unreachable!(),
    };
    // group
    let mut groups: Vec<(usize, usize)> = vec![];
    for i in idx {
        match groups.last_mut() {
            Some((_, end)) if i - *end == 2 && run(i - 1).len() < 2 * c => *end = i,
            _ => groups.push((i, i)),
        }
    }
    groups
        .into_iter()
        .map(|(f, l)| {
            let mut list = vec![];
            let (mut b, mut a) = (spans(&changes[f]).0, spans(&changes[f]).1);
            b.1 = spans(&changes[l]).0 .1;
            a.1 = spans(&changes[l]).1 .1;
            let mut ctx = (0, 0);
            if f > 0 {
                let cs = run(f - 1);
                let n = cs.len().min(c);
                ctx.0 = n;
                b.0 -= n;
                a.0 -= n;
                list.push(Change::NoChange(CommonSubsequence(b.0, a.0, n)));
            }
            list.extend_from_slice(&changes[f..=l]);
            if l + 1 < changes.len() {
                let cs = run(l + 1);
                let n = cs.len().min(c);
                ctx.1 = n;
                list.push(Change::NoChange(CommonSubsequence(b.1, a.1, n)));
                b.1 += n;
                a.1 += n;
            }
            Expected {
                b,
                a,
                ctx,
                changes: significant(&list),
            }
        })
        .collect()
}

fn d04<T: PartialEq + Clone + std::fmt::Debug>(ch: &Changes<T>, c: u8, o: &mut Obs) -> CheckResult {
    let want = expected_hunks(&ch.changes, c as usize);
    let n_changes = ch.changes.iter().filter(|c| !matches!(c, Change::NoChange(_))).count();
    o.nontrivial = n_changes >= 2;
    o.label_if(want.len() >= 2, "two or more hunks");
    o.label_if(n_changes > want.len(), "changes sharing a hunk");
    for x in &ch.changes {
        if let Change::NoChange(cs) = x {
            o.label_if(cs.len() == 2 * c as usize, "run of exactly 2c");
            o.label_if(cs.len() + 1 == 2 * c as usize, "run of exactly 2c-1");
            o.label_if(cs.len() > 255, "run longer than 255");
        }
    }
    let mut n = 0;
    for clump in ch.change_clumps(c) {
        ensure!(n < want.len(), "more than {} hunks", want.len());
        let w = &want[n];
        let (rb, ra) = clump.ranges();
        ensure_eq!((r(rb), r(ra)), (w.b, w.a), "hunk {n} ranges (context {c}, changes {:?})", ch.changes);
        let (s, e) = clump.context_lengths();
        ensure_eq!((s as usize, e as usize), w.ctx, "hunk {n} context lengths (context {c})");
        ensure_eq!(significant(&clump.changes), w.changes, "hunk {n} content (context {c})");
        n += 1;
    }
    ensure_eq!(n, want.len(), "number of hunks (context {c}, changes {:?})", ch.changes);
    Ok(())
}

fn d04_text(p: &TextPair, o: &mut Obs) -> CheckResult {
    d04(&Changes::<String>::new(seq_text(&p.before), seq_text(&p.after)), p.ctx, o)
}

fn d04_bytes(p: &BytePair, o: &mut Obs) -> CheckResult {
    d04(&Changes::<u8>::new(seq_bytes(&p.before), seq_bytes(&p.after)), p.ctx, o)
}

/// Structured: unchanged runs of chosen lengths around single changes.
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct Runs {
    runs: Vec<u16>,
    kinds: Vec<u8>,
    ctx: u8,
}

fn runs() -> BoxedStrategy<Runs> {
    let around = |c: u8| {
        let c = c as u16;
        prop_oneof![
            2 => 0u16..6,
            3 => prop_oneof![Just(c), Just(c + 1), Just(c.saturating_sub(1)), Just(2 * c), Just(2 * c + 1), Just((2 * c).saturating_sub(1))],
            1 => 0u16..600,
            1 => prop_oneof![Just(254u16), Just(255), Just(256), Just(257), Just(511), Just(512)],
        ]
    };
    prop_oneof![3 => 0u8..6, 1 => any::<u8>(), 1 => 126u8..=129, 1 => 253u8..=255]
        .prop_flat_map(move |c| {
            (
                proptest::collection::vec(around(c), 2..6),
                proptest::collection::vec(0u8..3, 5),
                Just(c),
            )
        })
        .prop_map(|(runs, kinds, ctx)| Runs { runs, kinds, ctx })
        .boxed()
}

fn d04_runs(p: &Runs, o: &mut Obs) -> CheckResult {
    let (mut b, mut a) = (vec![], vec![]);
    let mut next = 0u32;
    let last = p.runs.len() - 1;
    for (i, n) in p.runs.iter().enumerate() {
        let n = if i > 0 && i < last { (*n).max(1) } else { *n };
        for _ in 0..n {
            b.push(format!("{next}\n"));
            a.push(format!("{next}\n"));
            next += 1;
        }
        if i < last {
            if p.kinds[i] != 0 {
                b.push(format!("old {i}\n"));
            }
            if p.kinds[i] != 1 {
                a.push(format!("new {i}\n"));
            }
        }
    }
    let ch = Changes::<String>::new(Seq(b.clone().into_boxed_slice()), Seq(a.clone().into_boxed_slice()));
    edit_script(&b, &a, &ch.changes)?;
    d04(&ch, p.ctx, o)
}

// ---------------------------------------------------------------- D05

fn d05<T: PartialEq + Clone + std::fmt::Debug>(
    fwd: &[Hunk<T>],
    rev: &[Hunk<T>],
    before: &[T],
    after: &[T],
    ctx: usize,
    o: &mut Obs,
) -> CheckResult {
    o.nontrivial = !fwd.is_empty();
    o.label_if(fwd.len() >= 2, "two or more hunks");
    let got = reference_apply(fwd, before)?;
    ensure!(got == after, "reference patching with the recorded hunks does not give the second input; {fwd:?}");
    let got = reference_apply(rev, after).map_err(|e| format!("backwards: {e}"))?;
    ensure!(got == before, "reference patching backwards does not give the first input; {rev:?}");
    ensure_eq!(fwd.len(), rev.len(), "hunks forwards and backwards");
    for (n, (h, v)) in fwd.iter().zip(rev).enumerate() {
        let (s, e) = h.ctx;
        ensure!(s <= ctx && e <= ctx, "hunk {n}: context lengths {:?} above the requested {ctx}", h.ctx);
        ensure!(s + e <= h.b.len() && s + e <= h.a.len(), "hunk {n}: context lengths {:?} longer than the hunk", h.ctx);
        ensure!(h.b[..s] == h.a[..s], "hunk {n}: leading context differs between the sides");
        ensure!(h.b[h.b.len() - e..] == h.a[h.a.len() - e..], "hunk {n}: trailing context differs between the sides");
        ensure!(h.b != h.a, "hunk {n} changes nothing");
        ensure_eq!((v.b_start, &v.b, v.a_start, &v.a, v.ctx), (h.a_start, &h.a, h.b_start, &h.b, h.ctx), "hunk {n} seen backwards");
    }
    Ok(())
}

fn d05_text(p: &TextPair, o: &mut Obs) -> CheckResult {
    let patch = text_patch(&p.before, &p.after, p.ctx);
    d05(
        &text_hunks(&patch, false),
        &text_hunks(&patch, true),
        &split(&p.before),
        &split(&p.after),
        p.ctx as usize,
        o,
    )?;
    // the saved form says the same
    for (n, (c, h)) in patch.0.iter().zip(text_hunks(&patch, false)).enumerate() {
        let v = serde_json::to_value(c).map_err(|e| e.to_string())?;
        let w = serde_json::json!({
            "context_lengths": [h.ctx.0, h.ctx.1],
            "before": {"start": h.b_start, "items": h.b},
            "after": {"start": h.a_start, "items": h.a},
        });
        ensure_eq!(v, w, "saved form of hunk {n}");
    }
    Ok(())
}

fn d05_bytes(p: &BytePair, o: &mut Obs) -> CheckResult {
    let patch = byte_patch(&p.before, &p.after, p.ctx);
    d05(
        &byte_hunks(&patch, false),
        &byte_hunks(&patch, true),
        &p.before,
        &p.after,
        p.ctx as usize,
        o,
    )?;
    for (n, (c, h)) in patch.0.iter().zip(byte_hunks(&patch, false)).enumerate() {
        let v = serde_json::to_value(c).map_err(|e| e.to_string())?;
        let w = serde_json::json!({
            "context_lengths": [h.ctx.0, h.ctx.1],
            "before": {"start": h.b_start, "items": h.b},
            "after": {"start": h.a_start, "items": h.a},
        });
        ensure_eq!(v, w, "saved form of hunk {n}");
    }
    Ok(())
}

// ---------------------------------------------------------------- D06

fn pool(n: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()
}

thread_local! {
    static POOLS: Vec<rayon::ThreadPool> = [1, 2, 5].into_iter().map(pool).collect();
}

fn d06_text(p: &TextPair, o: &mut Obs) -> CheckResult {
    let f = || {
        let patch = text_patch(&p.before, &p.after, p.ctx);
        let c: Vec<String> = patch.0.iter().map(|c| serde_json::to_string(c).unwrap()).collect();
        c.join("\n")
    };
    let g = || {
        let patch = byte_patch(p.before.as_bytes(), p.after.as_bytes(), p.ctx);
        let c: Vec<String> = patch.0.iter().map(|c| serde_json::to_string(c).unwrap()).collect();
        c.join("\n")
    };
    let small = p.before.len() + p.after.len() < 400;
    let (first, first_b) = (f(), if small { g() } else { String::new() });
    o.nontrivial = !first.is_empty();
    o.label_if(p.before.lines().count() > 100, "more than 100 lines");
    ensure_eq!(f(), first, "second computation");
    POOLS.with(|pools| {
        for pl in pools {
            let n = pl.current_num_threads();
            ensure_eq!(pl.install(&f), first, "with {n} worker threads");
            if small {
                ensure_eq!(pl.install(&g), first_b, "byte diff with {n} worker threads");
            }
            // concurrently
            let (x, y) = pl.install(|| rayon::join(&f, &f));
            ensure!(x == first && y == first, "concurrent computations differ");
        }
        Ok(())
    })
}

// ----------------------------------------------------------------

const CTX3: &[u8] = &[0, 1, 2];
const CTX1: &[u8] = &[1];
const CTX4: &[u8] = &[0, 1, 2, 3];

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "D01",
            level: "exploration",
            rule: "pairs of texts/byte strings: independent small-alphabet pairs, edited copies (insert, delete, replace, duplicate, move), unusual line contents, hundreds of lines; plus all pairs over small alphabets. Non-trivial: the change list has at least two entries",
            assumptions: &[],
            subs: vec![
                rand("text", "random text pairs", text_pair, d01_text, 40_000, 2_500_000),
                rand_few("huge_text", "texts of tens of thousands of lines, described by their edits", || huge(70_000), |h, o| d01_text(&h.text(), o), 48, 1500),
                rand_few("many_changes", "hundreds of changes", || many_changes(4_000), |h, o| d01_text(&h.text(), o), 48, 1500),
                rand_few("huge_bytes", "byte strings of tens of thousands of bytes, described by their edits", || huge(70_000), |h, o| d01_bytes(&h.bytes(), o), 32, 1000),
                rand_few("many_bytes", "hundreds of changes", || many_changes(2_000), |h, o| d01_bytes(&h.bytes(), o), 32, 1000),
                rand("long_text", "texts of hundreds of lines", long_text_pair, d01_text, 300, 12_000),
                rand("bytes", "random byte pairs", byte_pair, d01_bytes, 30_000, 2_000_000),
                rand("long_bytes", "byte strings of 300-1500 bytes", long_byte_pair, d01_bytes, 150, 6_000),
                exh("lengths", "hunks of every length up to 260 (1100 thorough) and around powers of two up to 2^14 (2^15), changes after that many lines or that far apart", exh_lengths, d01_text),
                exh("all_small_bytes", "all pairs over 3 values up to length 4 (5 thorough), contexts 0-2", |t| exh_byte_pairs(3, if t { 5 } else { 4 }, CTX3), d01_bytes),
                exh("all_small_text", "all pairs over 2 lines up to length 6 (7 thorough), context 1", |t| exh_text_pairs(2, if t { 7 } else { 6 }, CTX1), d01_text),
            ],
        },
        Property {
            id: "D02",
            level: "exploration",
            rule: "as D01, plus random and enumerated sub-ranges; oracle: brute-force longest common run. Non-trivial: the inputs (or sub-ranges) share an item",
            assumptions: &["the brute-force longest-common-run is correct"],
            subs: vec![
                rand("sub_ranges", "text pair and a sub-range of each", || {
                    (text_pair(), ranges(), ranges()).prop_map(|(pair, br, ar)| Ranged { pair, br, ar }).boxed()
                }, d02_range_text, 40_000, 2_500_000),
                rand("sub_ranges_bytes", "byte pair and a sub-range of each", || {
                    (byte_pair(), ranges(), ranges()).prop_map(|(pair, br, ar)| RangedBytes { pair, br, ar }).boxed()
                }, d02_range_bytes, 40_000, 2_500_000),
                rand("text", "random text pairs", text_pair, d02_text, 40_000, 2_500_000),
                rand("long_text", "texts of hundreds of lines", long_text_pair, d02_text, 200, 8_000),
                rand("frequent_lines", "some lines occur on every other line", || {
                    (frequent_pair_contents(), ctx()).prop_map(|((before, after), ctx)| TextPair { before, after, ctx }).boxed()
                }, d02_text, 100, 4_000),
                rand("bytes", "random byte pairs", byte_pair, d02_bytes, 30_000, 2_000_000),
                rand("long_bytes", "byte strings of 300-1500 bytes", long_byte_pair, d02_bytes, 100, 4_000),
                exh("lengths", "hunks of every length up to 260 (1100 thorough) and around powers of two up to 2^14 (2^15), changes after that many lines or that far apart", exh_lengths, d02_text),
                exh("all_small_ranges", "all pairs over 2 values up to length 5 (6 thorough), 16 sub-range combinations each", d02_range_exh, d02_ex),
                exh("all_small", "all pairs over 3 values up to length 4 (5 thorough)", |t| exh_byte_pairs(3, if t { 5 } else { 4 }, CTX1), d02_bytes),
            ],
        },
        Property {
            id: "D03",
            level: "exploration",
            rule: "as D01, plus inputs differing in exactly one item, the final newline or otherwise only cosmetically, in memory and as files through every constructor. Non-trivial: the inputs differ",
            assumptions: &[],
            subs: vec![
                rand("text", "random text pairs", text_pair, d03_text, 40_000, 2_500_000),
                rand_few("huge_text", "texts of tens of thousands of lines, described by their edits", || huge(70_000), |h, o| d03_text(&h.text(), o), 48, 1500),
                rand_few("many_changes", "hundreds of changes", || many_changes(4_000), |h, o| d03_text(&h.text(), o), 48, 1500),
                rand("bytes", "random byte pairs", byte_pair, d03_bytes, 30_000, 2_000_000),
                rand("cosmetic", "texts that differ in line ends, blanks, case or invisible characters only", cosmetic_text, d03_text, 20_000, 1_000_000),
                rand_proc("files", "pairs of files", file_pair, d03_files, 4_000, 100_000),
                rand("one_difference", "one item replaced, removed or inserted, or the final newline dropped", one_off, d03_one, 30_000, 2_000_000),
                rand("long_text", "texts of hundreds of lines", long_text_pair, d03_text, 200, 8_000),
                exh("lengths", "hunks of every length up to 260 (1100 thorough) and around powers of two up to 2^14 (2^15), changes after that many lines or that far apart", exh_lengths, d03_text),
                exh("all_small", "all pairs over 3 values up to length 4 (5 thorough), contexts 0-2", |t| exh_byte_pairs(3, if t { 5 } else { 4 }, CTX3), d03_bytes),
            ],
        },
        Property {
            id: "D04",
            level: "exploration",
            rule: "as D01 with all context sizes, plus structured inputs whose unchanged runs have lengths around c, 2c and 255; oracle: reference grouping. Non-trivial: at least two changes",
            assumptions: &["the change list itself is right (D01)"],
            subs: vec![
                rand("text", "random text pairs and contexts", text_pair, d04_text, 40_000, 2_500_000),
                rand_few("huge_text", "texts of tens of thousands of lines, described by their edits", || huge(70_000), |h, o| d04_text(&h.text(), o), 48, 1500),
                rand_few("many_changes", "hundreds of changes", || many_changes(4_000), |h, o| d04_text(&h.text(), o), 48, 1500),
                rand_few("huge_bytes", "byte strings of tens of thousands of bytes, described by their edits", || huge(70_000), |h, o| d04_bytes(&h.bytes(), o), 32, 1000),
                rand_few("many_bytes", "hundreds of changes", || many_changes(2_000), |h, o| d04_bytes(&h.bytes(), o), 32, 1000),
                rand("bytes", "random byte pairs and contexts", byte_pair, d04_bytes, 30_000, 2_000_000),
                super::cli::d04_sub(),
                rand("chosen_runs", "unchanged runs of chosen lengths around single changes", runs, d04_runs, 3_000, 150_000),
                rand("long_text", "texts of hundreds of lines", long_text_pair, d04_text, 300, 12_000),
                exh("lengths", "hunks of every length up to 260 (1100 thorough) and around powers of two up to 2^14 (2^15), changes after that many lines or that far apart", exh_lengths, d04_text),
                exh("all_small", "all pairs over 2 values up to length 6 (7 thorough), contexts 0-3", |t| exh_byte_pairs(2, if t { 7 } else { 6 }, CTX4), d04_bytes),
            ],
        },
        Property {
            id: "D05",
            level: "exploration",
            rule: "as D01; oracle: a reference patcher using only the recorded hunks, and direct comparison of positions, content and contexts. Non-trivial: at least one hunk",
            assumptions: &[],
            subs: vec![
                rand("text", "random text pairs and contexts", text_pair, d05_text, 40_000, 2_500_000),
                rand_few("huge_text", "texts of tens of thousands of lines, described by their edits", || huge(70_000), |h, o| d05_text(&h.text(), o), 48, 1500),
                rand_few("many_changes", "hundreds of changes", || many_changes(4_000), |h, o| d05_text(&h.text(), o), 48, 1500),
                rand_few("huge_bytes", "byte strings of tens of thousands of bytes, described by their edits", || huge(70_000), |h, o| d05_bytes(&h.bytes(), o), 32, 1000),
                rand_few("many_bytes", "hundreds of changes", || many_changes(2_000), |h, o| d05_bytes(&h.bytes(), o), 32, 1000),
                rand("bytes", "random byte pairs and contexts", byte_pair, d05_bytes, 30_000, 2_000_000),
                rand("long_text", "texts of hundreds of lines", long_text_pair, d05_text, 300, 12_000),
                rand("long_bytes", "byte strings of 300-1500 bytes", long_byte_pair, d05_bytes, 150, 6_000),
                exh("lengths", "hunks of every length up to 260 (1100 thorough) and around powers of two up to 2^14 (2^15), changes after that many lines or that far apart", exh_lengths, d05_text),
                exh("byte_lengths", "the same for bytes", exh_byte_lengths, d05_bytes),
                exh("all_small", "all pairs over 3 values up to length 4 (5 thorough), contexts 0-2", |t| exh_byte_pairs(3, if t { 5 } else { 4 }, CTX3), d05_bytes),
                exh("all_small_text", "all pairs over 2 lines up to length 5 (6 thorough), contexts 0-3", |t| exh_text_pairs(2, if t { 6 } else { 5 }, CTX4), d05_text),
            ],
        },
        Property {
            id: "D06",
            level: "exploration",
            rule: "each diff is computed repeatedly, in thread pools of 1, 2 and 5 workers, concurrently, and by pw_diff in processes of their own while this one has computed other diffs before. Non-trivial: the diff is not empty",
            assumptions: &["schedules are sampled by the operating system, not enumerated"],
            subs: vec![
                rand("text", "random text pairs", text_pair, d06_text, 10_000, 400_000),
                rand_few("huge_text", "texts of tens of thousands of lines, described by their edits", || huge(70_000), |h, o| d06_text(&h.text(), o), 16, 200),
                rand_few("many_changes", "hundreds of changes", || many_changes(4_000), |h, o| d06_text(&h.text(), o), 16, 200),
                rand("long_text", "texts of hundreds of lines", long_text_pair, d06_text, 150, 6_000),
                super::cli::d06_sub(),
            ],
        },
    ]
}
