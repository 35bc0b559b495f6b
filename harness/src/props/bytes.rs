//! B01-B03: applying byte diffs.

use proptest::prelude::*;

use crate::engine::*;
use crate::gen::*;
use crate::logcap::{captured, outcomes, Told};
use crate::model::*;
use crate::{ensure, ensure_eq};

use pw_diff_lib::apply_bytes::ApplyClumpsClean;
use pw_diff_lib::byte_diff::ByteChangeDiff;

pub fn saved_byte_diff(p: &BytePatch) -> Result<ByteChangeDiff, String> {
    let v = serde_json::json!({
        "before_path": "old", "after_path": "new", "compressed": false,
        "clumps": serde_json::to_value(&p.0).map_err(|e| e.to_string())?,
    });
    let s = v.to_string();
    ByteChangeDiff::from_reader(&mut s.as_bytes()).map_err(|e| format!("loading a saved diff: {e}"))
}

fn b01(p: &BytePair, o: &mut Obs) -> CheckResult {
    let patch = byte_patch(&p.before, &p.after, p.ctx);
    o.nontrivial = !patch.0.is_empty();
    o.label_if(patch.0.len() > 1, "several hunks");
    o.label_if(p.before.is_empty() || p.after.is_empty(), "one side empty");
    ensure_eq!(apply_bytes(&patch, &p.before, false)?, p.after, "diff applied to its original");
    ensure_eq!(apply_bytes(&patch, &p.after, true)?, p.before, "diff reversed on its result");
    let saved = saved_byte_diff(&patch)?;
    ensure_eq!(apply_bytes(&saved, &p.before, false)?, p.after, "saved diff applied to its original");
    ensure_eq!(apply_bytes(&saved, &p.after, true)?, p.before, "saved diff reversed on its result");
    Ok(())
}

fn found(t: &[u8], at: usize, items: &[u8]) -> bool {
    at <= t.len() && items.len() <= t.len() - at && t[at..at + items.len()] == *items
}

/// Is this an output the property allows (and are these the outcomes that may be reported)?
/// A hunk that matches where nothing was replaced must be applied; inside a stretch recognised as
/// already applied it may be.
fn allowed(hunks: &[Hunk<u8>], t: &[u8], out: &[u8], told: Option<&[Told]>) -> bool {
    // hunk, replaced up to, passed up to, written
    let mut todo = vec![(0usize, 0usize, 0usize, 0usize)];
    let mut seen = std::collections::HashSet::new();
    if told.is_some_and(|t| t.len() != hunks.len()) {
        return false;
    }
    while let Some(at) = todo.pop() {
        if !seen.insert(at) {
            continue;
        }
        let (i, replaced, passed, written) = at;
        let Some(h) = hunks.get(i) else {
            if out[written..] == t[replaced..] {
                return true;
            }
            continue;
        };
        let may = |x: Told| told.is_none_or(|t| t[i] == x);
        if h.b_start >= replaced && found(t, h.b_start, &h.b) {
            let between = &t[replaced..h.b_start];
            if may(Told::Clean) && found(out, written, between) && found(out, written + between.len(), &h.a) {
                let end = h.b_start + h.b.len();
                todo.push((i + 1, end, end.max(passed), written + between.len() + h.a.len()));
            }
            if h.b_start >= passed {
                continue;
            }
        }
        if found(t, h.a_start, &h.a) {
            if may(Told::Already) {
                todo.push((i + 1, replaced, passed.max(h.a_start + h.a.len()), written));
            }
        } else if may(Told::Failed) {
            todo.push((i + 1, replaced, passed, written));
        }
    }
    false
}

pub fn t08_bytes(c: &ByteTriple, o: &mut Obs) -> CheckResult {
    let patch = byte_patch(&c.before, &c.after, c.ctx);
    let (out, log) = captured(|| apply_bytes(&patch, &c.target, c.reverse));
    let out = out?;
    let told = outcomes(&log)?;
    o.nontrivial = told.iter().any(|t| *t != Told::Clean);
    o.label_if(told.len() > 1 && told.iter().any(|t| *t != told[0]), "several outcomes");
    o.label_if(told.contains(&Told::Failed), "failed");
    let hunks = byte_hunks(&patch, c.reverse);
    ensure!(
        allowed(&hunks, &c.target, &out, Some(&told)),
        "target {:?} with hunks {hunks:?} gives {out:?}, and {told:?} is told",
        c.target
    );
    let n = hunks.len();
    let (yes, log) = captured(|| patch.already_applied(&seq_bytes(&c.target), c.reverse));
    let told = outcomes(&log)?;
    let failed = told.iter().position(|t| *t == Told::Failed);
    if yes {
        ensure!(told.len() == n && failed.is_none(), "{n} hunks, all applied, but the log tells {log:?}");
    } else {
        ensure!(failed.is_some_and(|f| f + 1 == told.len()), "not all applied, but the log tells {log:?}");
    }
    Ok(())
}

fn b02(c: &ByteTriple, o: &mut Obs) -> CheckResult {
    let patch = byte_patch(&c.before, &c.after, c.ctx);
    let hunks = byte_hunks(&patch, c.reverse);
    let out = apply_bytes(&patch, &c.target, c.reverse)?;
    let hits = hunks.iter().filter(|h| found(&c.target, h.b_start, &h.b)).count();
    o.nontrivial = !hunks.is_empty() && c.target != c.before && c.target != c.after;
    o.label_if(hits > 0 && hits < hunks.len(), "some hunks match");
    o.label_if(hits == hunks.len() && hits > 0, "all hunks match");
    o.label_if(hits == 0 && !hunks.is_empty(), "no hunk matches");
    ensure!(
        allowed(&hunks, &c.target, &out, None),
        "target {:?} with hunks {hunks:?} gives {out:?}",
        c.target
    );
    Ok(())
}

fn b03(c: &ByteTriple, o: &mut Obs) -> CheckResult {
    let patch = byte_patch(&c.before, &c.after, c.ctx);
    o.nontrivial = !patch.0.is_empty();
    ensure!(patch.already_applied(&seq_bytes(&c.after), false), "not recognised in its own result");
    ensure!(patch.already_applied(&seq_bytes(&c.before), true), "reversal not recognised in the original");
    let hunks = byte_hunks(&patch, c.reverse);
    let want = hunks.iter().all(|h| found(&c.target, h.a_start, &h.a));
    o.label_if(want && !hunks.is_empty(), "already applied");
    ensure_eq!(
        patch.already_applied(&seq_bytes(&c.target), c.reverse),
        want,
        "already applied in {:?} (hunks {hunks:?})",
        c.target
    );
    ensure_eq!(
        saved_byte_diff(&patch)?.already_applied(&seq_bytes(&c.target), c.reverse),
        want,
        "saved diff already applied in {:?}",
        c.target
    );
    for (reverse, result) in [(false, &c.after), (true, &c.before)] {
        let hunks = byte_hunks(&patch, reverse);
        if hunks.iter().all(|h| !found(result, h.b_start, &h.b)) {
            o.label_if(!hunks.is_empty(), "re-applied");
            ensure_eq!(
                &apply_bytes(&patch, result, reverse)?,
                result,
                "re-applied to its own result (reverse {reverse})"
            );
        }
    }
    Ok(())
}

fn exh_triples(thorough: bool) -> Box<dyn Iterator<Item = ByteTriple>> {
    let seqs = std::rc::Rc::new(all_seqs(2, if thorough { 4 } else { 3 }));
    let n = seqs.len();
    Box::new((0..n * n * n).flat_map(move |k| {
        let (b, a, t) = (seqs[k / (n * n)].clone(), seqs[(k / n) % n].clone(), seqs[k % n].clone());
        [(0u8, false), (1, false), (2, false), (0, true), (1, true), (2, true)]
            .into_iter()
            .map(move |(ctx, reverse)| ByteTriple {
                before: b.clone(),
                after: a.clone(),
                target: t.clone(),
                ctx,
                reverse,
            })
    }))
}

/// Distinct bytes and one side grown, so that already applied stretches reach over later hunks.
pub fn grown_triple() -> BoxedStrategy<ByteTriple> {
    (edited_unique(0..40, 1..6), any::<u8>(), any::<bool>(), proptest::collection::vec(any::<bool>(), 40))
        .prop_map(|((b, a), c, reverse, pick)| {
            let f = |v: &[u32]| -> Vec<u8> { v.iter().map(|x| (x % 251) as u8).collect() };
            let (before, after) = (f(&b), f(&a));
            // a blend: positions of one or the other
            let n = before.len().max(after.len());
            let target = (0..n)
                .filter_map(|i| {
                    let p = pick[(i / 4) % pick.len()];
                    let (x, y) = if p { (&before, &after) } else { (&after, &before) };
                    x.get(i).or(y.get(i)).copied()
                })
                .collect();
            ByteTriple { before, after, target, ctx: c % 4, reverse }
        })
        .boxed()
}

/// Hundreds of hunks, each applied, not yet applied or overwritten in the target.
pub fn many_triple() -> BoxedStrategy<ByteTriple> {
    (prop_oneof![250usize..270, 256usize..700], 0u8..3, any::<bool>(), 0usize..6, proptest::collection::vec(0u8..4, 16..40), any::<proptest::sample::Index>(), 0u8..6)
        .prop_map(|(n, ctx, reverse, more, mut pick, one, mode)| {
            // or in all but one of them the same
            if mode < 4 {
                let (all, other) = [(0, 1), (0, 2), (2, 1), (2, 0)][mode as usize];
                pick = vec![all; n];
                pick[one.index(n)] = other;
            }
            let step = 2 * ctx as usize + 2 + more;
            let before: Vec<u8> = (0..(n * step) as u32).map(|x| (x.wrapping_mul(0x9E37_79B1) >> 24) as u8).collect();
            let (mut after, mut target) = (before.clone(), before.clone());
            for i in 0..n {
                let at = i * step + step / 2;
                after[at] = after[at].wrapping_add(101);
                target[at] = match pick[i % pick.len()] {
                    0 => after[at],
                    1 => before[at].wrapping_add(55),
                    _ => before[at],
                };
            }
            ByteTriple { before, after, target, ctx, reverse }
        })
        .boxed()
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "B01",
            level: "exploration",
            rule: "pairs of byte strings: small alphabets, edited copies, all byte values, up to 1500 bytes; plus all pairs over small alphabets; applied and reversed, directly and after saving. Non-trivial: at least one hunk",
            assumptions: &[],
            subs: vec![
                rand("bytes", "random byte pairs and contexts", byte_pair, b01, 40_000, 2_500_000),
                rand_few("huge_bytes", "byte strings of tens of thousands of bytes, described by their edits", || huge(70_000), |h, o| b01(&h.bytes(), o), 32, 1000),
                rand_few("many_bytes", "hundreds of changes", || many_changes(2_000), |h, o| b01(&h.bytes(), o), 32, 1000),
                rand("long_bytes", "byte strings of 300-1500 bytes", long_byte_pair, b01, 150, 6_000),
                rand_few("lopsided", "few bytes against up to 131072", || lopsided(17), |l, o| b01(&l.bytes(), o), 64, 2_000),
                exh("lengths", "hunks of every length up to 260 (1100 thorough) and around powers of two up to 2^14 (2^15), changes after that many bytes or that far apart", exh_byte_lengths, b01),
                exh("all_small", "all pairs over 3 values up to length 4 (5 thorough), contexts 0-2", |t| exh_byte_pairs(3, if t { 5 } else { 4 }, &[0, 1, 2]), b01),
            ],
        },
        Property {
            id: "B02",
            level: "exploration",
            rule: "triples before/after/target (edited, partly patched, blended, truncated, unrelated); oracle: a direct reference patcher. Non-trivial: at least one hunk and a target that is neither side",
            assumptions: &["inside a stretch recognised as already applied a later matching hunk may or may not be applied"],
            subs: vec![
                rand("triples", "random triples", byte_triple, b02, 60_000, 4_000_000),
                rand("blended", "targets blended from both sides", grown_triple, b02, 30_000, 2_000_000),
                rand_few("many", "hundreds of hunks", many_triple, b02, 48, 1_500),
                rand_few("lopsided", "hunks of up to 131072 bytes, few of them wrong in the target", || lopsided(17), |l, o| b02(&l.triple(), o), 96, 3_000),
                exh("flawed", "hunks of every length up to 64 (520 thorough) and around powers of two up to 2^16, one byte of the target wrong", |t| flawed(if t { 520 } else { 64 }, 16), |c, o| b02(&c.bytes(), o)),
                exh("all_small", "all triples over 2 values up to length 3 (4 thorough), contexts 0-2, both directions", exh_triples, b02),
            ],
        },
        Property {
            id: "B03",
            level: "exploration",
            rule: "as B02, asked whether already applied, and re-applied to the own result. Non-trivial: at least one hunk",
            assumptions: &[],
            subs: vec![
                rand("triples", "random triples", byte_triple, b03, 50_000, 3_000_000),
                rand("blended", "targets blended from both sides", grown_triple, b03, 20_000, 1_500_000),
                rand_few("many", "hundreds of hunks", many_triple, b03, 48, 1_500),
                rand_few("lopsided", "hunks of up to 131072 bytes, few of them wrong in the target", || lopsided(17), |l, o| b03(&l.triple(), o), 96, 3_000),
                exh("flawed", "hunks of every length up to 64 (520 thorough) and around powers of two up to 2^16, one byte of the target wrong", |t| flawed(if t { 520 } else { 64 }, 16), |c, o| b03(&c.bytes(), o)),
                exh("all_small", "all triples over 2 values up to length 3 (4 thorough), contexts 0-2, both directions", exh_triples, b03),
            ],
        },
    ]
}
