//! T01-T08: applying text diffs.

use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

use super::seqs::{index2, Index2};
use crate::engine::*;
use crate::gen::*;
use crate::logcap::{self, captured, outcomes, Told};
use crate::model::*;
use crate::{ensure, ensure_eq};

use pw_diff_lib::apply_text::ApplyClumpsFuzzy;
use pw_diff_lib::text_diff::TextChangeDiff;

// ---------------------------------------------------------------- T01, T02

/// The same hunks, through the saved form of a text diff.
pub fn saved_text_diff(p: &TextPatch) -> Result<TextChangeDiff, String> {
    let v = serde_json::json!({
        "before_path": "old", "after_path": "new",
        "clumps": serde_json::to_value(&p.0).map_err(|e| e.to_string())?,
    });
    let s = v.to_string();
    TextChangeDiff::from_reader(&mut s.as_bytes()).map_err(|e| format!("loading a saved diff: {e}"))
}

fn t01(p: &TextPair, o: &mut Obs) -> CheckResult {
    let patch = text_patch(&p.before, &p.after, p.ctx);
    let n = patch.0.len();
    o.nontrivial = n > 0;
    o.label_if(n > 1, "several hunks");
    o.label_if(p.before.is_empty() || p.after.is_empty(), "one side empty");
    o.label_if(!p.before.ends_with('\n') || !p.after.ends_with('\n'), "no final newline");
    let (out, stats) = apply_text(&patch, &p.before, false)?;
    ensure_eq!(out, p.after, "diff applied to its original");
    ensure_eq!(stats, Stats::all_clean(n), "statistics");
    let (out, stats) = apply_text(&saved_text_diff(&patch)?, &p.before, false)?;
    ensure_eq!(out, p.after, "saved diff applied to its original");
    ensure_eq!(stats, Stats::all_clean(n), "statistics (saved)");
    Ok(())
}

fn t02(p: &TextPair, o: &mut Obs) -> CheckResult {
    let patch = text_patch(&p.before, &p.after, p.ctx);
    let n = patch.0.len();
    o.nontrivial = n > 0;
    o.label_if(n > 1, "several hunks");
    o.label_if(p.before.is_empty() || p.after.is_empty(), "one side empty");
    let (out, stats) = apply_text(&patch, &p.after, true)?;
    ensure_eq!(out, p.before, "diff reversed on its result");
    ensure_eq!(stats, Stats::all_clean(n), "statistics");
    let saved = saved_text_diff(&patch)?;
    let (fwd, _) = apply_text(&saved, &p.before, false)?;
    let (back, stats) = apply_text(&saved, &fwd, true)?;
    ensure_eq!(back, p.before, "forwards, then in reverse");
    ensure_eq!(stats, Stats::all_clean(n), "statistics of the reversal");
    let (fwd, stats) = apply_text(&saved, &out, false)?;
    ensure_eq!(fwd, p.after, "in reverse, then forwards");
    ensure_eq!(stats, Stats::all_clean(n), "statistics of the re-application");
    Ok(())
}

// ---------------------------------------------------------------- T03, T04, T06, T07

#[derive(Debug, Clone, Copy, Hash, Serialize, Deserialize, PartialEq)]
pub enum State {
    /// the target has the old form
    Old,
    /// the target has the new form already
    New,
    /// the target has something else (this many other lines) in one changed place
    Other(u8, Index2),
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct ZoneEdit {
    pub at: Index2,
    pub del: u8,
    pub ins: u8,
}

/// A diff over unique lines and a target derived from it with known edits.
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct MergeCase {
    pub ctx: u8,
    pub reverse: bool,
    /// lengths of the unchanged zones: one more than `cores`
    pub zones: Vec<u16>,
    /// (lines removed, lines added)
    pub cores: Vec<(u16, u16)>,
    /// edits of the target outside the hunks, per zone
    pub edits: Vec<Vec<ZoneEdit>>,
    /// per core (the first core of each hunk counts): outermost context lines altered
    pub damage: Vec<(u8, u8)>,
    /// 0: altered lines are replaced one by one; otherwise by more or fewer, or removed
    #[serde(default)]
    pub resize: u8,
    pub states: Vec<State>,
    /// drop the final newline: of the last zone / of the removed / of the added lines
    pub noeol: (bool, bool, bool),
    /// how lines look (see `dress`)
    #[serde(default)]
    pub style: u8,
    /// or how alike they look
    #[serde(default)]
    pub look: Option<Look>,
}

/// The line `l` (a letter and a number, with or without newline) in another look; different lines
/// stay different.
fn dress(l: &str, style: u8) -> String {
    let (body, eol) = match l.strip_suffix('\n') {
        Some(b) => (b, "\n"),
        None => (l, ""),
    };
    let n: usize = body[1..].parse().unwrap_or(0);
    let new = match style % 8 {
        1 => format!("{body}\r"),
        2 => format!("{}{body}", ["<<<<<<<", "=======", ">>>>>>>", "<<<<<<< ", "======= ", ">>>>>>> "][n % 6]),
        3 => body.bytes().flat_map(|b| (0..8).map(move |i| if b >> i & 1 > 0 { '\t' } else { ' ' })).collect(),
        4 => format!("{}{body}", ["-", "+", " ", "\\ ", "@@ -1 +1 @@ ", "--- ", "+++ "][n % 7]),
        5 => format!("\u{e9}\u{0}\"\\\u{2028}\u{1f600}{body}"),
        6 => format!("{body}{}", ["", " ", "\t "][n % 3]),
        7 => match n.wrapping_sub((style >> 3) as usize) {
            0 if eol.is_empty() => body.to_string(),
            0 => String::new(),
            1 => "=======".to_string(),
            2 => "<<<<<<<".to_string(),
            3 => ">>>>>>>".to_string(),
            4 => "\r".to_string(),
            5 => " ".to_string(),
            6 => "=======\r".to_string(),
            7 => "\\ No newline at end of file".to_string(),
            _ => body.to_string(),
        },
        _ => body.to_string(),
    };
    new + eol
}

pub struct Built {
    pub old: String,
    pub new: String,
    pub target: String,
    pub expect: String,
    /// the same as `expect`, but only as it was before conflicts were counted
    pub hunks: Vec<BuiltHunk>,
}

pub struct BuiltHunk {
    /// where the hunk's full region starts in the from-, to- and target line sequences
    pub from_start: usize,
    pub to_start: usize,
    /// (as if no context lines had been removed or inserted: it may overlap the hunk before)
    pub target_start: isize,
    /// unchanged lines between this hunk and the next
    pub gap: Option<usize>,
    pub state: State,
    pub damaged: bool,
    pub ctx: (usize, usize),
    pub from: Vec<String>,
    pub to: Vec<String>,
    /// how many lines its application adds
    pub adds: usize,
}

fn numbered(prefix: &str, next: &mut usize, n: usize) -> Vec<String> {
    (0..n)
        .map(|_| {
            *next += 1;
            format!("{prefix}{next}\n")
        })
        .collect()
}

/// Builds the texts; None if the case is outside the properties' preconditions.
pub fn build(c: &MergeCase) -> Option<Built> {
    let ctx = c.ctx as usize;
    let n = c.cores.len();
    if n == 0 || c.zones.len() != n + 1 || c.edits.len() != n + 1 || c.damage.len() != n || c.states.len() != n {
        return None;
    }
    let mut next = 0;
    let mut zones: Vec<Vec<String>> = vec![];
    let mut rem: Vec<Vec<String>> = vec![];
    let mut add: Vec<Vec<String>> = vec![];
    for i in 0..=n {
        let mut len = c.zones[i] as usize;
        if i > 0 && i < n {
            len = len.max(1);
        }
        zones.push(numbered("z", &mut next, len));
        if i < n {
            let (mut d, mut k) = c.cores[i];
            if ctx == 0 {
                d = d.max(1);
                k = k.max(1);
            } else if d == 0 && k == 0 {
                d = 1;
            }
            rem.push(numbered("r", &mut next, d as usize));
            add.push(numbered("a", &mut next, k as usize));
        }
    }
    // final newline
    let mut last_zone_cut = false;
    if let Some(l) = zones[n].last_mut() {
        if c.noeol.0 {
            l.pop();
            last_zone_cut = true;
        }
    } else if !rem[n - 1].is_empty() && !add[n - 1].is_empty() {
        if c.noeol.1 {
            rem[n - 1].last_mut().unwrap().pop();
        }
        if c.noeol.2 {
            add[n - 1].last_mut().unwrap().pop();
        }
    }
    let text = |core: &[Vec<String>]| -> String {
        let mut s = zones[0].concat();
        for i in 0..n {
            s += &core[i].concat();
            s += &zones[i + 1].concat();
        }
        s
    };
    let (old, new) = (text(&rem), text(&add));
    let (from, to) = if c.reverse { (&add, &rem) } else { (&rem, &add) };

    // group cores into hunks
    let mut groups: Vec<std::ops::Range<usize>> = vec![];
    for i in 0..n {
        match groups.last_mut() {
            Some(g) if zones[i].len() < 2 * ctx => g.end = i + 1,
            _ => groups.push(i..i + 1),
        }
    }
    let mut hunks = vec![];
    let mut target: Vec<String> = vec![];
    let mut expect: Vec<String> = vec![];
    let (mut from_at, mut to_at) = (0, 0); // line positions at the start of the zone before the group
    let mut fresh = 100_000;
    let mut prev_end_ctx = 0;
    let mut pending_end: Vec<String> = vec![]; // end context of the previous hunk, perhaps damaged
    for (gi, g) in groups.iter().enumerate() {
        let lead = &zones[g.start];
        let trail = &zones[g.end];
        let s = ctx.min(if gi == 0 { lead.len() } else { lead.len() - prev_end_ctx });
        let e = ctx.min(trail.len());
        let free = &lead[prev_end_ctx..lead.len() - s];
        let (ds, de) = c.damage[g.start];
        let most = s.max(e).saturating_sub(1);
        let (ds, de) = ((ds as usize).min(s).min(most), (de as usize).min(e).min(most));
        let state = c.states[g.start];
        let (ds, de) = if matches!(state, State::Other(..)) { (0, 0) } else { (ds, de) };
        // preconditions for recognising (or not) each form
        let from_n: usize = g.clone().map(|i| from[i].len()).sum();
        let to_n: usize = g.clone().map(|i| to[i].len()).sum();
        if s + e + from_n + zones[g.start + 1..g.end].iter().map(|z| z.len()).sum::<usize>() == 0
            || s + e + to_n + zones[g.start + 1..g.end].iter().map(|z| z.len()).sum::<usize>() == 0
        {
            return None;
        }
        let balanced = s == e && s > 0;
        match state {
            State::Old => {}
            State::New => {
                if from_n == 0 && !balanced {
                    return None;
                }
            }
            State::Other(..) => {}
        }
        // the zone before this hunk
        target.extend(pending_end.iter().cloned());
        expect.extend(pending_end.drain(..));
        let edited = edit_zone(free, &c.edits[g.start], &mut fresh);
        target.extend(edited.iter().cloned());
        expect.extend(edited);
        // start context
        let size = |d: usize, k: usize| match c.resize {
            0 => d,
            _ if d == 0 => 0,
            x => (x as usize + k) % (d + 3),
        };
        let mut start = numbered("d", &mut fresh, size(ds, gi));
        let target_start = (target.len() + start.len()) as isize - ds as isize;
        start.extend(lead[lead.len() - s + ds..].iter().cloned());
        target.extend(start.iter().cloned());
        expect.extend(start);
        // cores
        let chosen = match state {
            State::Other(_, i) => Some(g.start + i.of(g.len())),
            _ => None,
        };
        for i in g.clone() {
            if i > g.start {
                target.extend(zones[i].iter().cloned());
                expect.extend(zones[i].iter().cloned());
            }
            match state {
                State::Old => {
                    target.extend(from[i].iter().cloned());
                    expect.extend(to[i].iter().cloned());
                }
                State::New => {
                    target.extend(to[i].iter().cloned());
                    expect.extend(to[i].iter().cloned());
                }
                State::Other(m, _) => {
                    let lines = if chosen == Some(i) {
                        let full = !from[i].is_empty() && !to[i].is_empty();
                        if !full && !balanced {
                            return None;
                        }
                        let m = if full { m as usize } else { (m as usize).max(1) };
                        numbered("x", &mut fresh, m)
                    } else {
                        from[i].clone()
                    };
                    target.extend(lines.iter().cloned());
                    expect.extend(lines);
                }
            }
        }
        // end context
        pending_end = trail[..e - de].to_vec();
        let mut altered = numbered("d", &mut fresh, size(de, 3 * gi + 1));
        if de > 0 && !trail[e - 1].ends_with('\n') {
            if let Some(l) = altered.last_mut() {
                l.pop();
            }
        }
        pending_end.extend(altered);
        prev_end_ctx = e;
        // recorded regions
        let lead_off = lead.len() - s;
        let mut f: Vec<String> = lead[lead_off..].to_vec();
        let mut t = f.clone();
        for i in g.clone() {
            if i > g.start {
                f.extend(zones[i].iter().cloned());
                t.extend(zones[i].iter().cloned());
            }
            f.extend(from[i].iter().cloned());
            t.extend(to[i].iter().cloned());
        }
        f.extend(trail[..e].iter().cloned());
        t.extend(trail[..e].iter().cloned());
        let gap = groups.get(gi + 1).map(|_| trail.len() - e - ctx.min(trail.len() - e));
        hunks.push(BuiltHunk {
            from_start: from_at + lead_off,
            to_start: to_at + lead_off,
            target_start,
            gap,
            state,
            damaged: ds + de > 0,
            ctx: (s, e),
            adds: to_n,
            from: f,
            to: t,
        });
        for i in g.clone() {
            from_at += zones[i].len() + from[i].len();
            to_at += zones[i].len() + to[i].len();
        }
    }
    target.extend(pending_end.iter().cloned());
    expect.extend(pending_end.drain(..));
    let free = &zones[n][prev_end_ctx..];
    let mut tail = edit_zone(free, &c.edits[n], &mut fresh);
    if last_zone_cut {
        // a line without newline can only stay last
        if let Some(p) = tail.iter().position(|l| !l.ends_with('\n')) {
            if p + 1 < tail.len() {
                tail.truncate(p + 1);
            }
        } else if free.is_empty() {
            tail.clear(); // the context itself ends the file
        }
    } else if free.is_empty() && zones[n].is_empty() && target.last().map_or(false, |l| !l.ends_with('\n')) {
        tail.clear();
    }
    if !tail.is_empty() && expect.last().map_or(false, |l| !l.ends_with('\n')) {
        return None;
    }
    target.extend(tail.iter().cloned());
    expect.extend(tail);
    // only the last line may lack its newline
    for v in [&target, &expect] {
        if v.iter().rev().skip(1).any(|l| !l.ends_with('\n')) {
            return None;
        }
    }
    let mut looks = c.look.map(Looks::new);
    let mut d = |l: &str| match &mut looks {
        Some(x) => x.line(l),
        None => dress(l, c.style),
    };
    for h in hunks.iter_mut() {
        for l in h.from.iter_mut().chain(h.to.iter_mut()) {
            *l = d(l);
        }
    }
    Some(Built {
        old: old.split_inclusive('\n').map(&mut d).collect(),
        new: new.split_inclusive('\n').map(&mut d).collect(),
        target: target.iter().map(|l| d(l)).collect(),
        expect: expect.iter().map(|l| d(l)).collect(),
        hunks,
    })
}

fn edit_zone(free: &[String], edits: &[ZoneEdit], fresh: &mut usize) -> Vec<String> {
    let mut v = free.to_vec();
    for e in edits {
        let p = e.at.of(v.len() + 1);
        let end = (p + e.del as usize).min(v.len());
        let mut ins = numbered("i", fresh, e.ins as usize);
        // keep a missing final newline at the end
        if end == v.len() && v.last().map_or(false, |l| !l.ends_with('\n')) {
            if p == v.len() {
                v.splice(p - 1..p - 1, ins);
            } else {
                let keep = v.pop().unwrap();
                v.splice(p.min(v.len())..v.len(), ins.drain(..));
                v.push(keep);
            }
        } else {
            v.splice(p..end, ins);
        }
    }
    v
}

pub fn conflict_block(from: &[String], to: &[String]) -> String {
    let mut s = "<<<<<<<\n".to_string();
    for (lines, marker) in [(from, "=======\n"), (to, ">>>>>>>\n")] {
        for l in lines {
            s += l;
        }
        if !s.ends_with('\n') {
            s.push('\n');
        }
        s += marker;
    }
    s
}

/// What the specification says about each hunk: its outcome and how far it moved since the one
/// before. None if a hunk lies beyond the search bound.
pub fn predict_each(b: &Built) -> Option<Vec<(usize, isize)>> {
    let mut v = vec![];
    let mut offset = 0isize;
    for h in &b.hunks {
        let start = match h.state {
            State::Old => h.from_start,
            State::New => h.to_start,
            State::Other(..) => {
                v.push((4, 0));
                continue;
            }
        };
        let delta = h.target_start - (start as isize + offset);
        if let Some(gap) = h.gap {
            if delta > gap as isize {
                return None;
            }
        }
        offset += delta;
        let exact = delta == 0 && !h.damaged;
        let kind = if h.state == State::Old { 0 } else { 2 };
        v.push((kind + !exact as usize, delta));
    }
    Some(v)
}

pub fn predict(b: &Built) -> Option<Stats> {
    let mut n = [0; 5];
    for (k, _) in predict_each(b)? {
        n[k] += 1;
    }
    Some(Stats { clean: n[0], fuzzy: n[1], already: n[2], already_fuzzy: n[3], failed: n[4] })
}

/// Removes each failed hunk's conflict block (in order) from the output.
fn strip_blocks(out: &str, b: &Built) -> Result<String, String> {
    let mut rest = out.to_string();
    let mut from = 0;
    for (n, h) in b.hunks.iter().enumerate() {
        if let State::Other(..) = h.state {
            let block = conflict_block(&h.from, &h.to);
            let Some(p) = rest[from..].find(&block).map(|p| p + from) else {
                return Err(format!("hunk {n} failed but no conflict block for it follows; expected block {block:?}"));
            };
            if p > 0 && !rest[..p].ends_with('\n') {
                return Err(format!("the conflict block of hunk {n} does not start on a line of its own"));
            }
            rest.replace_range(p..p + block.len(), "");
            from = p;
        } else {
            // later blocks come after this hunk's new lines
            let c = (h.to.len() > h.ctx.0 + h.ctx.1).then(|| &h.to[h.to.len() - h.ctx.1 - 1]);
            if let Some(p) = c.and_then(|l| rest.find(l.as_str())) {
                from = from.max(p);
            }
        }
    }
    Ok(rest)
}

pub fn merge(c: &MergeCase, o: &mut Obs) -> CheckResult {
    let Some(b) = build(c) else {
        return Ok(());
    };
    let Some(want) = predict(&b) else {
        o.label("moved beyond the bound (not checked)");
        return Ok(());
    };
    o.nontrivial = want.total() > want.clean;
    o.label_if(b.hunks.len() > 1, "several hunks");
    o.label_if(want.clean > 0, "clean");
    o.label_if(want.fuzzy > 0, "fuzzy");
    o.label_if(want.already + want.already_fuzzy > 0, "already applied");
    o.label_if(want.failed > 0, "failed");
    o.label_if(b.hunks.iter().any(|h| h.damaged), "altered context");
    o.label_if(b.hunks.iter().any(|h| h.ctx.0 != h.ctx.1), "unequal contexts");
    o.label_if(c.resize > 0 && b.hunks.iter().any(|h| h.damaged), "context lines removed or inserted");
    o.label_if(!b.target.ends_with('\n'), "no final newline");
    let patch = text_patch(&b.old, &b.new, c.ctx);
    let (out, stats) = apply_text(&patch, &b.target, c.reverse)?;
    let out = strip_blocks(&out, &b).map_err(|m| format!("{m}\ntarget: {:?}\noutput: {out:?}", b.target))?;
    ensure_eq!(out, b.expect, "target {:?} patched with the diff of {:?} and {:?}", b.target, b.old, b.new);
    ensure_eq!(stats, want, "statistics");
    if b.hunks.iter().all(|h| h.state == State::New) {
        ensure!(
            patch.is_already_applied(&seq_text(&b.target), c.reverse),
            "an already applied diff is not recognised in {:?}",
            b.target
        );
    }
    // a hunk that adds lines has not been applied where they are lacking
    if b.hunks.iter().any(|h| h.state != State::New && h.adds > 0) {
        o.label("not applied in full");
        ensure!(
            !patch.is_already_applied(&seq_text(&b.target), c.reverse),
            "recognised as already applied in {:?}",
            b.target
        );
    }
    Ok(())
}

fn merge_case(
    min_ctx: u8,
    edits: bool,
    damage: bool,
    state: fn() -> BoxedStrategy<State>,
    min_d: u16,
) -> BoxedStrategy<MergeCase> {
    (
        prop_oneof![4 => 0u8..=4, 1 => 0u8..=8].prop_map(move |c| c.max(min_ctx)),
        any::<bool>(),
        1usize..=4,
        (prop::bool::weighted(0.2), prop::bool::weighted(0.3), prop::bool::weighted(0.3)),
    )
        .prop_flat_map(move |(ctx, reverse, n, noeol)| {
            let z = 2 * ctx as u16;
            let zone = prop_oneof![3 => z..=z + 8, 1 => 0..=z + 1, 1 => z.saturating_sub(1)..=z + 1, 1 => 0u16..=2];
            let ed = vec(
                (
                    index2(),
                    prop_oneof![Just(0u8), 0u8..3],
                    prop_oneof![Just(0u8), 0u8..6],
                )
                    .prop_map(|(at, del, ins)| ZoneEdit { at, del, ins }),
                if edits { 0..3 } else { 0..1 },
            );
            let dm = if damage {
                prop_oneof![1 => Just((0u8, 0u8)), 4 => (0..=ctx, 0..=ctx)].boxed()
            } else {
                Just((0u8, 0u8)).boxed()
            };
            (
                Just((ctx, reverse, noeol)),
                vec(zone, n + 1),
                vec((min_d..4, min_d..4), n),
                vec(ed, n + 1),
                vec(dm, n),
                vec(state(), n),
                (prop_oneof![3 => Just(0u8), 2 => any::<u8>()], some_look(0.15), prop_oneof![Just(0u8), any::<u8>()]),
            )
        })
        .prop_map(|((ctx, reverse, noeol), zones, cores, edits, damage, states, (style, look, resize))| MergeCase {
            ctx,
            reverse,
            zones,
            cores,
            edits,
            damage,
            resize,
            states,
            noeol,
            style,
            look,
        })
        .boxed()
}

fn old() -> BoxedStrategy<State> {
    Just(State::Old).boxed()
}
fn new() -> BoxedStrategy<State> {
    Just(State::New).boxed()
}
fn old_or_new() -> BoxedStrategy<State> {
    prop_oneof![Just(State::Old), Just(State::New)].boxed()
}
/// Nearly all applied already
fn nearly_all_new() -> BoxedStrategy<State> {
    prop_oneof![
        800 => Just(State::New),
        1 => Just(State::Old),
        1 => (0u8..4, index2()).prop_map(|(n, i)| State::Other(n, i)),
    ]
    .boxed()
}
fn other() -> BoxedStrategy<State> {
    prop_oneof![
        2 => Just(State::Old),
        2 => (0u8..4, index2()).prop_map(|(n, i)| State::Other(n, i)),
    ]
    .boxed()
}
/// Nearly all overwritten
fn mostly_other() -> BoxedStrategy<State> {
    prop_oneof![
        1 => Just(State::Old),
        1 => Just(State::New),
        40 => (0u8..4, index2()).prop_map(|(n, i)| State::Other(n, i)),
    ]
    .boxed()
}
fn any_state() -> BoxedStrategy<State> {
    prop_oneof![
        2 => Just(State::Old),
        2 => Just(State::New),
        1 => (0u8..4, index2()).prop_map(|(n, i)| State::Other(n, i)),
    ]
    .boxed()
}

fn far_case(state: fn() -> BoxedStrategy<State>) -> BoxedStrategy<MergeCase> {
    // one or two hunks moved far: hundreds or thousands of lines
    (
        merge_case(0, false, true, state, 0),
        prop_oneof![6 => 0u32..600, 1 => 600u32..5000, 1 => 250u32..260, 1 => 1020u32..1030],
        any::<bool>(),
        any::<u8>(),
    )
        .prop_map(|(mut c, n, first, keep)| {
            let n = n as usize;
            c.look = c.look.filter(|_| n < 300);
            // with another hunk beyond as many unchanged lines
            let before_another = !first && keep % 3 == 0 && c.cores.len() > 1;
            let keep_cores = if first || before_another { 2 } else { 1 };
            if c.cores.len() > keep_cores {
                c.cores.truncate(keep_cores);
                c.zones.truncate(keep_cores + 1);
                c.edits.truncate(keep_cores + 1);
                c.damage.truncate(keep_cores);
                c.states.truncate(keep_cores);
            }
            if keep % 2 == 0 {
                c.damage.iter_mut().for_each(|d| *d = (0, 0));
            }
            if first {
                c.zones[0] = c.zones[0].max(n as u16 + keep as u16 % 5);
            }
            if before_another {
                c.zones[1] = c.zones[1].max(n as u16 + 2 * c.ctx as u16 + keep as u16 / 3 % 5);
            }
            let z = &mut c.edits[0];
            z.clear();
            for i in 0..=n / 255 {
                let k = if i == n / 255 { n % 255 } else { 255 } as u8;
                z.push(if first {
                    ZoneEdit { at: Index2(0), del: k, ins: if i == 0 { keep % 7 } else { 0 } }
                } else {
                    ZoneEdit { at: Index2(0), del: 0, ins: k }
                });
            }
            c
        })
        .boxed()
}

/// Hunks that moved by more than 65536 lines.
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct HugeMove {
    pub block: u32,
    /// position after the previous edit, lines removed, lines put there
    pub edits: Vec<(u32, u32, u32)>,
    /// the block is gone (otherwise it is new)
    pub gone: bool,
    pub ctx: u8,
    pub reverse: bool,
    /// already applied
    pub applied: bool,
}

fn huge_move(applied: bool) -> BoxedStrategy<HugeMove> {
    (
        prop_oneof![3 => 65_520u32..65_560, 2 => 32_760u32..32_780, 1 => 60_000u32..70_000],
        vec((10u32..60, 1u32..4, 1u32..4), 1..4),
        any::<bool>(),
        0u8..4,
        any::<bool>(),
    )
        .prop_map(move |(block, edits, gone, ctx, reverse)| HugeMove { block, edits, gone, ctx, reverse, applied })
        .boxed()
}

fn huge_moved(c: &HugeMove, o: &mut Obs) -> CheckResult {
    let (mut old, mut new) = (vec![], vec![]);
    let mut next = 0;
    let mut lines = |v: &mut Vec<u32>, n: u32| {
        v.extend(next..next + n);
        next += n;
    };
    // (new lines below an insertion may be searched for no further than the next hunk)
    let edits = &c.edits[..if c.gone { c.edits.len() } else { 1 }];
    for (gap, del, ins) in edits {
        let mut common = vec![];
        lines(&mut common, *gap);
        old.extend(&common);
        new.extend(&common);
        lines(&mut old, *del);
        lines(&mut new, *ins);
    }
    let mut common = vec![];
    lines(&mut common, 12);
    old.extend(&common);
    new.extend(&common);
    let mut block = vec![];
    lines(&mut block, c.block);
    let with_block = |v: &[u32]| [&block[..], v].concat();
    let (from, to) = if c.reverse { (&new, &old) } else { (&old, &new) };
    let (target, expect) = (if c.applied { to } else { from }, to);
    let (b, a, t, e) = if c.gone {
        (with_block(&old), with_block(&new), target.clone(), expect.clone())
    } else {
        (old.clone(), new.clone(), with_block(target), with_block(expect))
    };
    let patch = text_patch(&numbers(&b, true), &numbers(&a, true), c.ctx);
    let n = patch.0.len();
    o.nontrivial = true;
    o.label(if c.gone { "moved up" } else { "moved down" });
    let (out, stats) = apply_text(&patch, &numbers(&t, true), c.reverse)?;
    ensure!(out == numbers(&e, true), "wrong result: {} lines, expected {}; {stats:?}", out.lines().count(), e.len());
    if c.applied {
        ensure_eq!(stats.already + stats.already_fuzzy, n, "already applied hunks ({stats:?})");
    } else {
        ensure_eq!(stats, Stats { clean: n - 1, fuzzy: 1, ..Stats::default() }, "statistics");
    }
    Ok(())
}

/// Hunks of hundreds of lines.
fn big_core_case(state: fn() -> BoxedStrategy<State>) -> BoxedStrategy<MergeCase> {
    (merge_case(0, true, true, state, 0), vec((big(), big()), 4))
        .prop_map(|(mut c, sizes)| {
            for (x, y) in c.cores.iter_mut().zip(sizes) {
                *x = (x.0.max(y.0), x.1.max(y.1));
            }
            c
        })
        .boxed()
}

fn big() -> BoxedStrategy<u16> {
    prop_oneof![3 => Just(0u16), 1 => 0u16..20, 1 => 200u16..700, 1 => prop_oneof![Just(254u16), Just(255), Just(256), Just(257), Just(511), Just(512)]].boxed()
}

/// Hundreds of hunks. Few lines come or go, lest the later hunks lie beyond the search's bound.
fn many_case(state: fn() -> BoxedStrategy<State>) -> BoxedStrategy<MergeCase> {
    let style = prop_oneof![3 => Just(0u8), 1 => any::<u8>()];
    let resize = prop_oneof![3 => Just(0u8), 1 => any::<u8>()];
    (0u8..=2, any::<bool>(), prop_oneof![250usize..270, 256usize..600], any::<(bool, bool, bool)>(), (style, resize))
        .prop_flat_map(move |(ctx, reverse, n, noeol, style)| {
            let z = 2 * ctx as u16;
            let ed = prop_oneof![
                100 => Just(vec![]),
                1 => (index2(), 0u8..3, 0u8..3).prop_map(|(at, del, ins)| vec![ZoneEdit { at, del, ins }]),
            ];
            (
                Just((ctx, reverse, noeol, style)),
                vec(z + 4..z + 9, n + 1),
                vec(prop_oneof![60 => (1u16..4).prop_map(|k| (k, k)), 1 => (0u16..3, 0u16..3)], n),
                vec(ed, n + 1),
                vec(prop_oneof![4 => Just((0u8, 0u8)), 1 => (0..=ctx, 0..=ctx)], n),
                vec(state(), n),
            )
        })
        .prop_map(|((ctx, reverse, noeol, (style, resize)), zones, cores, edits, damage, mut states)| {
            for (s, c) in states.iter_mut().zip(&cores) {
                if let State::Other(m, i) = s {
                    if i.0 % 32 > 0 {
                        *m = c.0 as u8;
                    }
                }
            }
            MergeCase {
            ctx,
            reverse,
            zones,
            cores,
            edits,
            damage,
            resize,
            states,
            noeol,
            style,
            look: None,
        }})
        .boxed()
}

fn big_ctx_case() -> BoxedStrategy<MergeCase> {
    let ctx = prop_oneof![4 => 5u8..=120, 2 => 125u8..=135, 1 => 120u8..=255, 1 => 250u8..=255];
    (merge_case(1, true, true, any_state, 0), ctx, 0u8..8, (0u8..3, 0u16..40, 0u16..40))
        .prop_map(|(mut c, ctx, most, (short, first, last))| {
            let old = c.ctx;
            c.ctx = ctx;
            for z in c.zones.iter_mut() {
                *z += 2 * (ctx - old.min(ctx)) as u16;
            }
            // close to the start or the end of the file
            match short {
                0 => c.zones[0] = first,
                1 => *c.zones.last_mut().unwrap() = last,
                _ => {}
            }
            for d in c.damage.iter_mut() {
                *d = (d.0.saturating_mul(ctx / 4 + 1), d.1.saturating_mul(ctx / 4 + 1));
            }
            if let Some(d) = c.damage.first_mut() {
                // as many as may be dropped, or nearly
                match most {
                    0 => d.0 = ctx,
                    1 => d.1 = ctx,
                    2 => *d = (ctx - 1 - d.0 % 4, ctx - 1 - d.1 % 4),
                    _ => {}
                }
            }
            c
        })
        .boxed()
}

// ---------------------------------------------------------------- T05

struct Explainer<'a> {
    hunks: &'a [Hunk<String>],
    target: &'a [String],
    toff: Vec<usize>,
    tbytes: String,
    out: &'a str,
    dead: HashSet<(usize, usize, usize, isize, [usize; 5])>,
    steps: usize,
    /// what was told about each hunk
    told: Option<&'a [Told]>,
}

impl Explainer<'_> {
    fn may(&self, i: usize, kind: usize) -> bool {
        self.told.is_none_or(|t| {
            t[i] == match kind {
                0 => Told::Clean,
                1 => Told::Fuzzy,
                4 => Told::Failed,
                _ => Told::Already,
            }
        })
    }

    fn target_is(&self, at: usize, lines: &[String]) -> bool {
        at + lines.len() <= self.target.len() && self.target[at..at + lines.len()] == *lines
    }

    /// Can hunks i.. explain the output from `o`, the target being consumed up to line `t`?
    fn go(&mut self, i: usize, t: usize, o: usize, offset: isize, left: [usize; 5]) -> bool {
        if i == self.hunks.len() {
            return left == [0; 5] && self.out[o..] == self.tbytes[self.toff[t]..];
        }
        let key = (i, t, o, offset, left);
        if self.dead.contains(&key) {
            return false;
        }
        self.steps += 1;
        if self.steps > 200_000 {
            return true; // give up: counts as explained
        }
        let h = &self.hunks[i].clone();
        let (s, e) = h.ctx;
        let reds: Vec<(usize, usize)> = (0..=s)
            .flat_map(|rs| (0..=e).map(move |re| (rs, re)))
            .filter(|(rs, re)| rs + re <= h.b.len() && rs + re <= h.a.len())
            .collect();
        let here = h.b_start as isize + offset;
        let there = h.a_start as isize + offset;
        // found in full where expected: applied there, cleanly
        let must = (here >= t as isize && self.target_is(here as usize, &h.b)).then_some(here as usize);
        let must_not_fail = must.is_some() || (there >= t as isize && self.target_is(there as usize, &h.a));
        // applied or failed after copying target lines t..q
        for q in t..=self.target.len() {
            let chunk = &self.tbytes[self.toff[t]..self.toff[q]];
            if !self.out[o..].starts_with(chunk) {
                break;
            }
            let o2 = o + chunk.len();
            if left[4] > 0 && !must_not_fail && self.may(i, 4) {
                let block = conflict_block(&h.b, &h.a);
                if self.out[o2..].starts_with(&block) {
                    let mut l = left;
                    l[4] -= 1;
                    if self.go(i + 1, q, o2 + block.len(), offset, l) {
                        return true;
                    }
                }
            }
            for &(rs, re) in &reds {
                let kind = if rs + re == 0 { 0 } else { 1 };
                if let Some(m) = must {
                    if m != q || kind != 0 {
                        continue;
                    }
                }
                let b = &h.b[rs..h.b.len() - re];
                if !self.target_is(q, b) {
                    continue;
                }
                let a = h.a[rs..h.a.len() - re].concat();
                if !self.out[o2..].starts_with(&a) {
                    continue;
                }
                let off = q as isize - rs as isize - h.b_start as isize;
                let kinds: &[usize] = if kind == 1 || off != offset { &[1] } else { &[0] };
                for k in kinds {
                    if left[*k] > 0 && self.may(i, *k) {
                        let mut l = left;
                        l[*k] -= 1;
                        if self.go(i + 1, q + b.len(), o2 + a.len(), off, l) {
                            return true;
                        }
                    }
                }
            }
        }
        // already applied somewhere
        if must.is_none() && left[2] + left[3] > 0 {
            for p in t..=self.target.len() {
                for &(rs, re) in &reds {
                    let a = h.a[rs..h.a.len() - re].to_vec();
                    if !self.target_is(p, &a) {
                        continue;
                    }
                    let end = p + a.len();
                    let chunk = &self.tbytes[self.toff[t]..self.toff[end]];
                    if !self.out[o..].starts_with(chunk) {
                        continue;
                    }
                    let o2 = o + chunk.len();
                    let off = p as isize - rs as isize - h.a_start as isize;
                    let k = if rs + re == 0 && off == offset { 2 } else { 3 };
                    if left[k] > 0 && self.may(i, k) {
                        let mut l = left;
                        l[k] -= 1;
                        if self.go(i + 1, end, o2, off, l) {
                            return true;
                        }
                    }
                }
            }
        }
        self.dead.insert(key);
        false
    }
}

/// Is the output the target with the hunks accounted for as the statistics say?
fn explained(hunks: &[Hunk<String>], target: &str, out: &str, st: &Stats, told: Option<&[Told]>, o: &mut Obs) -> bool {
    let lines = split(target);
    let mut toff = vec![0];
    for l in &lines {
        toff.push(toff.last().unwrap() + l.len());
    }
    let mut e = Explainer {
        hunks,
        target: &lines,
        toff,
        tbytes: target.to_string(),
        out,
        dead: HashSet::new(),
        steps: 0,
        told,
    };
    let ok = e.go(0, 0, 0, 0, [st.clean, st.fuzzy, st.already, st.already_fuzzy, st.failed]);
    o.label_if(e.steps > 200_000, "search given up");
    ok
}

fn t05(c: &TextTriple, o: &mut Obs) -> CheckResult {
    let patch = text_patch(&c.before, &c.after, c.ctx);
    let hunks = text_hunks(&patch, c.reverse);
    let (out, stats) = apply_text(&patch, &c.target, c.reverse)?;
    o.nontrivial = !hunks.is_empty() && c.target != c.before && c.target != c.after;
    o.label_if(stats.clean > 0, "clean");
    o.label_if(stats.fuzzy > 0, "fuzzy");
    o.label_if(stats.already > 0, "already applied");
    o.label_if(stats.already_fuzzy > 0, "already applied, fuzzy");
    o.label_if(stats.failed > 0, "failed");
    o.label_if(hunks.len() > 1, "several hunks");
    o.label_if(c.target.is_empty(), "empty target");
    ensure_eq!(stats.total(), hunks.len(), "hunks accounted for in {stats:?}");
    ensure!(
        explained(&hunks, &c.target, &out, &stats, None, o),
        "output {out:?} with {stats:?} is not target {:?} with hunks {hunks:?} applied",
        c.target
    );
    // the query never crashes either
    let _ = patch.is_already_applied(&seq_text(&c.target), c.reverse);
    Ok(())
}

fn long_triple() -> BoxedStrategy<TextTriple> {
    (
        (2u8..=200).prop_flat_map(|a| triple_of((0..a).boxed(), 300)),
        eol(),
        eol(),
        eol(),
        0u8..=4,
        any::<bool>(),
    )
        .prop_map(|((b, a, t), x, y, z, ctx, reverse)| TextTriple {
            before: letters(&b, x),
            after: letters(&a, y),
            target: letters(&t, z),
            ctx,
            reverse,
        })
        .boxed()
}

fn t05_exh(thorough: bool) -> Box<dyn Iterator<Item = TextTriple>> {
    let seqs = std::rc::Rc::new(all_seqs(2, if thorough { 4 } else { 3 }));
    let n = seqs.len();
    Box::new((0..n * n * n).flat_map(move |k| {
        let b = letters(&seqs[k / (n * n)], true);
        let a = letters(&seqs[(k / n) % n], true);
        let t = letters(&seqs[k % n], true);
        [(0u8, false), (1, false), (2, false), (0, true), (1, true), (2, true)]
            .into_iter()
            .map(move |(ctx, reverse)| TextTriple {
                before: b.clone(),
                after: a.clone(),
                target: t.clone(),
                ctx,
                reverse,
            })
    }))
}

// ---------------------------------------------------------------- T06

fn t06_query(c: &TextTriple, o: &mut Obs) -> CheckResult {
    let patch = text_patch(&c.before, &c.after, c.ctx);
    let n = patch.0.len();
    o.nontrivial = n > 0;
    ensure!(patch.is_already_applied(&seq_text(&c.after), false), "not recognised in its own result");
    ensure!(patch.is_already_applied(&seq_text(&c.before), true), "reversal not recognised in the original");
    // a text lacking a line that a hunk adds
    let have: HashSet<String> = split(&c.target).into_iter().collect();
    let lacking = text_hunks(&patch, c.reverse)
        .iter()
        .any(|h| h.a[h.ctx.0..h.a.len() - h.ctx.1].iter().any(|l| !have.contains(l)));
    if lacking {
        o.label("a line is lacking");
        ensure!(
            !patch.is_already_applied(&seq_text(&c.target), c.reverse),
            "recognised although a line it adds is lacking in {:?}",
            c.target
        );
    }
    // re-application, where every hunk removes a line no longer there
    for (reverse, result) in [(false, &c.after), (true, &c.before)] {
        let have: HashSet<String> = split(result).into_iter().collect();
        let gone = text_hunks(&patch, reverse)
            .iter()
            .all(|h| h.b[h.ctx.0..h.b.len() - h.ctx.1].iter().any(|l| !have.contains(l)));
        if gone {
            o.label_if(n > 0, "re-applied");
            let (out, stats) = apply_text(&patch, result, reverse)?;
            ensure_eq!(&out, result, "re-applied to its own result (reverse {reverse})");
            let want = Stats { clean: 0, fuzzy: 0, already: n, already_fuzzy: 0, failed: 0 };
            ensure_eq!(stats, want, "statistics of the re-application (reverse {reverse})");
        }
    }
    Ok(())
}

/// Targets with hunks in any state, edits elsewhere and altered contexts.
pub fn any_merge_triple() -> BoxedStrategy<TextTriple> {
    as_triple(merge_case(0, true, true, any_state, 0))
}

pub fn big_ctx_triple() -> BoxedStrategy<TextTriple> {
    as_triple(big_ctx_case())
}

fn as_triple(cases: BoxedStrategy<MergeCase>) -> BoxedStrategy<TextTriple> {
    cases
        .prop_filter_map("precondition", |c| {
            let b = build(&c)?;
            Some(TextTriple { before: b.old, after: b.new, target: b.target, ctx: c.ctx, reverse: c.reverse })
        })
        .boxed()
}

// ---------------------------------------------------------------- T08

fn agrees(told: &[Told], stats: &Stats) -> CheckResult {
    let count = |k| told.iter().filter(|t| **t == k).count();
    ensure!(
        count(Told::Clean) == stats.clean
            && count(Told::Fuzzy) == stats.fuzzy
            && count(Told::Already) == stats.already + stats.already_fuzzy
            && count(Told::Failed) == stats.failed,
        "the log tells {told:?}, the statistics {stats:?}"
    );
    Ok(())
}

/// The log of the question whether a diff has been applied.
fn query_log(patch: &TextPatch, target: &str, reverse: bool, n: usize) -> CheckResult {
    let (yes, log) = captured(|| patch.is_already_applied(&seq_text(target), reverse));
    let told = outcomes(&log)?;
    let (last, rest) = match told.split_last() {
        Some((l, r)) => (Some(*l), r),
        None => (None, &[][..]),
    };
    ensure!(!rest.contains(&Told::Failed), "went on after a hunk that is not applied: {log:?}");
    if yes {
        ensure!(told.len() == n && last != Some(Told::Failed), "{n} hunks, all applied, but the log tells {log:?}");
    } else {
        ensure!(last == Some(Told::Failed), "not all applied, but the log tells {log:?}");
    }
    Ok(())
}

fn t08(c: &TextTriple, o: &mut Obs) -> CheckResult {
    let patch = text_patch(&c.before, &c.after, c.ctx);
    let hunks = text_hunks(&patch, c.reverse);
    let (r, log) = captured(|| apply_text(&patch, &c.target, c.reverse));
    let (out, stats) = r?;
    let told = outcomes(&log)?;
    o.nontrivial = told.iter().any(|t| *t != Told::Clean);
    o.label_if(told.len() > 1 && told.iter().any(|t| *t != told[0]), "several outcomes");
    o.label_if(told.contains(&Told::Failed), "failed");
    ensure_eq!(told.len(), hunks.len(), "hunks told about in {log:?}");
    agrees(&told, &stats)?;
    ensure!(
        explained(&hunks, &c.target, &out, &stats, Some(&told), o),
        "output {out:?} is not target {:?} with hunks {hunks:?} applied as {log:?} tell",
        c.target
    );
    query_log(&patch, &c.target, c.reverse, hunks.len())?;
    // in its own result, every hunk is where it says
    let result = if c.reverse { &c.before } else { &c.after };
    let (_, log) = captured(|| patch.is_already_applied(&seq_text(result), c.reverse));
    ensure_eq!(outcomes(&log)?, vec![Told::Already; hunks.len()], "outcomes told of the diff's own result");
    for l in &log {
        ensure!(logcap::offset(&l.text).unwrap_or(0) == 0, "offset told of the diff's own result: {:?}", l.text);
    }
    Ok(())
}

fn t08_merge(c: &MergeCase, o: &mut Obs) -> CheckResult {
    let Some(b) = build(c) else {
        return Ok(());
    };
    let Some(want) = predict_each(&b) else {
        o.label("moved beyond the bound (not checked)");
        return Ok(());
    };
    let patch = text_patch(&b.old, &b.new, c.ctx);
    let (r, log) = captured(|| apply_text(&patch, &b.target, c.reverse));
    r?;
    let told = outcomes(&log)?;
    o.nontrivial = want.iter().any(|w| w.0 != 0);
    o.label_if(want.iter().any(|w| w.0 != want[0].0), "several outcomes");
    o.label_if(want.iter().any(|w| w.0 == 4), "failed");
    o.label_if(want.iter().any(|w| w.1 != 0), "moved");
    let expect: Vec<Told> =
        want.iter().map(|w| [Told::Clean, Told::Fuzzy, Told::Already, Told::Already, Told::Failed][w.0]).collect();
    ensure_eq!(told, expect, "outcomes told for target {:?} and the diff of {:?} and {:?}", b.target, b.old, b.new);
    let lines: Vec<_> = log.iter().filter(|l| logcap::hunk_number(&l.text).is_some()).collect();
    for ((_, delta), l) in want.iter().zip(lines) {
        ensure_eq!(logcap::offset(&l.text).unwrap_or(0), *delta, "offset told in {:?}", l.text);
    }
    query_log(&patch, &b.target, c.reverse, b.hunks.len())
}

// ----------------------------------------------------------------

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "T01",
            level: "exploration",
            rule: "pairs of texts: small alphabets, edited copies, unusual line contents, missing final newlines, hundreds of lines; plus all pairs over small alphabets; applied directly and after saving. Non-trivial: at least one hunk",
            assumptions: &[],
            subs: vec![
                rand("text", "random text pairs and contexts", text_pair, t01, 40_000, 2_500_000),
                rand_few("huge_text", "texts of tens of thousands of lines, described by their edits", || huge(70_000), |h, o| t01(&h.text(), o), 48, 1500),
                rand_few("many_changes", "hundreds of changes", || many_changes(4_000), |h, o| t01(&h.text(), o), 48, 1500),
                rand_few("lopsided", "few lines against up to 65536", || lopsided(16), |l, o| t01(&l.text(), o), 32, 1000),
                rand("long_text", "texts of hundreds of lines", long_text_pair, t01, 300, 12_000),
                exh("lengths", "hunks of every length up to 260 (1100 thorough) and around powers of two up to 2^14 (2^15), changes after that many lines or that far apart", exh_lengths, t01),
                exh("all_small", "all pairs over 2 lines up to length 6 (7 thorough), context 1", |t| exh_text_pairs(2, if t { 7 } else { 6 }, &[1]), t01),
                exh("all_small_3", "all pairs over 3 lines up to length 3 (4 thorough), contexts 0-3", |t| exh_text_pairs(3, if t { 4 } else { 3 }, &[0, 1, 2, 3]), t01),
            ],
        },
        Property {
            id: "T02",
            level: "exploration",
            rule: "as T01, reversed, and both round trips. Non-trivial: at least one hunk",
            assumptions: &[],
            subs: vec![
                rand("text", "random text pairs and contexts", text_pair, t02, 30_000, 2_000_000),
                rand_few("huge_text", "texts of tens of thousands of lines, described by their edits", || huge(70_000), |h, o| t02(&h.text(), o), 48, 1500),
                rand_few("many_changes", "hundreds of changes", || many_changes(4_000), |h, o| t02(&h.text(), o), 48, 1500),
                rand_few("lopsided", "few lines against up to 65536", || lopsided(16), |l, o| t02(&l.text(), o), 32, 1000),
                rand("long_text", "texts of hundreds of lines", long_text_pair, t02, 300, 12_000),
                exh("lengths", "hunks of every length up to 260 (1100 thorough) and around powers of two up to 2^14 (2^15), changes after that many lines or that far apart", exh_lengths, t02),
                exh("all_small", "all pairs over 2 lines up to length 6 (7 thorough), context 1", |t| exh_text_pairs(2, if t { 7 } else { 6 }, &[1]), t02),
                exh("all_small_3", "all pairs over 3 lines up to length 3 (4 thorough), contexts 0-3", |t| exh_text_pairs(3, if t { 4 } else { 3 }, &[0, 1, 2, 3]), t02),
            ],
        },
        Property {
            id: "T03",
            level: "exploration",
            rule: "diffs over unique lines with chosen zone, removal and addition sizes; targets with lines inserted, deleted and replaced between the hunks; the expected result is built with the target. Non-trivial: some hunk is not applied cleanly at its recorded place",
            assumptions: &["hunk content is unambiguous (unique lines) and no hunk moves past the place where the next one was expected"],
            subs: vec![
                rand("moved", "edits outside the hunks", || merge_case(0, true, false, old, 0), merge, 60_000, 4_000_000),
                rand_few("huge", "moved by more than 65536 lines", || huge_move(false), huge_moved, 64, 2_000),
                rand("far", "moved by up to thousands of lines", || far_case(old), merge, 1_500, 60_000),
                rand("big_hunks", "hunks of hundreds of lines", || big_core_case(old), merge, 400, 15_000),
                rand_few("many", "hundreds of hunks, nearly all of them as recorded", || many_case(old), merge, 48, 1_500),
            ],
        },
        Property {
            id: "T04",
            level: "exploration",
            rule: "as T03, plus outermost context lines replaced (one by one, or by more or fewer) or removed. Non-trivial: some hunk is not applied cleanly",
            assumptions: &["hunk content is unambiguous; the innermost line of the longer context survives"],
            subs: vec![
                rand("in_place", "altered contexts only", || merge_case(2, false, true, old, 0), merge, 40_000, 2_500_000),
                rand("moved", "altered contexts and edits elsewhere", || merge_case(2, true, true, old, 0), merge, 40_000, 2_500_000),
                rand("big_context", "contexts of up to 255 lines, hunks in any state", big_ctx_case, merge, 2_000, 80_000),
            ],
        },
        Property {
            id: "T05",
            level: "exploration",
            rule: "triples before/after/target (edited, partly patched, truncated, unrelated targets; small alphabets make ambiguous matches common); oracle: a search for any placement of the reported hunks that explains the output. Non-trivial: at least one hunk and a target that is neither side",
            assumptions: &["cases whose explanation search exceeds 200,000 steps count as explained"],
            subs: vec![
                rand("triples", "random triples", text_triple, t05, 60_000, 4_000_000),
                rand("mixed", "structured targets, hunks in any state", any_merge_triple, t05, 5_000, 300_000),
                rand("long", "targets of up to 300 lines with repeated ones", long_triple, t05, 250, 10_000),
                exh("all_small", "all triples over 2 lines up to length 3 (4 thorough), contexts 0-2, both directions", t05_exh, t05),
                exh("flawed", "hunks of every length up to 64 (520 thorough) and around powers of two up to 2^12, one line of the target slightly different", |t| flawed(if t { 520 } else { 64 }, 12), |c, o| t05(&c.text(), o)),
            ],
        },
        Property {
            id: "T06",
            level: "exploration",
            rule: "text pairs/triples asked directly and re-applied; structured targets where some hunks are already applied, with edits elsewhere and altered contexts. Non-trivial: at least one hunk",
            assumptions: &["hunks may be re-applied when what they remove is (still or again) present: only hunks that remove a line absent from the target are required to be recognised"],
            subs: vec![
                rand("query", "random triples", text_triple, t06_query, 40_000, 2_500_000),
                exh("flawed", "hunks of every length up to 64 (520 thorough) and around powers of two up to 2^12, one line of the target slightly different", |t| flawed(if t { 520 } else { 64 }, 12), |c, o| t06_query(&c.text(), o)),
                rand("reapplied", "all hunks already applied, edits elsewhere", || merge_case(0, true, false, new, 1), merge, 30_000, 2_000_000),
                rand_few("huge", "already applied and moved by more than 65536 lines", || huge_move(true), huge_moved, 64, 2_000),
                rand("far", "already applied and moved by up to thousands of lines", || far_case(new), merge, 1_000, 40_000),
                rand("big_hunks", "already applied hunks of hundreds of lines", || big_core_case(new), merge, 300, 12_000),
                rand_few("many", "hundreds of hunks, all or nearly all of them already applied", || many_case(nearly_all_new), merge, 96, 3_000),
                rand("partly", "some hunks already applied, edits elsewhere, altered contexts", || merge_case(0, true, true, old_or_new, 0), merge, 30_000, 2_000_000),
            ],
        },
        Property {
            id: "T07",
            level: "exploration",
            rule: "as T03/T04 with the changed place of some hunks overwritten; conflict blocks are located, checked and removed before comparing with the expected result. Non-trivial: some hunk is not applied cleanly",
            assumptions: &["hunk content is unambiguous"],
            subs: vec![
                rand("conflicts", "overwritten hunks", || merge_case(0, false, false, other, 0), merge, 30_000, 2_000_000),
                rand("mixed", "hunks in any state, edits elsewhere, altered contexts", || merge_case(0, true, true, any_state, 0), merge, 40_000, 2_500_000),
                rand("big_hunks", "hunks of hundreds of lines in any state", || big_core_case(any_state), merge, 300, 12_000),
                rand_few("many", "hundreds of hunks in any state", || many_case(any_state), merge, 96, 3_000),
                rand_few("many_failed", "hundreds of hunks, nearly all of them overwritten", || many_case(mostly_other), merge, 48, 1_500),
                rand("big_context", "contexts of up to 255 lines, hunks in any state", big_ctx_case, merge, 1_000, 40_000),
            ],
        },
        Property {
            id: "T08",
            level: "exploration",
            rule: "as T05 and T07, with what the library logs captured: one line per hunk, numbered from 1, telling its outcome and how far it moved. Non-trivial: some hunk is not applied cleanly",
            assumptions: &["outcomes are told apart by the level of a line and the word 'already'"],
            subs: vec![
                rand("mixed", "hunks in any state, edits elsewhere, altered contexts", || merge_case(0, true, true, any_state, 0), t08_merge, 30_000, 2_000_000),
                rand_few("many", "hundreds of hunks in any state", || many_case(any_state), t08_merge, 96, 3_000),
                rand_few("many_failed", "hundreds of hunks, nearly all of them overwritten", || many_case(mostly_other), t08_merge, 48, 1_500),
                rand("big_context", "contexts of up to 255 lines, hunks in any state", big_ctx_case, t08_merge, 1_000, 40_000),
                rand_few("many_bytes", "hundreds of hunks of a byte diff", super::bytes::many_triple, super::bytes::t08_bytes, 48, 1_500),
                rand("triples", "random triples", text_triple, t08, 30_000, 2_000_000),
                rand("bytes", "random byte triples", byte_triple, super::bytes::t08_bytes, 30_000, 2_000_000),
                rand("blended_bytes", "byte strings blended from both sides", super::bytes::grown_triple, super::bytes::t08_bytes, 15_000, 1_000_000),
            ],
        },
    ]
}
