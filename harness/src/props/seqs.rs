//! S01-S03: sequences, the consumable cursor and sequence queries.

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::Index;
use serde::{Deserialize, Serialize};

use crate::engine::*;
use crate::gen::*;
use crate::io::*;
use crate::model::*;
use crate::{ensure, ensure_eq, scratch};

use pw_diff_lib::byte_diff::PathAndBytes;
use pw_diff_lib::common_subsequence::CommonSubsequence;
use pw_diff_lib::range::{Len, Range};
use pw_diff_lib::sequence::*;
use pw_diff_lib::snippet::SnippetWrite;
use pw_diff_lib::text_diff::PathAndLines;

// ---------------------------------------------------------------- S01

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct ReadCase {
    /// the data is this, repeated
    pub unit: Vec<u8>,
    pub times: usize,
    pub script: Vec<Step>,
}

impl ReadCase {
    fn data(&self) -> Vec<u8> {
        self.unit.repeat(self.times)
    }
}

pub fn script(fail: bool) -> BoxedStrategy<Vec<Step>> {
    let step = if fail {
        prop_oneof![
            10 => (1usize..6).prop_map(Step::Chunk),
            3 => (1usize..3000).prop_map(Step::Chunk),
            2 => Just(Step::Interrupt),
            1 => Just(Step::Fail),
        ]
        .boxed()
    } else {
        prop_oneof![
            10 => (1usize..6).prop_map(Step::Chunk),
            3 => (1usize..3000).prop_map(Step::Chunk),
            2 => Just(Step::Interrupt),
        ]
        .boxed()
    };
    vec(step, 0..30).boxed()
}

fn some_text() -> BoxedStrategy<String> {
    prop_oneof![
        3 => text_pair_contents().prop_map(|(a, _)| a),
        2 => "([ab\u{e9}\u{65e5}\u{1f600}]|\n|\r|\r\n|\u{85}|\u{2028}|\u{b}|\u{c}|\u{0}){0,40}",
    ]
    .boxed()
}

fn some_bytes() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        3 => some_text().prop_map(|s| s.into_bytes()),
        // a text with one damaged byte: often invalid UTF-8, sometimes only at a line end
        2 => (some_text(), any::<Index>(), any::<u8>()).prop_map(|(s, i, b)| {
            let mut v = s.into_bytes();
            if !v.is_empty() {
                let i = i.index(v.len());
                v[i] = b;
            }
            v
        }),
        // a text cut anywhere, perhaps inside a character
        1 => (some_text(), any::<Index>()).prop_map(|(s, i)| {
            let mut v = s.into_bytes();
            let i = i.index(v.len() + 1);
            v.truncate(i);
            v
        }),
        1 => byte_pair_contents().prop_map(|(a, _)| a),
    ]
    .boxed()
}

fn read_case() -> BoxedStrategy<ReadCase> {
    (
        some_bytes(),
        prop_oneof![12 => Just(1usize), 1 => 1usize..600],
        prop_oneof![Just(true), Just(false)].prop_flat_map(script),
    )
        .prop_map(|(unit, times, script)| ReadCase { unit, times, script })
        .boxed()
}

fn s01_read(c: &ReadCase, o: &mut Obs) -> CheckResult {
    let data = c.data();
    let text = std::str::from_utf8(&data).ok();
    o.nontrivial = data.len() > 1 && !c.script.is_empty();
    o.label_if(text.is_none(), "invalid UTF-8");
    o.label_if(data.len() > 8192, "longer than 8 KiB");
    o.label_if(c.script.contains(&Step::Fail), "failing reader");

    let must = ScriptReader::must_fail(data.len(), &c.script, 3000);
    let mut r = ScriptReader::new(&data, &c.script);
    let got = Seq::<String>::read(&mut r);
    let met = r.failed();
    if let Some(text) = text {
        match &got {
            Ok(seq) => {
                ensure!(!met, "a read failure was swallowed");
                ensure!(must != Some(true), "the data was not read to its end");
                ensure_eq!(seq.to_vec(), split(text), "lines read");
                ensure_eq!(seq.concat(), text, "lines read, concatenated");
            }
            Err(e) => ensure!(met, "valid data from a good reader was refused: {e}"),
        }
    } else {
        ensure!(got.is_err(), "invalid UTF-8 was accepted as {:?}", got.map(|s| s.to_vec()));
    }

    let mut r = ScriptReader::new(&data, &c.script);
    let got = Seq::<u8>::read(&mut r);
    match got {
        Ok(seq) => {
            ensure!(!r.failed(), "a read failure was swallowed (bytes)");
            ensure!(seq.to_vec() == data, "bytes read differ from the data");
        }
        Err(e) => ensure!(r.failed(), "good data was refused (bytes): {e}"),
    }
    Ok(())
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct WriteCase {
    pub data: Vec<u8>,
    pub from: Index2,
    pub to: Index2,
    pub script: Vec<Step>,
}

/// A serialisable proportion, scaled to a size when used.
#[derive(Debug, Clone, Copy, Hash, Serialize, Deserialize, PartialEq)]
pub struct Index2(pub u32);

impl Index2 {
    pub fn of(self, size: usize) -> usize {
        ((self.0 as u64 * size as u64) >> 32) as usize
    }
}

pub fn index2() -> BoxedStrategy<Index2> {
    any::<u32>().prop_map(Index2).boxed()
}

fn s01_write(c: &WriteCase, o: &mut Obs) -> CheckResult {
    let bytes = Seq::<u8>::from(c.data.clone());
    ensure!(bytes.to_vec() == c.data, "Seq from a byte vector");
    ensure!(Seq::<u8>::from(&c.data[..]).to_vec() == c.data, "Seq from a byte slice");
    let (mut f, mut t) = (c.from.of(c.data.len() + 1), c.to.of(c.data.len() + 1));
    if f > t {
        std::mem::swap(&mut f, &mut t);
    }
    o.nontrivial = t > f;
    let mut w = ScriptWriter::new(&c.script, None, false);
    bytes.write_into(&mut w, Range(f, t)).map_err(|e| format!("write_into: {e}"))?;
    ensure!(w.out == c.data[f..t], "bytes written for {f}..{t}");
    let mut w = ScriptWriter::new(&c.script, None, false);
    bytes.write_into_all_from(&mut w, f).map_err(|e| format!("write_into_all_from: {e}"))?;
    ensure!(w.out == c.data[f..], "bytes written from {f}");

    let text = String::from_utf8_lossy(&c.data).to_string();
    let lines = split(&text);
    let seq = Seq::<String>::from(text.as_str());
    ensure_eq!(seq.to_vec(), lines, "lines of {text:?}");
    ensure!(Seq::<String>::from(text.clone()) == seq, "From<String> and From<&str> disagree");
    let (mut f, mut t) = (c.from.of(lines.len() + 1), c.to.of(lines.len() + 1));
    if f > t {
        std::mem::swap(&mut f, &mut t);
    }
    o.label_if(t > f && t - f < lines.len(), "proper sub-range of lines");
    let mut w = ScriptWriter::new(&c.script, None, false);
    seq.write_into(&mut w, Range(f, t)).map_err(|e| format!("write_into: {e}"))?;
    ensure!(w.out == lines[f..t].concat().as_bytes(), "lines written for {f}..{t}");
    let mut w = ScriptWriter::new(&c.script, None, false);
    seq.write_into_all_from(&mut w, f).map_err(|e| format!("write_into_all_from: {e}"))?;
    ensure!(w.out == lines[f..].concat().as_bytes(), "lines written from {f}");
    Ok(())
}

fn s01_files(c: &ReadCase, o: &mut Obs) -> CheckResult {
    let data = c.data();
    let p = scratch::dir().join("s01");
    std::fs::write(&p, &data).map_err(|e| e.to_string())?;
    let text = std::str::from_utf8(&data).ok();
    o.nontrivial = data.len() > 1;
    o.label_if(text.is_none(), "invalid UTF-8");
    o.label_if(data.len() > 8192, "longer than 8 KiB");
    match (PathAndLines::new(&p), text) {
        (Ok(pl), Some(t)) => {
            ensure_eq!(pl.path(), &*p, "recorded path");
            let v = serde_json::to_value(&pl).map_err(|e| e.to_string())?;
            let lines: Vec<String> = serde_json::from_value(v["lines"].clone()).map_err(|e| e.to_string())?;
            ensure_eq!(lines, split(t), "recorded lines");
            let mut w = ScriptWriter::new(&c.script, None, false);
            let r = pl.write_into(&mut w);
            ensure!(r.is_ok() == (w.failures == 0), "write_into result {r:?} with {} failures", w.failures);
            if w.failures == 0 {
                ensure!(w.out == data, "recorded lines written back");
            }
        }
        (Err(_), None) => {}
        (Ok(_), None) => return Err("invalid UTF-8 accepted as lines".into()),
        (Err(e), Some(_)) => return Err(format!("valid text refused: {e}")),
    }
    let pb = PathAndBytes::new(&p).map_err(|e| e.to_string())?;
    ensure_eq!(pb.path(), &*p, "recorded path (bytes)");
    let mut out = vec![];
    pb.write_into(&mut out).map_err(|e| e.to_string())?;
    ensure!(out == data, "recorded bytes written back");
    let missing = scratch::dir().join("s01-does-not-exist");
    ensure!(PathAndLines::new(&missing).is_err() && PathAndBytes::new(&missing).is_err(), "a missing file was read");
    Ok(())
}

fn s01_big(b: &Big, o: &mut Obs) -> CheckResult {
    let (x, y) = b.contents();
    let unit = x.or(y).unwrap_or_default();
    let script = match b.at % 3 {
        0 => vec![],
        1 => vec![Step::Chunk(1), Step::Interrupt, Step::Chunk(2999)],
        _ => vec![Step::Chunk(3)],
    };
    let c = ReadCase { unit, times: 1, script };
    s01_read(&c, o)?;
    s01_files(&ReadCase { script: vec![], ..c }, o)
}

// ---------------------------------------------------------------- S02

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub enum CurOp {
    Upto(Index2),
    /// copy up to a point at or before the current one
    UptoPassed(Index2),
    Skip(Index2),
    Remainder,
    Query(Index2, Index2, bool),
    /// continue on a clone, dropping the original
    Clone,
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct CursorCase {
    pub items: Vec<u8>,
    pub eol: bool,
    pub ops: Vec<CurOp>,
    pub script: Vec<Step>,
}

fn cursor_case() -> BoxedStrategy<CursorCase> {
    let op = prop_oneof![
        5 => index2().prop_map(CurOp::Upto),
        1 => index2().prop_map(CurOp::UptoPassed),
        4 => index2().prop_map(CurOp::Skip),
        1 => Just(CurOp::Remainder),
        1 => (index2(), index2(), any::<bool>()).prop_map(|(a, b, c)| CurOp::Query(a, b, c)),
        1 => Just(CurOp::Clone),
    ];
    (vec(0u8..26, 0..20), any::<bool>(), vec(op, 0..14), script(false))
        .prop_map(|(items, eol, ops, script)| CursorCase { items, eol, ops, script })
        .boxed()
}

/// Long sequences; the operations go to and around places worth it.
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct LongCursor {
    pub n: u32,
    pub eol: bool,
    pub ops: Vec<CurOp>,
    pub script: Vec<Step>,
}

fn long_cursor() -> BoxedStrategy<LongCursor> {
    sizes(16)
        .prop_flat_map(|n| {
            let exactly = move |k: u32| Index2((((k.min(n) as u64) << 32).div_ceil(n as u64 + 1)) as u32);
            let at = move || {
                prop_oneof![
                    2 => index2(),
                    2 => (0u32..3).prop_map(move |k| exactly(n.saturating_sub(k))),
                    1 => (0u32..3).prop_map(exactly),
                    2 => sizes(16).prop_map(exactly),
                ]
            };
            let op = prop_oneof![
                5 => at().prop_map(CurOp::Upto),
                1 => at().prop_map(CurOp::UptoPassed),
                3 => index2().prop_map(CurOp::Skip),
                1 => Just(CurOp::Remainder),
            ];
            (Just(n), any::<bool>(), vec(op, 0..6), script(false))
        })
        .prop_map(|(n, eol, mut ops, script)| {
            ops.push(CurOp::Remainder);
            LongCursor { n, eol, ops, script }
        })
        .boxed()
}

/// Copy, skip and copy again, so many items each, then the rest.
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct Strides {
    pub steps: [u32; 4],
}

fn s02_exh(thorough: bool) -> Box<dyn Iterator<Item = Strides>> {
    let n = move || lengths(if thorough { 1_100 } else { 300 }, 16);
    Box::new(n().flat_map(|n| [[n, 1, 1, 1], [1, n, 1, 1], [2, 1, n, 1], [1, 1, 0, n], [n, n, n, n]].map(|steps| Strides { steps })))
}

fn s02_strides(c: &Strides, o: &mut Obs) -> CheckResult {
    fn go<T: PartialEq + Clone>(seq: &Seq<T>, c: &Strides, bytes_of: impl Fn(&T) -> Vec<u8>) -> CheckResult
    where
        Seq<T>: WriteDataInto,
    {
        let [a, skip, b, _] = c.steps.map(|n| n as usize);
        let mut cur = ConsumableSeq::<T>::new(seq);
        let mut out = vec![];
        let e = |e: std::io::Error| e.to_string();
        cur.write_into_upto(&mut out, a).map_err(e)?;
        ensure_eq!(cur.consumed(), a, "consumed after the first copy");
        cur.advance_consumed_by(skip);
        ensure_eq!(cur.consumed(), a + skip, "consumed after skipping");
        cur.write_into_upto(&mut out, a + skip + b).map_err(e)?;
        ensure_eq!(cur.consumed(), a + skip + b, "consumed after the second copy");
        cur.write_remainder(&mut out).map_err(e)?;
        ensure_eq!(cur.consumed(), seq.len(), "consumed at the end");
        let want: Vec<u8> = seq[..a].iter().chain(&seq[a + skip..]).flat_map(bytes_of).collect();
        ensure!(out == want, "{} bytes written instead of {}, or others", out.len(), want.len());
        Ok(())
    }
    o.nontrivial = true;
    let n: u32 = c.steps.iter().sum();
    let bytes: Vec<u8> = (0..n).map(|i| (i.wrapping_mul(0x9E37_79B1) >> 24) as u8).collect();
    go(&Seq::<u8>::from(bytes), c, |b| vec![*b]).map_err(|m| format!("bytes: {m}"))?;
    let text: String = (0..n).map(|i| format!("{:x}\n", i.wrapping_mul(0x9E37_79B1) >> 20)).collect();
    go(&Seq::<String>::from(text), c, |l| l.clone().into_bytes()).map_err(|m| format!("lines: {m}"))
}

fn s02_long(c: &LongCursor, o: &mut Obs) -> CheckResult {
    let items = (0..c.n).map(|i| (i.wrapping_mul(0x9E37_79B1) >> 24) as u8 % 26).collect();
    s02(&CursorCase { items, eol: c.eol, ops: c.ops.clone(), script: c.script.clone() }, o)
}

fn cursor<T: PartialEq + Clone + std::fmt::Debug>(
    seq: &Seq<T>,
    c: &CursorCase,
    bytes_of: impl Fn(&T) -> Vec<u8>,
    o: &mut Obs,
) -> CheckResult
where
    Seq<T>: WriteDataInto,
{
    let items = seq.to_vec();
    let len = items.len();
    let mut cur = ConsumableSeq::<T>::new(seq);
    let mut at = 0; // model
    let mut want: Vec<u8> = vec![];
    let mut w = ScriptWriter::new(&c.script, None, false);
    let (mut skipped, mut copied) = (0, 0);
    for (n, op) in c.ops.iter().enumerate() {
        match op {
            CurOp::Upto(i) => {
                let upto = i.of(len + 1);
                cur.write_into_upto(&mut w, upto).map_err(|e| e.to_string())?;
                if upto > at {
                    items[at..upto].iter().for_each(|x| want.extend(bytes_of(x)));
                    copied += upto - at;
                    at = upto;
                }
            }
            CurOp::UptoPassed(i) => {
                let upto = i.of(at + 1);
                cur.write_into_upto(&mut w, upto).map_err(|e| e.to_string())?;
            }
            CurOp::Skip(i) => {
                let k = i.of((len - at).min(4) + 1);
                cur.advance_consumed_by(k);
                at += k;
                skipped += k;
            }
            CurOp::Remainder => {
                cur.write_remainder(&mut w).map_err(|e| e.to_string())?;
                items[at..].iter().for_each(|x| want.extend(bytes_of(x)));
                copied += len - at;
                at = len;
            }
            CurOp::Query(i, j, damage) => {
                let a = i.of(len + 2);
                let b = (a + j.of(4)).min(len);
                let mut sub: Vec<T> = if a <= b { items[a..b].to_vec() } else { vec![] };
                if *damage && !sub.is_empty() && !items.is_empty() {
                    let k = sub.len() - 1;
                    sub[k] = items[0].clone();
                }
                let expect = a <= len && a + sub.len() <= len && items[a..a + sub.len()] == sub[..];
                ensure_eq!(cur.has_subsequence_at(&sub, a), expect, "step {n}: subsequence {sub:?} at {a}");
                let rf = cur.range_from(a.min(len));
                ensure_eq!((rf.0, rf.1), (a.min(len), len), "step {n}: range_from");
                ensure!(cur.data() == seq, "step {n}: data() is not the sequence");
            }
            CurOp::Clone => {
                let d = cur.clone();
                let mut other = vec![];
                cur.write_remainder(&mut other).map_err(|e| e.to_string())?;
                cur = d;
            }
        }
        ensure_eq!(cur.consumed(), at, "step {n} ({op:?}): consumed");
        ensure_eq!(
            String::from_utf8_lossy(&w.out),
            String::from_utf8_lossy(&want),
            "step {n} ({op:?}): output"
        );
    }
    o.nontrivial |= skipped > 0 && copied > 0;
    Ok(())
}

fn s02(c: &CursorCase, o: &mut Obs) -> CheckResult {
    cursor(&Seq::<u8>::from(c.items.clone()), c, |b| vec![*b], o)?;
    let t = letters(&c.items, c.eol);
    cursor(&Seq::<String>::from(t), c, |s| s.clone().into_bytes(), o)
}

// ---------------------------------------------------------------- S03

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct QueryCase {
    pub items: Vec<u8>,
    pub eol: bool,
    pub probe: Vec<u8>,
    pub red: (u8, u8),
    pub offset: i8,
    pub size: u8,
}

fn query_case() -> BoxedStrategy<QueryCase> {
    (
        (1u8..=6).prop_flat_map(|a| (vec(0..a, 0..14), vec(0..a + 1, 0..4))),
        any::<bool>(),
        (0u8..4, 0u8..4),
        any::<i8>(),
        prop_oneof![0u8..8, any::<u8>()],
    )
        .prop_map(|((items, probe), eol, red, offset, size)| QueryCase {
            items,
            eol,
            probe,
            red,
            offset,
            size,
        })
        .boxed()
}

fn queries<T, I>(seq: &Seq<T>, probe: &[T], alphabet: &[T], c: &QueryCase, o: &mut Obs) -> CheckResult
where
    T: PartialEq + Clone + std::fmt::Debug,
    I: ContentItemIndices<T>,
{
    let items = seq.to_vec();
    let len = items.len();
    // index
    let idx = I::generate_from(seq);
    for item in alphabet {
        let want: Vec<usize> = (0..len).filter(|i| items[*i] == *item).collect();
        let got = idx.indices(item).cloned().unwrap_or_default();
        ensure_eq!(got, want, "positions of {item:?}");
    }
    // subsequence queries, everywhere
    for at in (0..=len + 3).chain([usize::MAX, usize::MAX / 2]) {
        let want = at <= len && probe.len() <= len - at && items[at..at + probe.len()] == *probe;
        ensure_eq!(seq.has_subsequence_at(probe, at), want, "{probe:?} at {at} of {len}");
        ensure_eq!(seq.has_subsequence_at(&[], at), at <= len, "nothing at {at} of {len}");
        o.nontrivial |= want && !probe.is_empty();
        if at <= len {
            ensure!(seq.has_subsequence_at(&items[at..], at), "own tail at {at} of {len}");
            if at > 0 {
                ensure!(
                    !seq.has_subsequence_at(&items, at),
                    "the whole sequence reported at {at}"
                );
            }
            ensure_eq!(
                (seq.range_from(at).0, seq.range_from(at).1),
                (at, len),
                "range_from"
            );
        }
    }
    // ranges and snippets
    for f in 0..=len {
        for t in f..=len {
            let r = Range(f, t);
            ensure_eq!((r.start(), r.end(), r.len(), r.is_empty()), (f, t, t - f, t == f), "range");
            ensure!(r.is_valid() && r.is_valid_for_max_end(len), "valid range refused");
            ensure_eq!(r.is_valid_for_max_end(t.wrapping_sub(1)), t == 0, "range too long for its limit");
            let got: Vec<T> = seq.subsequence(r).cloned().collect();
            ensure_eq!(got, items[f..t].to_vec(), "subsequence {f}..{t}");
            let mut rev: Vec<T> = seq.subsequence(r).rev().cloned().collect();
            rev.reverse();
            ensure_eq!(rev, items[f..t].to_vec(), "reversed subsequence {f}..{t}");
            let s = seq.extract_snippet(r);
            ensure_eq!(s.start, f, "snippet start");
            ensure_eq!(s.items.to_vec(), items[f..t].to_vec(), "snippet items");
            ensure_eq!(s.len(), t - f, "snippet length");
            let all: Vec<T> = s.items(None).cloned().collect();
            ensure_eq!(all, items[f..t].to_vec(), "snippet items()");
            ensure_eq!((s.range(None).0, s.range(None).1), (0, t - f), "snippet range");
            ensure_eq!(s.adj_length(None), t - f, "snippet adj_length");
            let (a, b) = (c.red.0 as usize, c.red.1 as usize);
            if a + b <= t - f {
                let red = Some(c.red);
                ensure_eq!((s.range(red).0, s.range(red).1), (a, t - f - b), "reduced snippet range");
                ensure_eq!(s.adj_length(red), t - f - a - b, "reduced snippet length");
                let part: Vec<T> = s.items(Some(s.range(red))).cloned().collect();
                ensure_eq!(part, items[f + a..t - b].to_vec(), "reduced snippet items");
            }
            let off = c.offset as isize;
            if f as isize + off >= 0 {
                ensure_eq!(s.adj_start(off, None), (f as isize + off) as usize, "adjusted start");
                ensure_eq!(s.adj_start(off, Some(c.red)), (f as isize + off) as usize + a, "adjusted reduced start");
            }
        }
        ensure!(f == 0 || !Range(f, f - 1).is_valid(), "an inverted range is not valid");
    }
    Ok(())
}

fn s03(c: &QueryCase, o: &mut Obs) -> CheckResult {
    // bytes over both ends of the value range
    let m = |v: &[u8]| -> Vec<u8> { v.iter().map(|b| [0u8, 255, 1, 128, 127, 10, 254][*b as usize % 7]).collect() };
    let all: Vec<u8> = (0..=255).collect();
    let bytes = Seq::<u8>::from(m(&c.items));
    let probe = m(&c.probe);
    queries::<u8, ByteItemIndices>(&bytes, &probe, &all, c, o)?;
    let snip = bytes.extract_snippet(Range(0, bytes.len()));
    let mut w = vec![];
    snip.write_into(&mut w, None).map_err(|e| e.to_string())?;
    ensure!(w == bytes.to_vec(), "byte snippet written");
    let (a, b) = (c.red.0 as usize, c.red.1 as usize);
    if a + b <= bytes.len() {
        let mut w = vec![];
        snip.write_into(&mut w, Some(c.red)).map_err(|e| e.to_string())?;
        ensure!(w == bytes[a..bytes.len() - b], "reduced byte snippet written");
    }

    let t = letters(&c.items, c.eol);
    let lines = Seq::<String>::from(t.clone());
    let mut probe = split(&letters(&c.probe, true));
    if !c.eol {
        if let Some(l) = probe.last_mut() {
            l.pop(); // may match the last line
        }
    }
    let mut alphabet: Vec<String> = split(&letters(&[0, 1, 2, 3, 4, 5, 6], true));
    alphabet.extend(split(&t));
    alphabet.extend(["a".to_string(), "".to_string(), "\n".to_string()]);
    // look-alikes
    for l in split(&t) {
        alphabet.extend([l.trim_end().to_string(), format!("{} ", l.trim_end()), format!("{l} "), format!(" {l}"), l.to_uppercase(), l.replace('\n', "\r\n")]);
    }
    queries::<String, StringItemIndices>(&lines, &probe, &alphabet, c, o)?;
    let snip = lines.extract_snippet(Range(0, lines.len()));
    let mut w = vec![];
    snip.write_into(&mut w, None).map_err(|e| e.to_string())?;
    ensure!(w == t.as_bytes(), "text snippet written");
    if a + b <= lines.len() {
        let mut w = vec![];
        snip.write_into(&mut w, Some(c.red)).map_err(|e| e.to_string())?;
        ensure!(w == lines[a..lines.len() - b].concat().as_bytes(), "reduced text snippet written");
    }
    o.label_if(!o.nontrivial, "probe absent");
    Ok(())
}

/// A few lines that look alike.
fn s03_alike(v: &Vec<u8>, o: &mut Obs) -> CheckResult {
    const L: [&str; 12] = ["b\n", "b \n", "b", "b ", "B\n", " b\n", "b\r\n", "\n", " \n", "b\t\n", "b\u{a0}", "b\u{200b}\n"];
    let items: Vec<String> = v.iter().map(|i| L[*i as usize % 12].to_string()).collect();
    let seq = Seq::<String>(items.clone().into_boxed_slice());
    let idx = StringItemIndices::generate_from(&seq);
    o.nontrivial = items.len() > 1;
    for l in L {
        let want: Vec<usize> = (0..items.len()).filter(|i| items[*i] == l).collect();
        let got = idx.indices(&l.to_string()).cloned().unwrap_or_default();
        ensure_eq!(got, want, "positions of {l:?} in {items:?}");
        for at in 0..=items.len() {
            let want = items.get(at).map_or(false, |x| x == l);
            ensure_eq!(seq.has_subsequence_at(&[l.to_string()], at), want, "{l:?} at {at} of {items:?}");
        }
    }
    Ok(())
}

/// Long sequences with one item altered somewhere.
#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct LongQuery {
    pub len: u16,
    pub alphabet: u8,
    pub seed: u64,
    pub from: Index2,
    pub to: Index2,
    pub alter: Option<Index2>,
    pub at: i8,
}

fn long_query() -> BoxedStrategy<LongQuery> {
    (
        prop_oneof![200u16..1200, 4000u16..9000, Just(256u16), Just(4097u16)],
        prop_oneof![1u8..4, any::<u8>()],
        any::<u64>(),
        prop_oneof![1 => Just(Index2(0)), 2 => index2()],
        prop_oneof![1 => Just(Index2(u32::MAX)), 2 => index2()],
        proptest::option::of(prop_oneof![1 => Just(Index2(0)), 1 => Just(Index2(u32::MAX)), 2 => index2()]),
        prop_oneof![4 => Just(0i8), 1 => -3i8..=3],
    )
        .prop_map(|(len, alphabet, seed, from, to, alter, at)| LongQuery { len, alphabet, seed, from, to, alter, at })
        .boxed()
}

fn long_queries<T, I>(items: Vec<T>, fresh: T, c: &LongQuery, o: &mut Obs) -> CheckResult
where
    T: PartialEq + Clone + std::fmt::Debug,
    I: ContentItemIndices<T>,
{
    let len = items.len();
    let seq = Seq::<T>(items.clone().into_boxed_slice());
    let (f, t) = (c.from.of(len + 1), c.to.of(len + 1));
    let (f, t) = (f.min(t), f.max(t));
    let mut probe = items[f..t].to_vec();
    if let (Some(i), false) = (&c.alter, probe.is_empty()) {
        let k = i.of(probe.len());
        probe[k] = fresh.clone();
        o.label("altered");
    }
    let at = (f as i64 + c.at as i64).max(0) as usize;
    let want = at + probe.len() <= len && items[at..at + probe.len()] == probe[..];
    o.nontrivial = probe.len() > 100;
    o.label_if(want, "present");
    ensure_eq!(seq.has_subsequence_at(&probe, at), want, "{} items from {f} at {at} of {len}", probe.len());
    let idx = I::generate_from(&seq);
    for k in [0, len / 2, len - 1] {
        let want: Vec<usize> = (0..len).filter(|i| items[*i] == items[k]).collect();
        ensure!(idx.indices(&items[k]).cloned().unwrap_or_default() == want, "positions of item {k} {:?}", items[k]);
    }
    let want: Vec<usize> = (0..len).filter(|i| items[*i] == fresh).collect();
    ensure!(idx.indices(&fresh).cloned().unwrap_or_default() == want, "positions of {fresh:?}");
    let got: Vec<T> = seq.subsequence(Range(f, t)).cloned().collect();
    ensure!(got == items[f..t], "long subsequence {f}..{t}");
    let s = seq.extract_snippet(Range(f, t));
    ensure!(s.start == f && *s.items == items[f..t], "long snippet {f}..{t}");
    Ok(())
}

fn s03_long(c: &LongQuery, o: &mut Obs) -> CheckResult {
    let mut x = c.seed | 1;
    let v: Vec<u8> = (0..c.len)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x % (c.alphabet as u64).max(1)) as u8
        })
        .collect();
    long_queries::<u8, ByteItemIndices>(v.clone(), 255, c, o)?;
    let lines: Vec<String> = v.iter().map(|b| format!("line {b}\n")).collect();
    long_queries::<String, StringItemIndices>(lines, "fresh\n".to_string(), c, o)
}

/// A sequence and a part of it, as it is and with one item altered.
fn s03_flawed(c: &Flawed, o: &mut Obs) -> CheckResult {
    o.nontrivial = true;
    let t = c.bytes();
    let (n, at) = (c.n as usize, 3 + c.at as usize);
    let right = if c.adds { &t.after } else { &t.before };
    let seq = Seq::<u8>::from(right.clone());
    let (i, j) = if c.reverse { (3, 3 + n) } else { (0, right.len()) };
    ensure!(seq.has_subsequence_at(&right[i..j], i), "{} bytes at {i} are not found", j - i);
    ensure!(!seq.has_subsequence_at(&t.target[i..j], i), "{} bytes at {i} are found though one, at {at}, is another", j - i);
    let t = c.text();
    let lines = |s: &str| s.split_inclusive('\n').map(|l| l.to_string()).collect::<Vec<_>>();
    let (right, wrong) = (lines(if c.adds { &t.after } else { &t.before }), lines(&t.target));
    let seq = Seq::<String>::from(right.concat());
    ensure!(seq.has_subsequence_at(&right[i..j], i), "{} lines at {i} are not found", j - i);
    ensure!(!seq.has_subsequence_at(&wrong[i..j], i), "{} lines at {i} are found though one, at {at}, is another", j - i);
    Ok(())
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct TrimCase {
    pub b: usize,
    pub a: usize,
    pub n: usize,
    pub size: u8,
    pub grow: usize,
}

fn s03_trim(c: &TrimCase, o: &mut Obs) -> CheckResult {
    let cs = CommonSubsequence(c.b, c.a, c.n);
    o.nontrivial = c.n > 0;
    let k = c.n.min(c.size as usize);
    ensure_eq!((cs.before_start(), cs.before_end()), (c.b, c.b + c.n), "before bounds");
    ensure_eq!((cs.after_start(), cs.after_end()), (c.a, c.a + c.n), "after bounds");
    ensure_eq!((cs.before_range().0, cs.before_range().1), (c.b, c.b + c.n), "before range");
    ensure_eq!((cs.after_range().0, cs.after_range().1), (c.a, c.a + c.n), "after range");
    ensure_eq!((cs.len(), cs.is_empty()), (c.n, c.n == 0), "length");
    let head = CommonSubsequence(c.b, c.a, k);
    let tail = CommonSubsequence(c.b + c.n - k, c.a + c.n - k, k);
    ensure_eq!(cs.ends_trimmed(c.size), head, "first {} of {}", c.size, c.n);
    ensure_eq!(cs.starts_trimmed(c.size), tail, "last {} of {}", c.size, c.n);
    let want = (c.n >= 2 * c.size as usize).then_some((head, tail));
    ensure_eq!(cs.split(c.size), want, "split {} by {}", c.n, c.size);
    let mut x = cs;
    x.incr_size_moving_ends(c.grow);
    ensure_eq!(x, CommonSubsequence(c.b, c.a, c.n + c.grow), "grown at the end");
    let g = c.grow.min(c.b).min(c.a);
    let mut x = cs;
    x.incr_size_moving_starts(g);
    ensure_eq!(x, CommonSubsequence(c.b - g, c.a - g, c.n + g), "grown at the start");
    Ok(())
}

fn trims() -> Box<dyn Iterator<Item = TrimCase>> {
    let lens: Vec<usize> = (0..=12).chain([126, 127, 128, 253, 254, 255, 256, 257, 508, 509, 510, 511, 512, 513, 1000]).collect();
    Box::new((0u8..=255).flat_map(move |size| {
        lens.clone().into_iter().map(move |n| TrimCase {
            b: (n * 7 + size as usize) % 11,
            a: (n * 3 + size as usize) % 5,
            n,
            size,
            grow: (n + size as usize) % 6,
        })
    }))
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "S01",
            level: "exploration",
            rule: "texts (line ends of all kinds, controls, multi-byte characters, damaged or cut UTF-8, up to megabytes) read through readers with scripted short reads, interruptions and failures, and from files; written through short-writing destinations. Oracle: reference splitter / the data itself. Non-trivial: more than one byte and a non-empty script",
            assumptions: &[],
            subs: vec![
                rand("read", "scripted readers", read_case, s01_read, 40_000, 2_000_000),
                rand("write", "ranges written through scripted writers", || {
                    (some_bytes(), index2(), index2(), script(false)).prop_map(|(data, from, to, script)| WriteCase { data, from, to, script }).boxed()
                }, s01_write, 30_000, 1_500_000),
                rand("files", "contents taken from files", read_case, s01_files, 3_000, 100_000),
                rand_few("big", "sizes around powers of two up to 2^24, read and taken from files", || big(24, 20, false), s01_big, 160, 2_000),
            ],
        },
        Property {
            id: "S02",
            level: "exploration",
            rule: "random histories of cursor operations on text and byte sequences against a list-and-position model, checked after every step. Non-trivial: some items were copied and some skipped",
            assumptions: &[],
            subs: vec![
                rand("histories", "up to 14 operations", cursor_case, s02, 60_000, 3_000_000),
                rand_few("long", "sequences of up to 65536 items", long_cursor, s02_long, 200, 8_000),
                exh("strides", "copies and skips of every length up to 300 (1100 thorough) and around powers of two up to 2^16", s02_exh, s02_strides),
            ],
        },
        Property {
            id: "S03",
            level: "exploration",
            rule: "small sequences with repeats, a probe, every position and every range of it, against direct scans; trimming and splitting for every size 0-255. Non-trivial: the probe occurs somewhere / the run is not empty",
            assumptions: &[],
            subs: vec![
                rand("queries", "random sequences and probes", query_case, s03, 8_000, 400_000),
                rand("look_alikes", "lines that differ in blanks, case or line ends only", || vec(0u8..12, 0..8).boxed(), s03_alike, 10_000, 400_000),
                rand("long", "sequences of up to 9000 items, long probes with at most one altered item", long_query, s03_long, 300, 12_000),
                exh("flawed", "probes of every length up to 64 (520 thorough) and around powers of two up to 2^16, as they are and with one item altered", |t| flawed(if t { 520 } else { 64 }, 16), s03_flawed),
                exh("trim_split", "all sizes 0-255 and lengths around every boundary", |_| trims(), s03_trim),
            ],
        },
    ]
}
