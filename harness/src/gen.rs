//! Generators shared by the properties.

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::Index;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Hash, Serialize, Deserialize, PartialEq)]
pub struct TextPair {
    pub before: String,
    pub after: String,
    pub ctx: u8,
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize, PartialEq)]
pub struct BytePair {
    pub before: Vec<u8>,
    pub after: Vec<u8>,
    pub ctx: u8,
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize, PartialEq)]
pub struct TextTriple {
    pub before: String,
    pub after: String,
    pub target: String,
    pub ctx: u8,
    pub reverse: bool,
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize, PartialEq)]
pub struct ByteTriple {
    pub before: Vec<u8>,
    pub after: Vec<u8>,
    pub target: Vec<u8>,
    pub ctx: u8,
    pub reverse: bool,
}

/// One abstract edit of a sequence.
#[derive(Debug, Clone)]
pub struct Op<T> {
    pub kind: u8,
    pub pos: Index,
    pub pos2: Index,
    pub n: usize,
    pub toks: Vec<T>,
}

pub fn op<T: std::fmt::Debug + Clone + 'static>(tok: BoxedStrategy<T>) -> BoxedStrategy<Op<T>> {
    (
        0u8..8,
        any::<Index>(),
        any::<Index>(),
        prop_oneof![4 => 1usize..=4, 1 => 1usize..=12],
        vec(tok, 0..5),
    )
        .prop_map(|(kind, pos, pos2, n, toks)| Op {
            kind,
            pos,
            pos2,
            n,
            toks,
        })
        .boxed()
}

pub fn apply_ops<T: Clone>(base: &[T], ops: &[Op<T>]) -> Vec<T> {
    let mut v = base.to_vec();
    for o in ops {
        let len = v.len();
        let p = o.pos.index(len + 1);
        let end = (p + o.n).min(len);
        match o.kind {
            // insert
            0 | 1 => {
                v.splice(p..p, o.toks.iter().cloned());
            }
            // delete
            2 => {
                v.drain(p..end);
            }
            // replace by something of any length
            3 => {
                v.splice(p..end, o.toks.iter().cloned());
            }
            // replace one item by one item
            4 | 5 => {
                if p < len {
                    if let Some(t) = o.toks.first() {
                        v[p] = t.clone();
                    }
                }
            }
            // duplicate a block somewhere
            6 => {
                let block: Vec<T> = v[p..end].to_vec();
                let q = o.pos2.index(v.len() + 1);
                v.splice(q..q, block);
            }
            // move a block
            _ => {
                let block: Vec<T> = v.drain(p..end).collect();
                let q = o.pos2.index(v.len() + 1);
                v.splice(q..q, block);
            }
        }
    }
    v
}

pub fn edited<T: std::fmt::Debug + Clone + 'static>(
    tok: BoxedStrategy<T>,
    len: std::ops::Range<usize>,
    nops: std::ops::Range<usize>,
) -> BoxedStrategy<(Vec<T>, Vec<T>)> {
    (vec(tok.clone(), len), vec(op(tok), nops))
        .prop_map(|(base, ops)| {
            let after = apply_ops(&base, &ops);
            (base, after)
        })
        .boxed()
}

/// Unique items: a sequence 0..n, edited, inserted items being fresh numbers.
pub fn edited_unique(
    len: std::ops::Range<usize>,
    nops: std::ops::Range<usize>,
) -> BoxedStrategy<(Vec<u32>, Vec<u32>)> {
    (len, vec(op(Just(0u32).boxed()), nops))
        .prop_map(|(n, mut ops)| {
            let base: Vec<u32> = (0..n as u32).collect();
            for (i, o) in ops.iter_mut().enumerate() {
                for (k, t) in o.toks.iter_mut().enumerate() {
                    *t = 1_000_000 + (i * 10 + k) as u32;
                }
                if o.kind == 6 {
                    o.kind = 2; // no duplicates
                }
            }
            let after = apply_ops(&base, &ops);
            (base, after)
        })
        .boxed()
}

pub const PALETTE: &[&str] = &[
    "a", "b", "c", "d", "e", "f", "", " ", "a ", " a", "a\r", "\r", "\t", "é", "日本語", "-a", "+a", "--", "++",
    "\\", "\\ No newline at end of file", "@@ -1 +1 @@", "@@ -1,2 +1,2 @@", "--- a", "+++ b",
    "<<<<<<<", "=======", ">>>>>>>", "\"", "\u{2028}", "\u{0}", "\u{85}", "\u{b}", "\u{c}", "\u{feff}a", "A", "aa",
];

pub fn join(lines: &[impl AsRef<str>], eol: bool) -> String {
    let mut s = String::new();
    for (i, l) in lines.iter().enumerate() {
        s.push_str(l.as_ref());
        if eol || i + 1 < lines.len() {
            s.push('\n');
        }
    }
    s
}

pub fn letters(v: &[u8], eol: bool) -> String {
    let l: Vec<String> = v
        .iter()
        .map(|b| {
            if *b < 26 {
                ((b'a' + b) as char).to_string()
            } else {
                format!("t{b}")
            }
        })
        .collect();
    join(&l, eol)
}

pub fn numbers(v: &[u32], eol: bool) -> String {
    let l: Vec<String> = v
        .iter()
        .map(|b| {
            if *b >= 1_000_000 {
                format!("new {}", b - 1_000_000)
            } else {
                format!("line {b}")
            }
        })
        .collect();
    join(&l, eol)
}

pub fn palette(v: &[usize], eol: bool) -> String {
    let l: Vec<&str> = v.iter().map(|i| PALETTE[*i]).collect();
    join(&l, eol)
}

pub fn ctx() -> BoxedStrategy<u8> {
    prop_oneof![6 => 0u8..=4, 2 => 0u8..=12, 1 => any::<u8>()].boxed()
}

pub fn eol() -> BoxedStrategy<bool> {
    prop::bool::weighted(0.75).boxed()
}

/// Small token alphabets make repeated lines and ambiguous matches common.
pub fn small_pair(len: usize) -> BoxedStrategy<(Vec<u8>, Vec<u8>)> {
    (1u8..=4)
        .prop_flat_map(move |a| (vec(0..a, 0..=len), vec(0..a, 0..=len)))
        .boxed()
}

pub fn small_edited(len: usize, nops: usize) -> BoxedStrategy<(Vec<u8>, Vec<u8>)> {
    (2u8..=8)
        .prop_flat_map(move |a| edited((0..a).boxed(), 0..len + 1, 0..nops + 1))
        .boxed()
}

/// How lines look: which kind of likeness they have, and how much of it.
#[derive(Debug, Clone, Copy, Hash, Serialize, Deserialize, PartialEq)]
pub struct Look {
    pub kind: u8,
    pub size: u32,
}

pub fn look() -> BoxedStrategy<Look> {
    let size = prop_oneof![
        8 => 0u32..80,
        4 => 240u32..300,
        3 => 500u32..600,
        3 => 1_000u32..1_100,
        1 => 4_000u32..4_200,
    ];
    (0u8..20, size).prop_map(|(kind, size)| Look { kind, size }).boxed()
}

/// `look`, once in a while.
pub fn some_look(often: f64) -> BoxedStrategy<Option<Look>> {
    prop::option::weighted(often, look()).boxed()
}

/// The number in two symbols, told apart uniquely.
fn bits(n: usize, zero: &str, one: &str) -> String {
    let len = if n < 256 { 8 } else { 20 };
    (0..len).map(|i| if n >> i & 1 == 1 { one } else { zero }).collect()
}

/// The `n`th permutation of a few characters.
fn permuted(mut n: usize) -> String {
    let mut left: Vec<char> = "abcdefghij".chars().collect();
    let mut s = String::new();
    for k in (1..=left.len()).rev() {
        s.push(left.remove(n % k));
        n /= k;
    }
    s
}

impl Look {
    /// The `n`th line with this look; no two are the same, none is empty.
    pub fn line(&self, n: usize) -> String {
        let size = self.size as usize;
        let long = |c: &str| c.repeat(size);
        match self.kind {
            // long lines that differ at the end, at the beginning, in the middle, or in order only
            0 | 1 => format!("{}{n}", long("x")),
            2 => format!("{n}{}", long("x")),
            3 => format!("{}{n} {}", long("x"), long("y")),
            4 => format!("{}{}", long("0"), permuted(n)),
            5 => format!("{}{}", permuted(n), long("0")),
            6 => format!("{}{}", &long("0123456789")[..size], permuted(n)),
            // by length only
            7 if n < 400 => "x".repeat(size + n + 1),
            8 if n < 400 => format!("{}{}", " ".repeat(n), "x".repeat(size + 1)),
            9 if n < 400 => format!("x{}", " ".repeat(n)),
            // by case
            10 => bits(n, "a", "A"),
            11 => bits(n, "\u{e9}", "\u{c9}"),
            // by the spelling of the same characters
            12 => bits(n, "\u{e9}", "e\u{301}"),
            13 => bits(n, "a", "\u{ff41}"),
            14 => bits(n, "a", "\u{430}"),
            // by invisible characters
            15 => bits(n, "a", "a\u{200b}"),
            16 => bits(n, " ", "\u{a0}"),
            17 => bits(n, " ", "\t"),
            18 => format!("x{}", bits(n, " ", "\r")),
            // by characters that sum up to the same
            19 => bits(n, "ad", "bc"),
            _ => format!("0{}", bits(n, "0", "1")),
        }
    }
}

/// Gives lines another look, the same to the same line.
pub struct Looks {
    look: Look,
    seen: std::collections::HashMap<String, usize>,
}

impl Looks {
    pub fn new(look: Look) -> Self {
        Looks { look, seen: Default::default() }
    }
    pub fn line(&mut self, l: &str) -> String {
        let (body, eol) = match l.strip_suffix('\n') {
            Some(b) => (b, "\n"),
            None => (l, ""),
        };
        let n = self.seen.len();
        let n = *self.seen.entry(body.to_string()).or_insert(n);
        self.look.line(n) + eol
    }
    pub fn text(&mut self, t: &str) -> String {
        t.split_inclusive('\n').map(|l| self.line(l)).collect()
    }
}

/// Whether few enough pairs of bytes are equal for comparing the two byte by byte.
pub fn few_pairs(x: &[u8], y: &[u8]) -> bool {
    let count = |x: &[u8]| {
        let mut n = [0u64; 256];
        x.iter().for_each(|b| n[*b as usize] += 1);
        n
    };
    count(x).iter().zip(count(y)).map(|(x, y)| x * y).sum::<u64>() < 1_000_000
}

pub fn text_pair_contents() -> BoxedStrategy<(String, String)> {
    (plain_pair_contents(), some_look(0.12))
        .prop_map(|((b, a), look)| match look.map(Looks::new) {
            Some(mut l) => (l.text(&b), l.text(&a)),
            None => (b, a),
        })
        .boxed()
}

/// Without long lines: comparing those as bytes would take minutes.
pub fn plain_pair_contents() -> BoxedStrategy<(String, String)> {
    prop_oneof![
        4 => (small_pair(10), eol(), eol()).prop_map(|((b, a), x, y)| (letters(&b, x), letters(&a, y))),
        4 => (small_edited(30, 5), eol(), eol()).prop_map(|((b, a), x, y)| (letters(&b, x), letters(&a, y))),
        5 => (edited_unique(0..60, 0..7), eol(), eol()).prop_map(|((b, a), x, y)| (numbers(&b, x), numbers(&a, y))),
        3 => (edited((0..PALETTE.len()).boxed(), 0..14, 0..5), eol(), eol())
            .prop_map(|((b, a), x, y)| (palette(&b, x), palette(&a, y))),
        1 => (edited("[^\n]{0,5}".boxed(), 0..10, 0..4), eol(), eol())
            .prop_map(|((b, a), x, y)| (join(&b, x), join(&a, y))),
        1 => ("\\PC{0,20}|[ab\n\r]{0,30}", "\\PC{0,20}|[ab\n\r]{0,30}"),
    ]
    .boxed()
}

/// Long texts: hundreds of lines, long unchanged runs, large contexts.
pub fn long_pair_contents() -> BoxedStrategy<(String, String)> {
    prop_oneof![
        (edited_unique(200..900, 1..8), eol(), eol())
            .prop_map(|((b, a), x, y)| (numbers(&b, x), numbers(&a, y))),
        (edited((0u8..=250).boxed(), 100..600, 1..8), eol(), eol())
            .prop_map(|((b, a), x, y)| (letters(&b, x), letters(&a, y))),
        frequent_pair_contents(),
    ]
    .boxed()
}

/// A few lines that are everywhere (blank lines, closing braces) among rare ones.
pub fn frequent_pair_contents() -> BoxedStrategy<(String, String)> {
    (1usize..=3, 1u32..=9)
        .prop_flat_map(|(k, w)| {
            let tok = prop_oneof![
                w => (0..k).prop_map(|i| ["", "}", "  "][i].to_string()).boxed(),
                10 - w => (0u32..2000).prop_map(|i| format!("rare {i}")).boxed(),
            ]
            .boxed();
            // related, or with all rare lines renamed, or unrelated
            prop_oneof![
                3 => edited(tok.clone(), 100..500, 1..12),
                2 => (edited(tok.clone(), 100..400, 0..8), 1u32..5).prop_map(|((b, a), n)| {
                    let a = a.iter().enumerate()
                        .map(|(i, l)| if l.starts_with('r') && i as u32 % n == 0 { format!("new {l}") } else { l.clone() })
                        .collect();
                    (b, a)
                }),
                1 => (vec(tok.clone(), 100..300), vec(tok, 100..300)),
            ]
        })
        .prop_map(|(b, a)| (join(&b, true), join(&a, true)))
        .boxed()
}

/// Two texts that look the same or nearly so.
pub fn cosmetic_pair() -> BoxedStrategy<(String, String)> {
    (text_pair_contents(), 0u8..12, any::<Index>(), any::<bool>())
        .prop_map(|((b, _), kind, i, swap)| {
            let lines: Vec<&str> = b.split_inclusive('\n').collect();
            let at = if lines.is_empty() { 0 } else { i.index(lines.len()) };
            let one = |f: &dyn Fn(&str) -> String| -> String {
                lines.iter().enumerate().map(|(n, l)| if n == at { f(l) } else { l.to_string() }).collect()
            };
            let body = |l: &str| -> (String, &'static str) {
                match l.strip_suffix('\n') {
                    Some(x) => (x.to_string(), "\n"),
                    None => (l.to_string(), ""),
                }
            };
            let a = match kind {
                // final newline dropped or added
                0 => b.strip_suffix('\n').map(|s| s.to_string()).unwrap_or_else(|| format!("{b}\n")),
                // CR LF everywhere, or on one line
                1 => b.replace('\n', "\r\n"),
                2 => one(&|l| { let (x, e) = body(l); format!("{x}\r{e}") }),
                // blanks
                3 => one(&|l| { let (x, e) = body(l); format!("{x} {e}") }),
                4 => one(&|l| format!(" {l}")),
                5 => one(&|l| l.replace(' ', "\t")),
                // case
                6 => one(&|l| l.to_uppercase()),
                // a byte order mark, an invisible character, another spelling of a character
                7 => format!("\u{feff}{b}"),
                8 => one(&|l| { let (x, e) = body(l); format!("{x}\u{200b}{e}") }),
                9 => b.replace('\u{e9}', "e\u{301}"),
                // one more blank line
                10 => one(&|l| format!("\n{l}")),
                _ => b.clone(),
            };
            if swap { (a, b) } else { (b, a) }
        })
        .boxed()
}

pub fn text_pair() -> BoxedStrategy<TextPair> {
    (text_pair_contents(), ctx())
        .prop_map(|((before, after), ctx)| TextPair { before, after, ctx })
        .boxed()
}

pub fn long_text_pair() -> BoxedStrategy<TextPair> {
    (long_pair_contents(), prop_oneof![0u8..=10, any::<u8>(), 120u8..=130, 250u8..=255])
        .prop_map(|((before, after), ctx)| TextPair { before, after, ctx })
        .boxed()
}

pub fn byte_pair_contents() -> BoxedStrategy<(Vec<u8>, Vec<u8>)> {
    prop_oneof![
        3 => small_pair(10).prop_map(|(b, a)| (spread(&b), spread(&a))),
        4 => small_edited(40, 5).prop_map(|(b, a)| (spread(&b), spread(&a))),
        4 => edited(any::<u8>().boxed(), 0..80, 0..6),
        2 => edited_unique(0..256, 0..6).prop_map(|(b, a)| (
            b.iter().map(|x| fold(*x)).collect(), a.iter().map(|x| fold(*x)).collect())),
        1 => edited(prop_oneof![Just(0u8), Just(0xff), Just(b'\n'), Just(0x80), Just(0x7f), Just(0xfe)].boxed(), 0..40, 0..5),
    ]
    .boxed()
}

fn fold(x: u32) -> u8 {
    (x % 251) as u8
}

/// Small numbers onto bytes including both ends of the range.
fn spread(v: &[u8]) -> Vec<u8> {
    const T: [u8; 8] = [0, 255, 1, 128, 10, 127, 254, 65];
    v.iter().map(|b| T[(*b % 8) as usize]).collect()
}

pub fn long_byte_contents() -> BoxedStrategy<(Vec<u8>, Vec<u8>)> {
    prop_oneof![
        2 => edited(any::<u8>().boxed(), 300..1500, 1..6),
        1 => edited(prop_oneof![2 => Just(0u8), 3 => any::<u8>()].boxed(), 300..700, 1..6),
    ]
    .boxed()
}

pub fn byte_pair() -> BoxedStrategy<BytePair> {
    (byte_pair_contents(), ctx())
        .prop_map(|((before, after), ctx)| BytePair { before, after, ctx })
        .boxed()
}

pub fn long_byte_pair() -> BoxedStrategy<BytePair> {
    (long_byte_contents(), any::<u8>())
        .prop_map(|((before, after), ctx)| BytePair { before, after, ctx })
        .boxed()
}

/// before, after and a target related to them in some way (or not at all).
pub fn triple_of<T: std::fmt::Debug + Clone + 'static>(
    tok: BoxedStrategy<T>,
    len: usize,
) -> BoxedStrategy<(Vec<T>, Vec<T>, Vec<T>)> {
    (
        vec(tok.clone(), 0..=len),
        vec(op(tok.clone()), 0..4),
        vec(op(tok.clone()), 0..4),
        vec(tok, 0..=len),
        0u8..10,
        any::<Index>(),
    )
        .prop_map(|(base, ops, ops2, other, mode, cut)| {
            let after = apply_ops(&base, &ops);
            let target = match mode {
                // the original, edited
                0..=2 => apply_ops(&base, &ops2),
                // the result, edited
                3 | 4 => apply_ops(&after, &ops2),
                // partly patched: only some of the edits
                5 | 6 => {
                    let k = cut.index(ops.len() + 1);
                    let t = apply_ops(&base, &ops[..k]);
                    if mode == 6 {
                        apply_ops(&t, &ops2[..ops2.len().min(1)])
                    } else {
                        t
                    }
                }
                // truncated original
                7 => base[..cut.index(base.len() + 1)].to_vec(),
                // tail of the original
                8 => base[cut.index(base.len() + 1)..].to_vec(),
                // unrelated
                _ => other,
            };
            (base, after, target)
        })
        .boxed()
}

pub fn text_triple() -> BoxedStrategy<TextTriple> {
    let contents = prop_oneof![
        3 => (1u8..=4).prop_flat_map(|a| triple_of((0..a).boxed(), 14)).prop_map(|(b, a, t)| {
            let f = |v: &Vec<u8>| v.iter().map(|x| ((b'a' + x) as char).to_string()).collect::<Vec<_>>();
            (f(&b), f(&a), f(&t))
        }),
        2 => (4u8..=26).prop_flat_map(|a| triple_of((0..a).boxed(), 24)).prop_map(|(b, a, t)| {
            let f = |v: &Vec<u8>| v.iter().map(|x| ((b'a' + x) as char).to_string()).collect::<Vec<_>>();
            (f(&b), f(&a), f(&t))
        }),
        1 => triple_of((0..PALETTE.len()).boxed(), 10).prop_map(|(b, a, t)| {
            let f = |v: &Vec<usize>| v.iter().map(|x| PALETTE[*x].to_string()).collect::<Vec<_>>();
            (f(&b), f(&a), f(&t))
        }),
    ];
    (contents, eol(), eol(), eol(), ctx(), any::<bool>(), some_look(0.15))
        .prop_map(|((b, a, t), x, y, z, ctx, reverse, look)| {
            let mut c =
                TextTriple { before: join(&b, x), after: join(&a, y), target: join(&t, z), ctx, reverse };
            if let Some(mut l) = look.map(Looks::new) {
                c.before = l.text(&c.before);
                c.after = l.text(&c.after);
                c.target = l.text(&c.target);
            }
            c
        })
        .boxed()
}

pub fn byte_triple() -> BoxedStrategy<ByteTriple> {
    let contents = prop_oneof![
        3 => (1u8..=4).prop_flat_map(|a| triple_of((0..a).boxed(), 14)),
        2 => (4u8..=26).prop_flat_map(|a| triple_of((0..a).boxed(), 24)),
        1 => triple_of(any::<u8>().boxed(), 40),
    ];
    (contents, ctx(), any::<bool>())
        .prop_map(|((before, after, target), ctx, reverse)| ByteTriple {
            before,
            after,
            target,
            ctx,
            reverse,
        })
        .boxed()
}

/// All sequences over 0..alpha of length 0..=max, shortest first.
pub fn all_seqs(alpha: u8, max: usize) -> Vec<Vec<u8>> {
    let mut out = vec![vec![]];
    let mut from = 0;
    for _ in 0..max {
        let to = out.len();
        for i in from..to {
            for a in 0..alpha {
                let mut v: Vec<u8> = out[i].clone();
                v.push(a);
                out.push(v);
            }
        }
        from = to;
    }
    out
}

pub fn exh_text_pairs(alpha: u8, max: usize, ctxs: &'static [u8]) -> Box<dyn Iterator<Item = TextPair>> {
    let seqs = std::rc::Rc::new(all_seqs(alpha, max));
    let n = seqs.len();
    Box::new((0..n * n).flat_map(move |k| {
        let (b, a) = (&seqs[k / n], &seqs[k % n]);
        let (b, a) = (b.clone(), a.clone());
        ctxs.iter().map(move |c| TextPair {
            before: letters(&b, true),
            after: letters(&a, true),
            ctx: *c,
        })
    }))
}

/// Hunks of every length up to a few hundred and around powers of two, in five shapes, and single changes after that many
/// unchanged lines, or that far from each other.
fn every_length(thorough: bool) -> impl Iterator<Item = (Vec<u32>, Vec<u32>, u8)> {
    lengths(if thorough { 1_100 } else { 260 }, if thorough { 15 } else { 14 }).flat_map(|n| {
        let around = |core: Vec<u32>, lead: u32, trail: u32| -> Vec<u32> {
            (0..lead).chain(core).chain(10_000..10_000 + trail).collect()
        };
        let old = |k: u32| (20_000..20_000 + k).collect::<Vec<_>>();
        let new = |k: u32| (30_000..30_000 + k).collect::<Vec<_>>();
        let full = n.min(255) as u8;
        let hunk = |b: u32, a: u32| (around(old(b), 4, 4), around(new(a), 4, 4), (n % 4) as u8);
        let pair = |x: u32| [vec![x], (0..n).collect(), vec![x + 1]].concat();
        vec![
            hunk(n, 0),
            hunk(0, n),
            hunk(n, n),
            hunk(1, n),
            hunk(n, 1),
            (around(old(1), n, 3), around(new(1), n, 3), full),
            (around(old(1), 3, n), around(new(1), 3, n), full),
            (pair(40_000), pair(50_000), (n / 2).min(255) as u8),
            (pair(40_000), pair(50_000), ((n - 1) / 2).min(255) as u8),
        ]
    })
}

/// All up to some length, then those around powers of two.
pub fn lengths(all: u32, log: u32) -> impl Iterator<Item = u32> {
    let powers = (1..=log).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1]);
    (1..=all).chain(powers.filter(move |n| *n > all))
}

/// A hunk of that many items and a target that is one side of it but for one item.
#[derive(Debug, Clone, Hash, Serialize, Deserialize, PartialEq)]
pub struct Flawed {
    pub n: u32,
    /// the item, of those the hunk removes or adds
    pub at: u32,
    pub adds: bool,
    pub reverse: bool,
    pub how: u8,
}

/// Places worth altering among so many items.
fn places(n: u32) -> Vec<u32> {
    if n <= 24 {
        return (0..n).collect();
    }
    let powers = (5..17).flat_map(|k| [(1u32 << k) - 1, 1 << k]).filter(|p| n <= 5_000 || *p >= 512);
    let mut v: Vec<u32> = powers.chain([0, 1, n / 2, n - 2, n - 1, n.wrapping_mul(0x9E37_79B1) % n]).filter(|p| *p < n).collect();
    v.sort();
    v.dedup();
    v
}

pub fn flawed(all: u32, log: u32) -> Box<dyn Iterator<Item = Flawed>> {
    Box::new(lengths(all, log).flat_map(|n| {
        places(n).into_iter().flat_map(move |at| {
            [(false, false), (false, true), (true, false), (true, true)].map(|(adds, reverse)| Flawed { n, at, adds, reverse, how: (n + at) as u8 })
        })
    }))
}

impl Flawed {
    /// (without context the hunk is exactly as long)
    fn ctx(&self) -> u8 {
        if self.at % 2 == 0 { 0 } else { (self.n % 4) as u8 }
    }
    fn sides(&self) -> (Vec<u32>, Vec<u32>) {
        let short: Vec<u32> = (0..3).chain(1_000_000..1_000_003).collect();
        let long: Vec<u32> = (0..3).chain(10_000..10_000 + self.n).chain(1_000_000..1_000_003).collect();
        if self.adds { (short, long) } else { (long, short) }
    }
    pub fn bytes(&self) -> ByteTriple {
        let f = |v: &[u32]| -> Vec<u8> { v.iter().map(|x| (x.wrapping_mul(0x9E37_79B1) >> 24) as u8).collect() };
        let (b, a) = self.sides();
        let (before, after) = (f(&b), f(&a));
        let mut target = if self.adds { after.clone() } else { before.clone() };
        target[3 + self.at as usize] ^= 1 << (self.how % 8);
        ByteTriple { before, after, target, ctx: self.ctx(), reverse: self.reverse }
    }
    pub fn text(&self) -> TextTriple {
        let f = |v: &[u32]| -> Vec<String> { v.iter().map(|x| format!("l{x}\n")).collect() };
        let (b, a) = self.sides();
        let (before, after) = (f(&b), f(&a));
        let mut target = if self.adds { after.clone() } else { before.clone() };
        let l = &mut target[3 + self.at as usize];
        *l = match self.how % 5 {
            0 => l.replace('\n', " \n"),
            1 => l.replace('\n', "\r\n"),
            2 => l.replace('l', "L"),
            3 => l.replace('l', " l"),
            _ => "another\n".to_string(),
        };
        TextTriple { before: before.concat(), after: after.concat(), target: target.concat(), ctx: self.ctx(), reverse: self.reverse }
    }
}

pub fn exh_lengths(thorough: bool) -> Box<dyn Iterator<Item = TextPair>> {
    Box::new(every_length(thorough).map(|(b, a, ctx)| TextPair { before: numbers(&b, true), after: numbers(&a, ctx != 1), ctx }))
}

pub fn exh_byte_lengths(thorough: bool) -> Box<dyn Iterator<Item = BytePair>> {
    let f = |v: Vec<u32>| v.iter().map(|x| (x.wrapping_mul(0x9E37_79B1) >> 23) as u8).collect();
    // (two long sides take long)
    let quick = every_length(thorough).filter(|(b, a, _)| b.len().min(a.len()) < 5_000);
    Box::new(quick.map(move |(b, a, ctx)| BytePair { before: f(b), after: f(a), ctx }))
}

pub fn exh_byte_pairs(alpha: u8, max: usize, ctxs: &'static [u8]) -> Box<dyn Iterator<Item = BytePair>> {
    let seqs = std::rc::Rc::new(all_seqs(alpha, max));
    let n = seqs.len();
    Box::new((0..n * n).flat_map(move |k| {
        let (b, a) = (seqs[k / n].clone(), seqs[k % n].clone());
        ctxs.iter().map(move |c| BytePair {
            before: b.clone(),
            after: a.clone(),
            ctx: *c,
        })
    }))
}

/// Inputs of tens of thousands of items, described briefly.
#[derive(Debug, Clone, Hash, Serialize, Deserialize, PartialEq)]
pub struct Huge {
    pub n: u32,
    /// how many different lines there are (0: all different)
    pub kinds: u32,
    /// position, items removed there, items put there
    pub edits: Vec<(u32, u32, u32)>,
    /// besides, one line replaced every so many lines (0: none)
    pub every: u32,
    pub eol: (bool, bool),
    pub ctx: u8,
}

/// Few items against many others: one hunk of up to 150000 items.
#[derive(Debug, Clone, Hash, Serialize, Deserialize, PartialEq)]
pub struct Lopsided {
    pub small: Vec<u8>,
    pub len: u32,
    pub salt: u8,
    /// where the target differs from the longer side (positions as fractions of 2^32)
    pub wrong: Vec<u32>,
    /// items missing at the target's ends
    pub cut: (u8, u8),
    pub ctx: u8,
    pub reverse: bool,
    pub swap: bool,
}

/// Numbers around the powers of two up to 2^max, or any.
pub fn sizes(max: u32) -> BoxedStrategy<u32> {
    prop_oneof![
        2 => (6..=max, -2i32..=2).prop_map(|(k, d)| (1u32 << k).saturating_add_signed(d)),
        1 => 0u32..1 << max,
        1 => 0u32..10_000,
    ]
    .boxed()
}

pub fn lopsided(max: u32) -> BoxedStrategy<Lopsided> {
    (
        vec(any::<u8>(), 0..4),
        sizes(max),
        any::<u8>(),
        prop_oneof![1 => Just(vec![]), 2 => vec(any::<u32>(), 1), 1 => vec(any::<u32>(), 2..4)],
        prop_oneof![3 => Just((0u8, 0u8)), 1 => (0u8..3, 0u8..3)],
        prop_oneof![3 => 0u8..4, 1 => any::<u8>()],
        any::<bool>(),
        any::<bool>(),
    )
        .prop_map(|(small, len, salt, wrong, cut, ctx, reverse, swap)| Lopsided { small, len, salt, wrong, cut, ctx, reverse, swap })
        .boxed()
}

impl Lopsided {
    fn sides<T>(&self, small: Vec<T>, large: Vec<T>) -> (Vec<T>, Vec<T>) {
        if self.swap { (small, large) } else { (large, small) }
    }
    fn large(&self) -> Vec<u8> {
        (0..self.len).map(|i| ((i ^ i >> 15).wrapping_mul(0x9E37_79B1) >> 24) as u8 ^ self.salt).collect()
    }
    pub fn bytes(&self) -> BytePair {
        let (before, after) = self.sides(self.small.clone(), self.large());
        BytePair { before, after, ctx: self.ctx }
    }
    pub fn triple(&self) -> ByteTriple {
        let mut target = self.large();
        for w in &self.wrong {
            let at = (*w as u64 * target.len() as u64 >> 32) as usize;
            if let Some(x) = target.get_mut(at) {
                *x = x.wrapping_add(1 + (*w % 255) as u8);
            }
        }
        target.truncate(target.len().saturating_sub(self.cut.1 as usize));
        target.drain(..(self.cut.0 as usize).min(target.len()));
        let BytePair { before, after, ctx } = self.bytes();
        ByteTriple { before, after, target, ctx, reverse: self.reverse }
    }
    pub fn text(&self) -> TextPair {
        let small: Vec<u32> = self.small.iter().map(|x| *x as u32 * self.len.max(1) / 100).collect();
        let (b, a) = self.sides(small, (0..self.len).collect());
        TextPair { before: numbers(&b, self.salt & 1 > 0), after: numbers(&a, self.salt & 2 > 0), ctx: self.ctx }
    }
}

/// Hundreds of changes.
pub fn many_changes(max: u32) -> BoxedStrategy<Huge> {
    (
        prop_oneof![600u32..1_200, 1_200..max],
        prop_oneof![2u32..8, 2u32..20],
        vec((0..max, 0u32..4, 0u32..4), 0..3),
        any::<(bool, bool)>(),
        prop_oneof![4 => 0u8..4, 1 => 0u8..12],
    )
        .prop_map(|(n, every, edits, eol, ctx)| Huge { n, kinds: 0, edits, every, eol, ctx })
        .boxed()
}

pub fn huge(max: u32) -> BoxedStrategy<Huge> {
    let at = prop_oneof![
        2 => 0..max + 1,
        2 => 65_530u32..65_545,
        1 => 32_760u32..32_775,
        1 => 0u32..600,
        1 => 65_545u32..max.max(65_546) + 1,
    ];
    let few = || prop_oneof![8 => 0u32..5, 2 => 0u32..300, 1 => 0u32..5_000];
    (
        prop_oneof![3 => 65_600u32..max.max(65_601), 1 => 1_000..max],
        prop_oneof![4 => Just(0u32), 1 => 20_000u32..60_000],
        vec((at, few(), few()), 1..5),
        prop_oneof![3 => Just((true, true)), 1 => any::<(bool, bool)>()],
        prop_oneof![4 => 0u8..5, 1 => any::<u8>()],
        prop_oneof![12 => Just(0u32), 1 => 65_530u32..66_000],
    )
        .prop_map(|(n, kinds, mut edits, eol, ctx, more)| {
            // once in a while a block of more than 65536 items comes or goes
            if more > 0 {
                if ctx % 2 == 0 { edits[0].1 = more } else { edits[0].2 = more }
            }
            Huge { n, kinds, edits, every: 0, eol, ctx }
        })
        .boxed()
}

impl Huge {
    /// Both sequences, as numbers; those that were put there are 2^31 and above.
    fn expand(&self) -> (Vec<u32>, Vec<u32>) {
        let kind = |i: u32| if self.kinds == 0 { i } else { i.wrapping_mul(0x9E37_79B1) % self.kinds };
        let base: Vec<u32> = (0..self.n).map(kind).collect();
        let mut edits = self.edits.clone();
        if self.every > 0 {
            edits.extend((0..self.n / self.every).map(|i| (i * self.every, 1, 1 + i % 3 / 2)));
        }
        edits.sort();
        let (mut after, mut at, mut fresh) = (vec![], 0usize, 1u32 << 31);
        for (p, del, ins) in edits {
            let p = (p as usize).min(base.len()).max(at);
            after.extend_from_slice(&base[at..p]);
            for _ in 0..ins {
                after.push(fresh);
                fresh += 1;
            }
            at = (p + del as usize).min(base.len());
        }
        after.extend_from_slice(&base[at..]);
        (base, after)
    }
    pub fn text(&self) -> TextPair {
        let (b, a) = self.expand();
        TextPair { before: numbers(&b, self.eol.0), after: numbers(&a, self.eol.1), ctx: self.ctx }
    }
    /// Bytes without long repetitions.
    pub fn bytes(&self) -> BytePair {
        let (b, a) = self.expand();
        let f = |v: Vec<u32>| v.iter().map(|x| (x.wrapping_mul(0x9E37_79B1) ^ x.rotate_left(7)).to_le_bytes()[3] ^ (x >> 8) as u8).collect();
        BytePair { before: f(b), after: f(a), ctx: self.ctx }
    }
}

/// Contents around a power of two in size, described briefly.
#[derive(Debug, Clone, Hash, Serialize, Deserialize, PartialEq)]
pub struct Big {
    /// 2 to this is the size, and what to add to it
    pub exp: u8,
    pub delta: i8,
    /// short lines, or one long line
    pub short: bool,
    /// lines before and after it
    pub around: (u8, u8),
    pub eol: bool,
    /// a byte that is no UTF-8 somewhere
    pub binary: Option<u32>,
    /// where the second differs
    pub at: u32,
    pub ctx: u8,
    /// both, first only, second only
    pub which: u8,
}

/// Up to 2^`max` bytes (`max_binary` where one is not text), with or without changes.
pub fn big(max: u8, max_binary: u8, change: bool) -> BoxedStrategy<Big> {
    (
        (10..=max, -2i8..=2, prop::bool::weighted(0.3)),
        (0u8..4, 0u8..3),
        any::<bool>(),
        prop::option::weighted(0.2, any::<u32>()),
        any::<u32>(),
        0u8..4,
        if change { 0u8..3 } else { 1u8..3 },
    )
        .prop_map(move |((exp, delta, short), around, eol, binary, at, ctx, which)| {
            let exp = if binary.is_some() { exp.min(max_binary) } else { exp };
            // a file of millions of lines or a large comparison of bytes would be slow
            let exp = if short { exp.min(20) } else { exp };
            let exp = if binary.is_some() && which == 0 { exp.min(14) } else { exp };
            Big { exp, delta, short, around, eol, binary, at, ctx, which }
        })
        .boxed()
}

impl Big {
    pub fn first(&self) -> Vec<u8> {
        let n = ((1i64 << self.exp) + self.delta as i64).max(1) as usize;
        let mut v = vec![];
        for i in 0..self.around.0 {
            v.extend(format!("before {i}\n").bytes());
        }
        let mut x = 1u32;
        let from = v.len();
        while v.len() - from < n {
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            v.push(match x >> 24 {
                0..=15 if self.short => b'\n',
                k => b'!' + (k % 90) as u8,
            });
        }
        for i in 0..self.around.1 {
            v.extend(format!("\nafter {i}").bytes());
        }
        if self.eol {
            v.push(b'\n');
        }
        if let Some(p) = self.binary {
            let p = ((p as u64 * v.len() as u64) >> 32) as usize;
            v[p] = 0xff;
        }
        v
    }
    pub fn second(&self) -> Vec<u8> {
        let mut v = self.first();
        let p = ((self.at as u64 * v.len() as u64) >> 32) as usize;
        v.insert(p, b'+');
        if self.at % 3 == 0 {
            v.splice(0..0, *b"first\n");
        }
        v
    }
    /// The two files.
    pub fn contents(&self) -> (Option<Vec<u8>>, Option<Vec<u8>>) {
        ((self.which != 2).then(|| self.first()), (self.which != 1).then(|| self.second()))
    }
}
