//! Structured generators of texts.
use crate::case::Case;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;

/// which byte values may occur
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bytes {
    All,
    /// no zero byte
    NonZero,
    /// printable ASCII only
    Ascii,
}

impl Bytes {
    pub fn ok(self, b: u8) -> bool {
        match self {
            Bytes::All => true,
            Bytes::NonZero => b != 0,
            Bytes::Ascii => (0x20..0x7f).contains(&b),
        }
    }
    pub fn fix(self, b: u8) -> u8 {
        match self {
            Bytes::All => b,
            Bytes::NonZero => {
                if b == 0 {
                    1
                } else {
                    b
                }
            }
            Bytes::Ascii => b % 95 + 32,
        }
    }
}

fn dedup(mut v: Vec<u8>) -> Vec<u8> {
    let mut seen = [false; 256];
    v.retain(|&b| !std::mem::replace(&mut seen[b as usize], true));
    v
}

/// a non-empty list of distinct byte values
pub fn palette(k: Bytes) -> BoxedStrategy<Vec<u8>> {
    let fixed: Vec<Vec<u8>> = match k {
        Bytes::Ascii => vec![b"ab".to_vec(), b"abc".to_vec(), b"ACGT".to_vec(), b"01".to_vec(), b" ~".to_vec()],
        _ => vec![
            b"ab".to_vec(),
            b"abc".to_vec(),
            b"ACGT".to_vec(),
            b"01".to_vec(),
            vec![1, 2],
            vec![254, 255],
            vec![127, 128],
            vec![1, 255],
            vec![1, 2, 3],
            vec![128, 255, 1, 127],
            vec![0xc3, 0xa4, b'a'],
        ],
    };
    let mut fixed = fixed;
    if k == Bytes::All {
        fixed.extend([vec![0, 1], vec![0, 255], vec![0, b'a', b'b'], vec![0, b'0', 1, 255], vec![0, 128]]);
    }
    let all: Vec<u8> = (0..=255u8).filter(|&b| k.ok(b)).collect();
    prop_oneof![
        12 => select(fixed),
        1 => any::<u8>().prop_map(move |b| vec![k.fix(b)]),
        4 => vec(any::<u8>(), 2..6).prop_map(move |v| dedup(v.into_iter().map(|b| k.fix(b)).collect())),
        3 => vec(any::<u8>(), 6..60).prop_map(move |v| dedup(v.into_iter().map(|b| k.fix(b)).collect())),
        2 => Just(all),
    ]
    .boxed()
}

fn at(p: &[u8], i: u8) -> u8 {
    p[i as usize * p.len() / 256]
}

fn fit(mut v: Vec<u8>, min: usize, max: usize, p: &[u8]) -> Vec<u8> {
    v.truncate(max);
    let mut i = 0;
    while v.len() < min {
        v.push(p[i % p.len()]);
        i += 1;
    }
    v
}

fn runlen(cap: usize) -> BoxedStrategy<usize> {
    let cap = cap.max(1);
    let mut special: Vec<usize> = [253, 254, 255, 256, 257, 258, 259, 510, 511, 512, 513, 514, 767, 768, 769, 1023, 1024, 1025]
        .into_iter()
        .filter(|&x| x <= cap)
        .collect();
    special.push(1.min(cap));
    prop_oneof![
        5 => 1usize..=4.min(cap),
        2 => 1usize..=40.min(cap),
        2 => select(special),
    ]
    .boxed()
}

/// image of a morphic word, cut to n symbols
pub fn morphic(kind: u8, n: usize) -> Vec<u8> {
    let f = |c: u8| -> &'static [u8] {
        match (kind % 6, c) {
            (0, 0) => &[0, 1],
            (0, _) => &[0],
            (1, 0) => &[0, 1],
            (1, _) => &[1, 0],
            (2, 0) => &[0, 1],
            (2, _) => &[0, 0],
            (3, 0) => &[0, 1],
            (3, 1) => &[0, 2],
            (3, _) => &[0],
            (4, 0) => &[0, 1, 2],
            (4, 1) => &[0, 2],
            (4, _) => &[1],
            (_, 0) => &[0, 0, 1],
            (_, _) => &[0, 1],
        }
    };
    let mut w = vec![0u8];
    while w.len() < n {
        w = w.iter().flat_map(|&c| f(c).iter().copied()).collect();
    }
    w.truncate(n);
    w
}

/// byte sequences that programs like to treat specially
pub const MAGIC: [&[u8]; 44] = [
    b"\xef\xbb\xbf",
    b"\xff\xfe",
    b"\xfe\xff",
    b"\x1f\x8b\x08",
    b"PK\x03\x04",
    b"\x7fELF",
    b"\x89PNG\r\n\x1a\n",
    b"#!/bin/sh\n",
    b"\r\n",
    b"\n\n",
    b"\n",
    b"\r",
    b"\t",
    b" ",
    b"  ",
    b"\0",
    b"\0\0",
    b"\x01",
    b"\x04",
    b"\x1a",
    b"\x1b[0m",
    b"\xff",
    b"\xff\xff",
    b"\xff\xff\xff\xff",
    b"-1",
    b"--",
    b"\\n",
    b"\\x00",
    b"\\",
    b"%s%d",
    b"%00",
    b"0x41",
    b"NaN",
    b"\xc3\xa4",
    b"\xe2\x80\xa8",
    b"\xf0\x9f\x98\x80",
    b"\xc0\x80",
    b"\xed\xa0\x80",
    b"\xc3",
    b"(97,1)",
    b">seq1\nACGT",
    b"<?xml",
    b"$",
    b"\"",
];

#[derive(Clone, Debug)]
enum Op {
    Lit(u8),
    Copy(u16, usize),
}

/// structured text of min..=max bytes
pub fn text(min: usize, max: usize, k: Bytes) -> BoxedStrategy<Vec<u8>> {
    let small = max.min(min.max(12));
    let mid = max.min(min.max(64));
    let n = prop_oneof![2 => min..=small, 3 => min..=mid, 2 => min..=max];
    (palette(k), n)
        .prop_flat_map(move |(p, n)| {
            let m = n.max(1);
            let (p1, p2, p3, p4, p5, p6) = (p.clone(), p.clone(), p.clone(), p.clone(), p.clone(), p.clone());
            let uniform = vec(any::<u8>(), n..=n).prop_map(move |v| v.into_iter().map(|i| at(&p1, i)).collect::<Vec<u8>>());
            let runs = vec((any::<u8>(), runlen(m)), 0..=(m.min(40)))
                .prop_map(move |v| v.into_iter().flat_map(|(i, l)| std::iter::repeat(at(&p2, i)).take(l)).collect::<Vec<u8>>());
            let power = (vec(any::<u8>(), 1..=m.min(24)), 1usize..=40, any::<u8>(), vec((any::<u16>(), any::<u8>()), 0..3), any::<bool>()).prop_map(
                move |(w, e, cut, edits, edit)| {
                    let mut t: Vec<u8> = vec![];
                    for _ in 0..e {
                        t.extend(w.iter().map(|&i| at(&p3, i)));
                        if t.len() > m {
                            break;
                        }
                    }
                    // a partial repetition at the end
                    t.extend(w.iter().take(cut as usize * w.len() / 256).map(|&i| at(&p3, i)));
                    t.truncate(m);
                    if edit && !t.is_empty() {
                        for (pos, s) in edits {
                            let l = t.len();
                            t[pos as usize * l / 65536] = at(&p3, s);
                        }
                    }
                    t
                },
            );
            let lz = vec(
                prop_oneof![2 => any::<u8>().prop_map(Op::Lit), 3 => (any::<u16>(), runlen(m)).prop_map(|(d, l)| Op::Copy(d, l))],
                0..=m.min(60),
            )
            .prop_map(move |ops| {
                let mut t: Vec<u8> = vec![];
                for o in ops {
                    match o {
                        Op::Lit(i) => t.push(at(&p4, i)),
                        Op::Copy(d, l) => {
                            if t.is_empty() {
                                t.push(p4[0]);
                            }
                            let from = t.len() - 1 - (d as usize * t.len() / 65536);
                            for x in 0..l {
                                t.push(t[from + x]);
                            }
                        }
                    }
                    if t.len() > m {
                        break;
                    }
                }
                t
            });
            let morph = (0u8..6, any::<bool>(), any::<u8>(), vec((any::<u16>(), any::<u8>()), 0..3), 0usize..=3).prop_map(
                move |(kind, rev, off, edits, skip)| {
                    let skip = skip * skip;
                    let mut t: Vec<u8> =
                        morphic(kind, m + skip)[skip..].iter().map(|&c| p5[(c as usize + off as usize) % p5.len()]).collect();
                    if rev {
                        t.reverse();
                    }
                    for (pos, s) in edits {
                        let l = t.len();
                        if l > 0 {
                            t[pos as usize * l / 65536] = at(&p5, s);
                        }
                    }
                    t
                },
            );
            // words in descending order, repeated: long Lyndon factor sequences
            let lyndon = (vec(vec(any::<u8>(), 1..=6), 1..=6), vec(1usize..=5, 6), any::<bool>()).prop_map(move |(mut ws, reps, up)| {
                for w in ws.iter_mut() {
                    for x in w.iter_mut() {
                        *x = at(&p6, *x);
                    }
                    // least rotation
                    let best = (0..w.len()).min_by_key(|&r| [&w[r..], &w[..r]].concat()).unwrap();
                    w.rotate_left(best);
                }
                ws.sort();
                if !up {
                    ws.reverse();
                }
                let mut t = vec![];
                for (w, r) in ws.iter().zip(reps) {
                    for _ in 0..r {
                        t.extend_from_slice(w);
                    }
                }
                t
            });
            let body = prop_oneof![3 => uniform, 2 => runs, 2 => power, 2 => lz, 2 => morph, 1 => lyndon];
            // a special sequence at the start, at the end, in place of the text, or anywhere
            let special = (0u8..14, select(specials(k)), any::<u16>());
            (body, special).prop_map(move |(mut t, (place, m, x))| {
                {
                    let at = match place {
                        0 => Some(0),
                        1 => Some(t.len()),
                        2 => Some(x as usize % (t.len() + 1)),
                        3 if x % 4 == 0 => {
                            t.clear();
                            Some(0)
                        }
                        _ => None,
                    };
                    if let Some(i) = at {
                        t.splice(i..i, m.iter().copied());
                    }
                }
                fit(t, min, max, &p)
            })
        })
        .boxed()
}

pub struct Mix(pub u64);
impl Mix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
}

/// expands few generated parameters to a long text
pub fn expand(kind: u8, seed: u64, n: usize, p: &[u8]) -> Vec<u8> {
    let mut r = Mix(seed);
    let mut t: Vec<u8> = Vec::with_capacity(n);
    match kind % 6 {
        0 => {
            while t.len() < n {
                t.push(p[r.below(p.len())]);
            }
        }
        1 => {
            while t.len() < n {
                let l = match r.below(8) {
                    0 => 250 + r.below(12),
                    1 => 506 + r.below(12),
                    2 => r.below(n / 2 + 1),
                    _ => 1 + r.below(30),
                };
                let c = p[r.below(p.len())];
                t.extend(std::iter::repeat(c).take(l));
            }
        }
        2 => {
            let cap = [3, 40, 300, n / 2 + 1][r.below(4)];
            let per = 1 + r.below(cap);
            for i in 0..n {
                let c = if i < per { p[r.below(p.len())] } else { t[i - per] };
                t.push(c);
            }
            for _ in 0..r.below(3) {
                let i = r.below(n);
                if i < t.len() {
                    t[i] = p[r.below(p.len())];
                }
            }
        }
        3 => {
            while t.len() < n {
                if t.is_empty() || r.below(3) == 0 {
                    t.push(p[r.below(p.len())]);
                } else {
                    let from = r.below(t.len());
                    let cap = [8, 60, 700, 9000][r.below(4)];
                    let l = 1 + r.below(cap);
                    for x in 0..l {
                        t.push(t[from + x]);
                    }
                }
            }
        }
        4 => {
            let k = r.below(6) as u8;
            let off = r.below(p.len());
            t.extend(morphic(k, n).iter().map(|&c| p[(c as usize + off) % p.len()]));
            if r.below(2) == 0 {
                t.reverse();
            }
        }
        _ => {
            // skewed
            while t.len() < n {
                let a = r.below(p.len()).min(r.below(p.len())).min(r.below(p.len()));
                t.push(p[a]);
            }
        }
    }
    t.truncate(n);
    t
}

/// long text of min..=max bytes
pub fn big(min: usize, max: usize, k: Bytes) -> BoxedStrategy<Vec<u8>> {
    (0u8..6, any::<u64>(), min..=max, palette(k)).prop_map(|(kind, seed, n, p)| expand(kind, seed, n, &p)).boxed()
}

/// a text whose length is one of the given ones
pub fn of_length(lens: Vec<usize>, k: Bytes) -> BoxedStrategy<Vec<u8>> {
    (0u8..6, any::<u64>(), select(lens), palette(k)).prop_map(|(kind, seed, n, p)| expand(kind, seed, n, &p)).boxed()
}

/// numbers that a narrower type or another number format does not hold, small after truncation
pub fn wide_number(seed: u64) -> u64 {
    const BITS: [u32; 15] = [7, 8, 15, 16, 20, 24, 31, 32, 32, 33, 40, 48, 53, 62, 63];
    let p = 1u64 << BITS[(seed % 15) as usize];
    match seed / 15 % 16 {
        14 => p - 1,
        15 => (p - 1) * 2 + 1 - seed / 240 % 3,
        d => p + d,
    }
}
/// files the size of which is reported as zero, with stable content
pub fn sizeless_files() -> Vec<(&'static str, Vec<u8>)> {
    ["/proc/version", "/proc/filesystems", "/proc/devices", "/proc/sys/kernel/ostype"]
        .into_iter()
        .filter_map(|p| {
            let (m, a, b) = (std::fs::metadata(p).ok()?, std::fs::read(p).ok()?, std::fs::read(p).ok()?);
            (m.is_file() && m.len() == 0 && !a.is_empty() && a == b).then_some((p, a))
        })
        .collect()
}
/// sizes at which counters, buffers and index types change
pub fn threshold_sizes(max: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut p = 128;
    while p <= max {
        v.extend([p - 1, p, p + 1]);
        p *= 2;
    }
    v.retain(|&x| x <= max);
    // numbers in the source
    let most = if max >= 1_000_000 { max.max(4_500_000) } else { max };
    for x in source_numbers(6, most) {
        if !v.contains(&x) {
            v.push(x);
        }
    }
    v
}
/// the numbers of a range that occur in the source, and their neighbours; few large ones
pub fn source_numbers(lo: usize, hi: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut large = 0;
    for &x in &crate::dict::dict().numbers {
        if x < lo || x >= hi {
            continue;
        }
        if x > 300_000 {
            large += 1;
            if large > 6 {
                break;
            }
        }
        v.extend([x.max(1) - 1, x, x + 1]);
    }
    v.sort();
    v.dedup();
    v
}

/// special byte sequences: well-known ones and those in the source
pub fn specials(k: Bytes) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = MAGIC.iter().map(|m| m.to_vec()).collect();
    for t in &crate::dict::dict().tokens {
        if !v.contains(t) {
            v.push(t.clone());
        }
    }
    v.retain(|t| t.iter().all(|&b| k.ok(b)));
    v
}
/// special byte sequences at special places
pub fn dictionary_texts(k: Bytes) -> Vec<Vec<u8>> {
    let mut out = vec![];
    for (i, t) in specials(k).into_iter().enumerate() {
        let bodies: [&[u8]; 3] = [b"abracadabra", b"zyxzyxzy", b"0110100110010110"];
        let (a, b) = (bodies[i % 3], bodies[(i / 3 + 1) % 3]);
        let n = t.len();
        out.extend([
            t.clone(),
            [&t[..], a].concat(),
            [a, &t[..]].concat(),
            [a, &t[..], b].concat(),
            [&t[..], &t[..], a].concat(),
            [&t[..], a, &t[..]].concat(),
            // all but its last byte
            [a, &t[..n - 1], b, &t[..]].concat(),
        ]);
    }
    out
}
pub const SHAPES: usize = 13;
/// the i-th text in which one quantity (run length, match length, match distance, number of runs, multiplicity of a
/// symbol, factor length, factor count, period, border, length) is exactly a threshold size
pub fn threshold_text(i: u64, sizes: &[usize], k: Bytes) -> Vec<u8> {
    let shape = (i as usize) % SHAPES;
    let l = sizes[(i as usize / SHAPES) % sizes.len()];
    let mut r = Mix(i.wrapping_mul(0x1234_5677) ^ 99);
    let full: Vec<u8> = (0..=255u8).filter(|&b| k.ok(b)).collect();
    let two: Vec<u8> = match i / 7 % 3 {
        0 => vec![b'a', b'b'],
        1 => vec![k.fix(1), k.fix(255)],
        _ => vec![k.fix(0), k.fix(128)],
    };
    let (a, b) = (two[0], two[1]);
    let mut noise = |n: usize| -> Vec<u8> { (0..n).map(|_| full[r.below(full.len())]).collect() };
    match shape {
        // one run of l between others
        0 => {
            let mut t = vec![b, a, b];
            t.extend(vec![a; l]);
            t.extend([b, b, a, b]);
            t
        }
        // match of length l: w, separator, w
        1 => {
            let w = noise(l);
            let s = noise(3);
            [&w[..], &s[..], &w[..], &s[..1]].concat()
        }
        // short match at distance l
        2 => {
            let u = noise(40.min(l));
            let mut t = u.clone();
            t.extend(vec![a; l - u.len()]);
            t.extend_from_slice(&u);
            t.push(b);
            t
        }
        // l runs
        3 => (0..l).flat_map(|j| vec![if j % 2 == 0 { a } else { b }; 1 + (j % 5 == 0) as usize]).collect(),
        // a occurs l times, the other symbol is rare
        4 => {
            let mut t = vec![];
            let mut r = Mix(i);
            for j in 0..l {
                if r.below(17) == 0 || j == l / 2 {
                    t.push(b);
                }
                t.push(a);
            }
            t
        }
        // strictly decreasing Lyndon words, the first of length l
        5 => {
            let mut t = vec![b];
            t.push(a);
            t.extend(vec![b; l.saturating_sub(1)]);
            t.extend([a, a, b, a]);
            t
        }
        // l equal factors of two symbols
        6 => {
            let mut t = [a, b].repeat(l);
            t.push(a);
            t
        }
        // smallest period l, with a partial repetition
        7 => {
            let w = noise(l);
            let mut t = w.clone();
            t.extend_from_slice(&w[..l / 3 + 1]);
            t
        }
        // period l over a binary alphabet, twice and almost thrice
        8 => {
            let mut r = Mix(i);
            let w: Vec<u8> = (0..l).map(|_| two[r.below(2)]).collect();
            let mut t = [&w[..], &w[..]].concat();
            if t.len() < 40_000 {
                t.extend_from_slice(&w[..l - 1]);
                t.push(if w[l - 1] == a { b } else { a });
            }
            t
        }
        // two long runs that compete: for the least rotation, as parts of a suffix, as places of a long substring
        9 => [vec![a; l], vec![b], vec![a; l + 1 - i as usize / 3 % 3]].concat(),
        // the same with repetitions of a short word
        10 => {
            let w: Vec<u8> = [&[a, b][..], &[a, a, b], &[a, b, b, a, b], &[b, a]][l % 4].to_vec();
            let run = |n: usize| w.iter().copied().cycle().take(n).collect::<Vec<u8>>();
            [run(l), vec![a, a, a, b], run(l + 2 - i as usize / 3 % 3)].concat()
        }
        // the Thue-Morse word, whose halves and many other different substrings have the same polynomial hash modulo 2^64
        11 => (0..l as u32).map(|j| two[j.count_ones() as usize % 2]).collect(),
        // just the length, all symbols
        _ => noise(l),
    }
}

pub fn case_text(s: BoxedStrategy<Vec<u8>>) -> BoxedStrategy<Case> {
    s.prop_map(Case::text).boxed()
}

/// number of strings over sigma letters with lengths min..=max
pub fn count_strings(sigma: u64, min: u32, max: u32) -> u64 {
    (min..=max).map(|l| sigma.pow(l)).sum()
}

/// the i-th such string, shortest first, lexicographic within a length; symbols 0..sigma
pub fn nth_string(sigma: u64, min: u32, mut i: u64) -> Vec<u8> {
    let mut len = min;
    while i >= sigma.pow(len) {
        i -= sigma.pow(len);
        len += 1;
    }
    let mut out = vec![0u8; len as usize];
    for x in out.iter_mut().rev() {
        *x = (i % sigma) as u8;
        i /= sigma;
    }
    out
}

/// the i-th string of a finite space given by several (palette, min, max) blocks
#[derive(Clone)]
pub struct Space(pub Vec<(Vec<u8>, u32, u32)>);
impl Space {
    pub fn len(&self) -> u64 {
        self.0.iter().map(|(p, a, b)| count_strings(p.len() as u64, *a, *b)).sum()
    }
    pub fn nth(&self, mut i: u64) -> Vec<u8> {
        for (p, a, b) in &self.0 {
            let c = count_strings(p.len() as u64, *a, *b);
            if i < c {
                return nth_string(p.len() as u64, *a, i).into_iter().map(|x| p[x as usize]).collect();
            }
            i -= c;
        }
        panic!("index outside the space")
    }
}
