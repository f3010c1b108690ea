//! Checks on the library: its functions are called in this process. One module and cargo feature per
//! property, such that a changed signature affects only the properties that need it.
#![allow(dead_code, unused_imports)]
use proptest::collection::vec;
use proptest::prelude::*;
use std::cmp::Reverse;
use std::collections::VecDeque;
use stringology::{core, word};
use vcore::case::*;
use vcore::frame::*;
use vcore::gens::*;
use vcore::oracle::*;

type R = Result<Info, Bad>;

fn space(blocks: &[(&[u8], u32, u32)]) -> Space {
    Space(blocks.iter().map(|(p, a, b)| (p.to_vec(), *a, *b)).collect())
}
fn need(cond: bool) -> Result<(), Bad> {
    if cond {
        Ok(())
    } else {
        Err(Bad::Discard)
    }
}
fn distinct(t: &[u8]) -> usize {
    let mut s = [false; 256];
    t.iter().for_each(|&b| s[b as usize] = true);
    s.iter().filter(|x| **x).count()
}
/// exhaustive, random, every-length and long texts for one check
struct Plan {
    ex: Space,
    n: u64,
    max: usize,
    bytes: Bytes,
    sweep: usize,
    long: (u64, usize, usize),
    thr: usize,
}
fn subs(p: Plan, names: [&'static str; 4], what: &'static str, f: fn(&Case, &mut Env) -> R) -> Vec<Sub> {
    let mut v = vec![];
    let (n, max, bytes, ex) = (p.n, p.max, p.bytes, p.ex);
    let min = 1;
    let total = ex.len();
    v.push(sub_enum(names[0], what, true, total, move |i| Case::new(ex.nth(i), vec![], vec![i]), f));
    v.push(sub_gen(names[1], what, true, n, move || (text(min, max, bytes), 0u64..10_000).prop_map(|(t, s)| Case::new(t, vec![], vec![s])), f));
    let kinds: [(u8, Vec<u8>); 5] = [
        (0, (0..=255u8).filter(|&b| bytes.ok(b)).collect()),
        (2, vec![1, 255]),
        (1, vec![128, b'a', 254]),
        (4, b"ab".to_vec()),
        (0, b"ab".to_vec()),
    ];
    v.push(sub_enum(
        names[2],
        what,
        true,
        p.sweep as u64 * 5,
        move |i| {
            let (kind, pal) = &kinds[(i % 5) as usize];
            Case::new(expand(*kind, i, i as usize / 5 + 1, pal), vec![], vec![i / 7])
        },
        f,
    ));
    let (ln, a, b) = p.long;
    let sizes = threshold_sizes(p.thr);
    v.push(sub_enum(
        "lib-thresholds",
        "same, texts in which a run, match, distance, period, count or the length is a power of two or a neighbour of it",
        true,
        (sizes.len() * SHAPES) as u64,
        move |i| Case::new(threshold_text(i, &sizes, bytes), vec![], vec![i * 31]),
        f,
    ));
    let texts = dictionary_texts(bytes);
    v.push(sub_enum(
        "lib-dictionary",
        "same, texts with well-known byte sequences or literals of the source at the start, at the end, inside, or repeated",
        true,
        texts.len() as u64,
        move |i| Case::new(texts[i as usize].clone(), vec![], vec![i * 31]),
        f,
    ));
    if ln > 0 {
        v.push(sub_gen(names[3], what, true, ln, move || (big(a, b, bytes), 0u64..1_000_000).prop_map(|(t, s)| Case::new(t, vec![], vec![s])), f));
    }
    v
}
fn wide(t: &[u8]) -> Vec<i64> {
    t.iter().map(|&b| (b as i64 - 100) * 72_057_594_037_927) .collect()
}
fn rev(t: &[u8]) -> Vec<Reverse<u8>> {
    t.iter().map(|&b| Reverse(b)).collect()
}

/// sequences of many different symbols: nums = [shape, length, seed]
fn broad(c: &Case) -> Result<Vec<u32>, Bad> {
    let (shape, n, seed) = (c.num(0), c.num(1) as usize, c.num(2));
    need(n >= 1 && n <= 300_000)?;
    let mut r = Mix(seed ^ (n as u64) << 20 ^ shape << 50);
    let spread = [n as u64, 260, 300, 1000, 65_537, 70_000][seed as usize % 6].max(1);
    let period = [257, 256, 300, 31, 1000, 65_537][seed as usize / 6 % 6];
    let mut v: Vec<u64> = vec![];
    for i in 0..n as u64 {
        let last = v.last().copied();
        let x = match shape % 8 {
            0 => n as u64 - i,
            1 => i,
            2 => r.next() % spread,
            3 => i % period,
            4 => match last {
                Some(x) if r.below(4) > 0 => x,
                _ => r.next() % spread,
            },
            5 => match last {
                Some(_) if r.below(9) > 0 => v[r.below(v.len())],
                _ => i % period + 1,
            },
            6 => period - i % period,
            // factors that decrease, each with an ascending part
            _ => (n as u64 - i) / period * period + i % period,
        };
        v.push(x);
    }
    // the order of the symbols shows in their low bits, in their high bits, or in the middle
    let step = [1, 256, 4097, 1 << 13][seed as usize / 36 % 4];
    Ok(v.into_iter().map(|x| u32::try_from(x * step).unwrap_or(u32::MAX)).collect())
}
fn broad_subs(n: u64, max: u64, sizes: &'static [u64], f: fn(&Case, &mut Env) -> R) -> Vec<Sub> {
    let what = "sequences over hundreds or thousands of different 32-bit symbols: descents, ascents, uniform, periodic, runs, copies, decreasing factors; nums = [shape, length, seed]";
    vec![
        sub_gen("lib-broad", what, true, n, move || (0u64..8, 1..max, 0u64..1_000_000).prop_map(|(a, b, c)| Case::nums(vec![a, b, c])), f),
        sub_enum("lib-broad-sizes", what, true, sizes.len() as u64 * 8 * 6, move |i| Case::nums(vec![i % 8, sizes[i as usize / 48], [0, 1, 36, 5, 4, 74][i as usize / 8 % 6]]), f),
    ]
}

#[cfg(feature = "c01")]
mod c01 {
    use super::*;

fn c01_case(c: &Case, _: &mut Env) -> R {
    let t = &c.text;
    need(!t.contains(&0))?;
    let mut z = t.clone();
    z.push(0);
    let b = call("the BWT of the terminated text", || core::bwt_from_text_by_sa(&z))?;
    match invert_bwt(&b) {
        Some(x) => same_bytes("inverting the BWT", &x, t)?,
        None => return fail(format!("no BWT of a terminated text: [{}]", brief_bytes(&b))),
    }
    same_bytes("BWT of the terminated text", &b, &suffix_bwt(&z))?;
    if !t.is_empty() {
        let b = call("the BWT without terminator", || core::bwt_from_text_by_sa(t))?;
        same_bytes("BWT without terminator", &b, &suffix_bwt(t))?;
    }
    pass(t.len() >= 2 && distinct(t) >= 2)
}
pub fn c01(t: Tier) -> Vec<Sub> {
    subs(
        Plan {
            ex: space(&[(b"ab", 0, t.pick(12, 17)), (&[1, 255], 1, t.pick(9, 13)), (b"abc", 1, t.pick(8, 11)), (&[1, 127, 128, 254], 1, t.pick(6, 8))]),
            n: t.pick(60_000, 1_500_000),
            max: 900,
            bytes: Bytes::NonZero,
            sweep: t.pick(600, 2500),
            long: (t.pick(60, 1200), 20_000, 300_000),
            thr: t.pick(1_100_000, 4_200_000),
        },
        ["lib-exhaustive", "lib-random", "lib-lengths", "lib-long"],
        "library: text to BWT against inversion and sorted suffixes",
        c01_case,
    )
}
}

/// texts whose suffixes (or rotations) share prefixes of about half their length
#[allow(dead_code)]
fn long_prefixes(n: usize, form: usize) -> Vec<u8> {
    let mut r = Mix((n * 8 + form) as u64);
    let mut t: Vec<u8> = match form {
        0 => vec![b'a'; n - 1],
        1 => vec![255; n],
        2 | 3 => {
            let u: Vec<u8> = (0..n / 2).map(|_| 1 + r.below([2, 255][form - 2]) as u8).collect();
            [&u[..], &u[..]].concat()
        }
        _ => {
            let (mut x, mut y) = (b"a".to_vec(), b"ab".to_vec());
            while y.len() < n {
                let z = [&y[..], &x[..]].concat();
                x = std::mem::replace(&mut y, z);
            }
            y.truncate(n);
            y
        }
    };
    if form == 0 {
        t.push(b'b');
    }
    t
}

#[cfg(feature = "c02")]
mod c02 {
    use super::*;

fn c02_case(c: &Case, _: &mut Env) -> R {
    let t = &c.text;
    need(!t.is_empty())?;
    let want = rotation_bwt(t);
    if !t.contains(&0) {
        let b = call("bwt_by_matrix", || core::bwt_by_matrix(t))?;
        same_bytes("bwt_by_matrix", &b, &want)?;
        let s = c.num(0) as usize % t.len();
        let b = call("bwt_by_matrix of a rotation", || core::bwt_by_matrix(&rotate(t, s)))?;
        same_bytes(&format!("bwt_by_matrix of the rotation by {}", s), &b, &want)?;
    }
    if t.len() <= 700 || c.num(1) == 1 {
        let b = call("bwt_by_matrix_naive", || core::bwt_by_matrix_naive(&t[..]))?;
        same_bytes("bwt_by_matrix_naive", &b, &want)?;
        let w = wide(t);
        let b = call("bwt_by_matrix_naive on i64", || core::bwt_by_matrix_naive(&w[..]))?;
        same("bwt_by_matrix_naive on i64", &b, &wide(&want))?;
        if t.len() <= 200 {
            let r = rev(t);
            let b = call("bwt_by_matrix_naive in reverse order", || core::bwt_by_matrix_naive(&r[..]))?;
            same("bwt_by_matrix_naive in reverse order", &b, &rotation_bwt(&r))?;
        }
    }
    pass(t.len() >= 2 && distinct(t) >= 2)
}
fn c02_broad(c: &Case, _: &mut Env) -> R {
    let w = broad(c)?;
    need(w.len() <= 1500)?;
    let b = call("bwt_by_matrix_naive on u32", || core::bwt_by_matrix_naive(&w[..]))?;
    same("bwt_by_matrix_naive on u32", &b, &rotation_bwt(&w))?;
    pass(w.len() >= 257)
}
pub fn c02(t: Tier) -> Vec<Sub> {
    let mut v = subs(
        Plan {
            ex: space(&[(b"ab", 1, t.pick(12, 16)), (&[0, 255], 1, t.pick(9, 12)), (b"abc", 1, t.pick(8, 10)), (&[0, 1, 128, 255], 1, t.pick(6, 7))]),
            n: t.pick(30_000, 700_000),
            max: 500,
            bytes: Bytes::All,
            sweep: t.pick(300, 700),
            long: (t.pick(40, 800), 5_000, 60_000),
            thr: t.pick(9_000, 33_000),
        },
        ["lib-exhaustive", "lib-random", "lib-lengths", "lib-long"],
        "library: both matrix variants against sorted rotations, and rotation invariance",
        c02_case,
    );
    let sizes: Vec<usize> = threshold_sizes(t.pick(4_100, 9_000)).into_iter().filter(|&s| s > 700).collect();
    v.push(sub_enum(
        "lib-naive-long",
        "same, also the naive variant on long texts, with rotations that share long prefixes",
        true,
        sizes.len() as u64 * 5,
        move |i| Case::new(long_prefixes(sizes[i as usize / 5], i as usize % 5), vec![], vec![i, 1]),
        c02_case,
    ));
    v.extend(broad_subs(t.pick(3000, 30_000), 700, &[256, 257, 300, 513, 1100], c02_broad));
    v
}
}

#[cfg(feature = "c03")]
mod c03 {
    use super::*;

fn c03_case(c: &Case, _: &mut Env) -> R {
    let t = &c.text;
    need(!t.is_empty())?;
    let b = call("bbwt_naive", || core::bbwt_naive(&t[..]))?;
    let count = |v: &[u8]| {
        let mut c = vec![0usize; 256];
        v.iter().for_each(|&x| c[x as usize] += 1);
        c
    };
    same("symbol counts of the bijective BWT", &count(&b), &count(t))?;
    same_bytes("inverting the bijective BWT", &invert_bbwt(&b), t)?;
    if t.len() <= 200 {
        same_bytes("bijective BWT against the definition", &b, &bbwt_def(t))?;
        let w = wide(t);
        let x = call("bbwt_naive on i64", || core::bbwt_naive(&w[..]))?;
        same("bijective BWT on i64", &x, &wide(&b))?;
        let r = rev(t);
        let x = call("bbwt_naive in reverse order", || core::bbwt_naive(&r[..]))?;
        same("bijective BWT in reverse order", &x, &bbwt_def(&r))?;
    }
    pass(lyndon_ends(t).len() >= 2 && distinct(t) >= 2)
}
fn c03_broad(c: &Case, _: &mut Env) -> R {
    let w = broad(c)?;
    // equal factors make the library compare long periods
    need(w.len() <= 2000 || c.num(0) == 0)?;
    let b = call("bbwt_naive on u32", || core::bbwt_naive(&w[..]))?;
    same("length of the bijective BWT on u32", &b.len(), &w.len())?;
    same("inverting the bijective BWT on u32", &invert_bbwt(&b), &w)?;
    if w.len() <= 300 {
        same("bijective BWT on u32", &b, &bbwt_def(&w))?;
    }
    pass(w.len() >= 257)
}
pub fn c03(t: Tier) -> Vec<Sub> {
    let mut v = subs(
        Plan {
            ex: space(&[(b"ab", 1, t.pick(13, 17)), (&[0, 255], 1, t.pick(9, 12)), (b"abc", 1, t.pick(8, 10)), (&[0, 1, 128, 255], 1, t.pick(6, 8))]),
            n: t.pick(300000, 1_200_000),
            max: 400,
            bytes: Bytes::All,
            sweep: t.pick(600, 800),
            long: (t.pick(120, 500), 500, 1_500),
            thr: t.pick(600, 2_100),
        },
        ["lib-exhaustive", "lib-random", "lib-lengths", "lib-long"],
        "bijective BWT: definition, permutation, inversion",
        c03_case,
    );
    // Lyndon factors as long as a power of two or nearly so; no two conjugates share a long prefix
    let sizes: Vec<usize> = threshold_sizes(t.pick(140_000, 1_100_000)).into_iter().filter(|&s| s >= 500).collect();
    v.push(sub_enum(
        "lib-long-factors",
        "same (without the definition), a Lyndon factor of a length near a power of two between factors of other lengths",
        true,
        (sizes.len() * 6) as u64,
        move |i| Case::new(long_factor(sizes[i as usize / 6], i as usize % 6), vec![], vec![]),
        c03_case,
    ));
    // every comparison of conjugates takes as many steps as they agree on symbols
    let sizes = t.pick(vec![3_000, 8_000, 16_500, 21_000, 25_000], vec![3_000, 8_000, 16_500, 21_000, 25_000, 33_000, 41_000]);
    v.push(sub_enum(
        "lib-agreeing-factors",
        "same (without the definition), two Lyndon factors that agree on very many symbols",
        true,
        (sizes.len() * 3) as u64,
        move |i| {
            let l = sizes[i as usize / 3];
            let mut r = Mix(l as u64 + i);
            let mut f = vec![20u8];
            f.extend((1..l).map(|_| 21 + r.below(200) as u8));
            let mut g = f.clone();
            match i % 3 {
                // they differ in their last symbols
                0 => {
                    f.push(250);
                    g.push(21);
                }
                // one is the beginning of the other
                1 => g.truncate(l - l / 7),
                // in a symbol after three quarters
                _ => {
                    f[l / 4 * 3] = 250;
                    g[l / 4 * 3] = 240;
                }
            }
            f.extend(g);
            Case::new(f, vec![], vec![])
        },
        c03_case,
    ));
    v.extend(broad_subs(t.pick(4000, 40_000), 900, &[256, 257, 300, 1100, 65_535, 65_536, 65_537, 66_000], c03_broad));
    v
}
/// a factor of l symbols, in surroundings that depend on the form
fn long_factor(l: usize, form: usize) -> Vec<u8> {
    let mut z = (l * 6 + form) as u64;
    let mut next = || {
        z = z.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (z >> 40) as u8
    };
    let mut noise = |n: usize, lo: u8, hi: u8| -> Vec<u8> { (0..n).map(|_| lo + next() % (hi - lo)).collect() };
    let mut f = vec![20u8];
    f.extend(noise(l - 1, 21, 250));
    match form {
        0 => f,
        // larger factors before
        1 => [vec![30], noise(l / 2, 31, 250), f].concat(),
        // smaller factors behind
        2 => [f, vec![10], noise(l / 2 + 1, 11, 250)].concat(),
        // factors of the same length
        3 => [f, vec![10], noise(l - 1, 11, 250)].concat(),
        // factors of one symbol around
        4 => [vec![255, 254, 254], f, vec![3, 2, 1, 0, 0]].concat(),
        // many factors, and the long one in two symbols only at its start
        _ => [noise(40, 20, 250), f, noise(40, 0, 20)].concat(),
    }
}
}

#[cfg(feature = "c04")]
mod c04 {
    use super::*;

fn c04_case(c: &Case, _: &mut Env) -> R {
    let t = &c.text;
    need(!t.is_empty())?;
    let got = call("duval", || core::duval(&t[..]))?;
    if t.len() <= 48 {
        // straight from the definition
        let mut s = 0;
        let mut prev: Option<&[u8]> = None;
        for &e in &got {
            ensure(e >= s && e < t.len(), || format!("ending positions {:?} are not increasing within the text", got))?;
            let w = &t[s..=e];
            ensure(is_lyndon_naive(w), || format!("factor [{}] is no Lyndon word", brief_bytes(w)))?;
            if let Some(p) = prev {
                ensure(p >= w, || format!("factor [{}] is smaller than its successor [{}]", brief_bytes(p), brief_bytes(w)))?;
            }
            prev = Some(w);
            s = e + 1;
        }
        ensure(s == t.len(), || format!("the factors {:?} do not cover the text", got))?;
    }
    let want = lyndon_ends(t);
    same("ending positions by duval", &got, &want)?;
    let sa = suffix_array(t);
    let mut isa = vec![0i32; t.len()];
    for (r, &p) in sa.iter().enumerate() {
        isa[p] = r as i32;
    }
    let got = call("isa_lyndon_factorization", || core::isa_lyndon_factorization(&isa[..]))?;
    same("ending positions from the inverse suffix array", &got, &want)?;
    if t.len() <= 3000 {
        let w = wide(t);
        same("ending positions by duval on i64", &call("duval", || core::duval(&w[..]))?, &want)?;
        let r = rev(t);
        same("ending positions by duval in reverse order", &call("duval", || core::duval(&r[..]))?, &lyndon_ends(&r))?;
    }
    pass(want.len() >= 2 && want.len() < t.len())
}
fn c04_broad(c: &Case, _: &mut Env) -> R {
    let w = broad(c)?;
    let want = lyndon_ends(&w);
    same("ending positions by duval on u32", &call("duval", || core::duval(&w[..]))?, &want)?;
    let mut isa = vec![0i32; w.len()];
    for (r, &p) in suffix_array(&w).iter().enumerate() {
        isa[p] = r as i32;
    }
    same("ending positions from the inverse suffix array of u32", &call("isa_lyndon_factorization", || core::isa_lyndon_factorization(&isa[..]))?, &want)?;
    pass(w.len() >= 257)
}
pub fn c04(t: Tier) -> Vec<Sub> {
    let mut v = subs(
        Plan {
            ex: space(&[(b"ab", 1, t.pick(14, 18)), (&[0, 255], 1, t.pick(9, 12)), (b"abc", 1, t.pick(9, 11)), (&[0, 1, 128, 255], 1, t.pick(6, 8))]),
            n: t.pick(60_000, 1_500_000),
            max: 700,
            bytes: Bytes::All,
            sweep: t.pick(400, 2000),
            long: (t.pick(60, 1000), 5_000, 200_000),
            thr: t.pick(1_100_000, 4_200_000),
        },
        ["lib-exhaustive", "lib-random", "lib-lengths", "lib-long"],
        "library: Lyndon factorizations (two algorithms) against definition and reference",
        c04_case,
    );
    v.extend(broad_subs(t.pick(3000, 60_000), 900, &[256, 257, 300, 1100, 65_535, 65_536, 65_537, 70_000], c04_broad));
    v
}
}

#[cfg(feature = "c05")]
mod c05 {
    use super::*;

fn period_checks<T: Eq + Copy + std::fmt::Debug>(kind: &str, t: &[T]) -> Result<(usize, usize), Bad> {
    let n = t.len();
    let b = call("border_array", || core::border_array(t))?;
    same(&format!("length of the border table ({})", kind), &b.len(), &(n + 1))?;
    let want = if n <= 24 { borders_naive(t) } else { borders(t) };
    same(&format!("border table ({})", kind), &b[1..].to_vec(), &want[1..].to_vec())?;
    let p = call("smallest_period", || core::smallest_period(&b[..]))?;
    let least = if n <= 64 { least_period_naive(t) } else { n - want[n] };
    same(&format!("smallest period ({})", kind), &p, &least)?;
    let prim = call("is_primitive", || core::is_primitive(t))?;
    // a repetition of a shorter sequence
    let rep = (1..n).any(|d| n % d == 0 && (if n <= 64 { (d..n).all(|i| t[i] == t[i - d]) } else { t[d..] == t[..n - d] }));
    same(&format!("primitivity ({})", kind), &prim, &!rep)?;
    Ok((want[n], least))
}
/// a byte of which the value modulo 64 counts; nothing but comparing for equality can be done with it
#[derive(Clone, Copy, Debug)]
struct Coarse(u8);
impl PartialEq for Coarse {
    fn eq(&self, o: &Coarse) -> bool {
        self.0 % 64 == o.0 % 64
    }
}
impl Eq for Coarse {}
fn c05_broad(c: &Case, _: &mut Env) -> R {
    let w = broad(c)?;
    let (b, _) = period_checks("u32", &w)?;
    pass(b > 0)
}
fn c05_case(c: &Case, _: &mut Env) -> R {
    let t = &c.text;
    need(!t.is_empty())?;
    let (b, p) = period_checks("bytes", t)?;
    if t.len() <= 2000 {
        let v: Vec<String> = t.iter().take(300).map(|x| format!("{:?}", *x as char)).collect();
        let v: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
        period_checks("strings", &v)?;
    }
    if t.len() <= 2000 {
        let v: Vec<Coarse> = t.iter().enumerate().map(|(i, &x)| Coarse(x.wrapping_add((c.num(0).wrapping_add(i as u64 * i as u64 / 3) as u8) << 6))).collect();
        period_checks("bytes modulo 64", &v)?;
        let v: Vec<(u64, Coarse)> = v.into_iter().map(|x| (x.0 as u64 % 64 * 3_000_000_019, x)).collect();
        period_checks("pairs", &v)?;
        period_checks("nothing", &vec![(); t.len()])?;
    }
    let mut l = vec![];
    if t.len() > 1 && t.len() % p == 0 && p < t.len() {
        l.push("not primitive");
    }
    if b > 0 {
        l.push("has a border");
    }
    pass_l(b > 0, l)
}
/// words rich in nested borders, the hard case of failure functions
fn bordered() -> BoxedStrategy<Vec<u8>> {
    (vec(any::<u8>(), 1..6), vec((0u8..4, any::<u8>()), 1..9), 1usize..1500)
        .prop_map(|(w, ops, cap)| {
            let mut t: Vec<u8> = w.iter().map(|x| b'a' + x % 2).collect();
            for (op, x) in ops {
                let mut u = t.clone();
                match op {
                    0 => u.extend_from_slice(&t),
                    1 => {
                        u.push(b'a' + x % 3);
                        u.extend_from_slice(&t);
                    }
                    2 => {
                        let k = x as usize % (t.len() + 1);
                        u.extend_from_slice(&t[..k]);
                    }
                    _ => {
                        let k = x as usize % (t.len() + 1);
                        u.extend_from_slice(&t[k..]);
                        u.extend_from_slice(&t);
                    }
                }
                if u.len() > cap {
                    break;
                }
                t = u;
            }
            t
        })
        .boxed()
}
pub fn c05(t: Tier) -> Vec<Sub> {
    let mut v = subs(
        Plan {
            ex: space(&[(b"ab", 1, t.pick(14, 18)), (b"abc", 1, t.pick(9, 11)), (&[0, 1, 128, 255], 1, t.pick(6, 8))]),
            n: t.pick(480000, 1_500_000),
            max: 900,
            bytes: Bytes::All,
            sweep: t.pick(1000, 2000),
            long: (t.pick(400, 1500), 5_000, 200_000),
            thr: t.pick(1_100_000, 4_200_000),
        },
        ["lib-exhaustive", "lib-random", "lib-lengths", "lib-long"],
        "border table, smallest period, primitivity against naive definition and Z-function",
        c05_case,
    );
    v.push(sub_gen("lib-bordered", "same, words with nested borders", true, t.pick(320000, 800_000), || case_text(bordered()), c05_case));
    v.extend(broad_subs(t.pick(8000, 80_000), 1500, &[256, 257, 300, 1100, 65_535, 65_536, 65_537, 140_000], c05_broad));
    v
}
}

#[cfg(feature = "c06")]
mod c06 {
    use super::*;

fn c06_case(c: &Case, _: &mut Env) -> R {
    let t = &c.text;
    need(!t.is_empty())?;
    let n = t.len();
    let l = least_rotation(t);
    let least = rotate(t, l);
    if n <= 40 {
        let min = (0..n).map(|i| rotate(t, i)).min().unwrap();
        if min != least {
            return Err(Bad::Abort("the reference least rotation is wrong".into()));
        }
    }
    let s = call("lyndon_conjugate", || core::lyndon_conjugate(&t[..]))?;
    ensure(s < n, || format!("the start {} of the least rotation is no position of the text", s))?;
    same_bytes(&format!("rotation by the computed start {}", s), &rotate(t, s), &least)?;
    if n <= 3000 {
        let w = wide(t);
        let s = call("lyndon_conjugate on i64", || core::lyndon_conjugate(&w[..]))?;
        ensure(s < n && rotate(&w, s) == wide(&least), || format!("lyndon_conjugate on i64 gives {}", s))?;
        let r = rev(t);
        let s = call("lyndon_conjugate in reverse order", || core::lyndon_conjugate(&r[..]))?;
        ensure(s < n && rotate(&r, s) == rotate(&r, least_rotation(&r)), || format!("lyndon_conjugate in reverse order gives {}", s))?;
    }
    if n <= 300 {
        let all = call("ConjugateIterator", || core::ConjugateIterator::new(&t[..]).take(n + 2).collect::<Vec<_>>())?;
        same("number of conjugates", &all.len(), &n)?;
        for (i, r) in all.iter().enumerate() {
            same_bytes(&format!("conjugate {}", i), r, &rotate(t, i))?;
        }
        if n <= 60 {
            let x = c.hash64();
            iterator_use("ConjugateIterator", &all, &x.to_le_bytes()[..x as usize % 8], || core::ConjugateIterator::new(&t[..]))?;
        }
        if n <= 40 {
            let w = wide(t);
            let mut it = core::ConjugateIterator::new(&w[..]);
            for i in 0..n {
                same(&format!("conjugate {} on i64", i), &it.next(), &Some(rotate(&w, i)))?;
            }
            same("conjugates after the last", &it.next(), &None)?;
            same("conjugates after the end", &it.next(), &None)?;
        }
    }
    // necklace test on every prefix, or on chosen ones
    let lens: Vec<usize> = if n <= 24 { (1..=n).collect() } else { vec![n, 1 + c.num(0) as usize % n, n - 1, n / 2] };
    let dq: VecDeque<u8> = {
        // a rotated ring buffer with the same contents
        let k = c.num(0) as usize % n;
        let mut d: VecDeque<u8> = VecDeque::with_capacity(n);
        for &b in &t[..k] {
            d.push_back(b);
        }
        for _ in 0..k {
            d.pop_front();
        }
        d.extend(t.iter());
        d
    };
    let mut accepted = 0;
    for m in lens {
        if m == 0 {
            continue;
        }
        let p = &t[..m];
        // by definition for short prefixes
        let neck = if m <= 24 { (0..m).all(|i| p <= &rotate(p, i)[..]) } else { is_necklace_def(p) };
        // a prefix of a necklace: all suffixes are at least the prefix of the same length
        let pre = if m <= 64 {
            (1..m).all(|i| p[i..] >= p[..m - i])
        } else {
            let z = zfunc(p);
            (1..m).all(|i| i + z[i] == m || p[i + z[i]] > p[z[i]])
        };
        let a = call("is_necklace", || word::is_necklace(&t[..], m))?;
        let d = call("is_necklace on a deque", || word::is_necklace(&dq, m))?;
        same(&format!("is_necklace on a slice and on a deque, first {} symbols", m), &a, &d)?;
        if m < n {
            let own = p.to_vec();
            let o = call("is_necklace", || word::is_necklace(&own[..], m))?;
            same(&format!("is_necklace with and without symbols after the first {}", m), &a, &o)?;
        }
        if neck {
            ensure(a, || format!("the first {} symbols are a necklace but were rejected", m))?;
            accepted += 1;
        }
        if a {
            ensure(pre, || format!("the first {} symbols were accepted but are no prefix of a necklace", m))?;
        }
    }
    pass_l(distinct(t) >= 2, if accepted > 1 { vec!["several necklace prefixes"] } else { vec![] })
}
fn c06_broad(c: &Case, _: &mut Env) -> R {
    let w = broad(c)?;
    let n = w.len();
    let least = rotate(&w, least_rotation(&w));
    let s = call("lyndon_conjugate on u32", || core::lyndon_conjugate(&w[..]))?;
    ensure(s < n && rotate(&w, s) == least, || format!("lyndon_conjugate on u32 gives {}", s))?;
    pass(n >= 257)
}
pub fn c06(t: Tier) -> Vec<Sub> {
    let mut v = subs(
        Plan {
            ex: space(&[(b"ab", 1, t.pick(13, 17)), (&[0, 255], 1, t.pick(9, 12)), (b"abc", 1, t.pick(8, 11)), (&[0, 1, 128, 255], 1, t.pick(6, 8))]),
            n: t.pick(400000, 1_200_000),
            max: 500,
            bytes: Bytes::All,
            sweep: t.pick(600, 1500),
            long: (t.pick(240, 1000), 5_000, 150_000),
            thr: t.pick(1_100_000, 4_200_000),
        },
        ["lib-exhaustive", "lib-random", "lib-lengths", "lib-long"],
        "least rotation, conjugate iterator, necklace test against brute force and two-pointer reference",
        c06_case,
    );
    v.push(sub_gen(
        "lib-necklaces",
        "same on least rotations, their powers, prefixes of powers, and one-symbol edits of them",
        true,
        t.pick(320000, 800_000),
        || {
            (text(1, 60, Bytes::All), 1usize..5, any::<u16>(), any::<bool>(), any::<bool>(), 0u64..1000).prop_map(|(t, e, x, edit, cut, s)| {
                let r = rotate(&t, least_rotation(&t));
                let mut p: Vec<u8> = r.iter().copied().cycle().take(r.len() * e).collect();
                if cut {
                    p.truncate(p.len() - x as usize % r.len());
                }
                if edit {
                    let i = x as usize % p.len();
                    p[i] = p[i].wrapping_add(if x & 1 == 0 { 1 } else { 255 });
                }
                Case::new(p, vec![], vec![s])
            })
        },
        c06_case,
    ));
    v.extend(broad_subs(t.pick(8000, 80_000), 1500, &[256, 257, 300, 1100, 65_535, 65_536, 65_537, 140_000], c06_broad));
    v
}
}

#[cfg(feature = "c07")]
mod c07 {
    use super::*;

fn c07_case(c: &Case, _: &mut Env) -> R {
    let t = &c.text;
    need(!t.is_empty())?;
    let n = t.len();
    let sa = suffix_array(t);
    if n <= 1200 || c.num(1) == 1 {
        let got = call("suffixarray_naive", || core::suffixarray_naive(&t[..]))?;
        same("naive suffix array", &got, &sa)?;
        if n <= 40_000 {
            let w = wide(t);
            same("naive suffix array on i64", &call("suffixarray_naive", || core::suffixarray_naive(&w[..]))?, &sa)?;
            let r = rev(t);
            same("naive suffix array in reverse order", &call("suffixarray_naive", || core::suffixarray_naive(&r[..]))?, &suffix_array(&r))?;
        }
    }
    let mut isa = vec![0usize; n];
    let mut phi = vec![0usize; n];
    for (r, &p) in sa.iter().enumerate() {
        isa[p] = r;
        phi[p] = sa[(r + n - 1) % n];
    }
    let sa32: Vec<i32> = sa.iter().map(|&x| x as i32).collect();
    let to32 = |v: &[usize]| v.iter().map(|&x| x as i32).collect::<Vec<i32>>();
    same("inverse suffix array", &call("inverse_permutation", || core::inverse_permutation(&sa32[..]))?, &to32(&isa))?;
    same("inverse of the inverse", &call("inverse_permutation", || core::inverse_permutation(&to32(&isa)[..]))?, &sa32)?;
    same("inverse suffix array (usize)", &call("inverse_permutation", || core::inverse_permutation(&sa[..]))?, &isa)?;
    let p = call("compute_phi", || core::compute_phi(&sa32[..]))?;
    same("Phi", &p, &to32(&phi))?;
    same("Phi (usize)", &call("compute_phi", || core::compute_phi(&sa[..]))?, &phi)?;
    let plcp = call("compute_plcp", || core::compute_plcp(&t[..], &to32(&phi)[..]))?;
    let lcp = lcp_array(t, &sa);
    let want: Vec<u32> = (0..n).map(|i| lcp[isa[i]] as u32).collect();
    same("PLCP", &plcp, &want)?;
    let l = call("compute_lcp", || core::compute_lcp(&want[..], &sa32[..]))?;
    same("LCP", &l, &lcp.iter().map(|&x| x as u32).collect::<Vec<u32>>())?;
    let b = call("bwt_from_sa", || core::bwt_from_sa(&t[..], &sa[..]))?;
    same_bytes("BWT from the suffix array", &b, &suffix_bwt(t))?;
    if n <= 300 {
        // an arbitrary permutation, too
        let mut perm: Vec<u32> = (0..n as u32).collect();
        let mut r = Mix(c.num(0) ^ n as u64);
        for i in (1..n).rev() {
            perm.swap(i, r.below(i + 1));
        }
        let inv = call("inverse_permutation", || core::inverse_permutation(&perm[..]))?;
        for i in 0..n {
            same("inverse of a random permutation", &inv[perm[i] as usize], &(i as u32))?;
        }
    }
    pass_l(lcp.iter().any(|&x| x > 0), if t.last() == Some(&0) { vec!["terminated"] } else { vec![] })
}
fn c07_broad(c: &Case, _: &mut Env) -> R {
    let w = broad(c)?;
    // repetitive ones take quadratic time
    need(w.len() <= 1500 || c.num(0) < 3)?;
    let sa = suffix_array(&w);
    same("naive suffix array on u32", &call("suffixarray_naive", || core::suffixarray_naive(&w[..]))?, &sa)?;
    same("BWT from the suffix array on u32", &call("bwt_from_sa", || core::bwt_from_sa(&w[..], &sa[..]))?, &suffix_bwt(&w))?;
    pass(w.len() >= 257)
}
pub fn c07(t: Tier) -> Vec<Sub> {
    let mut v = subs(
        Plan {
            ex: space(&[(b"ab", 1, t.pick(13, 17)), (&[0, 255], 1, t.pick(10, 13)), (b"abc", 1, t.pick(8, 10)), (&[0, 1, 128, 255], 1, t.pick(6, 8))]),
            n: t.pick(120000, 900_000),
            max: 700,
            bytes: Bytes::All,
            sweep: t.pick(800, 1500),
            long: (t.pick(240, 1000), 5_000, 150_000),
            thr: t.pick(1_100_000, 4_200_000),
        },
        ["lib-exhaustive", "lib-random", "lib-lengths", "lib-long"],
        "suffix array, inverse, Phi, PLCP, LCP, BWT against naive definition and prefix doubling + Kasai",
        c07_case,
    );
    let sizes = t.pick(vec![2_000, 5_000, 20_001, 33_000], vec![2_000, 5_000, 9_000, 17_000, 20_001, 33_000, 66_000]);
    v.push(sub_enum(
        "lib-long-prefixes",
        "same, also the naive suffix array on long texts, with suffixes that share very long prefixes",
        true,
        sizes.len() as u64 * 5 + 1,
        move |i| {
            let t = match sizes.get(i as usize / 5) {
                Some(&n) => long_prefixes(n, i as usize % 5),
                None => long_prefixes(200_000, 3),
            };
            Case::new(t, vec![], vec![i, 1])
        },
        c07_case,
    ));
    v.push(sub_gen(
        "lib-terminated",
        "same on texts with a terminating zero byte",
        true,
        t.pick(60000, 400_000),
        || {
            (text(0, 500, Bytes::NonZero), 0u64..1000).prop_map(|(mut t, s)| {
                t.push(0);
                Case::new(t, vec![], vec![s])
            })
        },
        c07_case,
    ));
    v.extend(broad_subs(t.pick(3000, 60_000), 900, &[256, 257, 300, 1100, 65_535, 65_536, 65_537, 70_000], c07_broad));
    v
}
}

#[cfg(feature = "c08")]
mod c08 {
    use super::*;

fn c08_check<T: Ord + std::fmt::Debug>(kind: &str, a: &[T]) -> Result<(), Bad> {
    let n = a.len();
    let p = call("compute_psv", || core::compute_psv(a))?;
    let s = call("compute_nsv", || core::compute_nsv(a))?;
    same(&format!("length of PSV ({})", kind), &p.len(), &n)?;
    same(&format!("length of NSV ({})", kind), &s.len(), &n)?;
    let inv = core::INVALID_VALUE;
    if n <= 64 {
        for i in 0..n {
            let want = (0..i).rev().find(|&j| a[j] < a[i]).map(|j| j as u32).unwrap_or(inv);
            ensure(p[i] == want, || format!("PSV[{}] ({}) is {}, expected {}", i, kind, p[i], want))?;
            let want = (i + 1..n).find(|&j| a[j] < a[i]).map(|j| j as u32).unwrap_or(inv);
            ensure(s[i] == want, || format!("NSV[{}] ({}) is {}, expected {}", i, kind, s[i], want))?;
        }
        return Ok(());
    }
    // monotone stacks
    let mut st: Vec<usize> = vec![];
    for i in 0..n {
        while st.last().is_some_and(|&j| a[j] >= a[i]) {
            st.pop();
        }
        let want = st.last().map(|&j| j as u32).unwrap_or(inv);
        ensure(p[i] == want, || format!("PSV[{}] ({}) is {}, expected {}", i, kind, p[i], want))?;
        st.push(i);
    }
    st.clear();
    for i in (0..n).rev() {
        while st.last().is_some_and(|&j| a[j] >= a[i]) {
            st.pop();
        }
        let want = st.last().map(|&j| j as u32).unwrap_or(inv);
        ensure(s[i] == want, || format!("NSV[{}] ({}) is {}, expected {}", i, kind, s[i], want))?;
        st.push(i);
    }
    Ok(())
}
/// arrays of large values: the case's numbers describe segments (kind, length, value)
fn c08_chains(c: &Case, _: &mut Env) -> R {
    let mut a: Vec<u32> = vec![];
    for s in c.nums.chunks(3) {
        let [kind, len, x] = s[..] else { break };
        let last = a.last().copied().unwrap_or(1 << 30) as i64;
        let mut m = Mix(x);
        for i in 0..len as i64 {
            let i = i + 1;
            let v = match kind {
                0 => last + i,
                1 => last - i,
                2 => last,
                3 => x as i64,
                4 => last + 2 * i - 5 * (i % 2),
                5 => last - 2 * i + 5 * (i % 2),
                6 => m.below(1 << 31) as i64,
                // drop below a part of what has been collected
                _ => a.get(x as usize % a.len().max(1)).copied().unwrap_or(7) as i64 - (i % 3),
            };
            a.push(v.clamp(0, u32::MAX as i64) as u32);
        }
    }
    need(!a.is_empty() && a.len() <= 3_000_000)?;
    c08_check("u32", &a)?;
    if a.len() <= 100_000 {
        let w: Vec<usize> = a.iter().map(|&x| x as usize).collect();
        c08_check("usize", &w)?;
        let r: Vec<Reverse<u32>> = a.iter().map(|&x| Reverse(x)).collect();
        c08_check("reverse order of u32", &r)?;
        let f: Vec<(u32, u8)> = a.iter().enumerate().map(|(i, &x)| (x / 3, (i % 2) as u8)).collect();
        c08_check("pairs", &f)?;
    }
    pass_l(a.len() >= 100, vec![["up to 1000", "up to 2^16", "up to 2^20", "more"][(a.len() > 1000) as usize + (a.len() > 65536) as usize + (a.len() > 1 << 20) as usize]])
}
fn c08_case(c: &Case, _: &mut Env) -> R {
    let t = &c.text;
    need(!t.is_empty())?;
    c08_check("bytes", t)?;
    if t.len() <= 3000 {
        c08_check("i64", &wide(t))?;
        c08_check("reverse order", &rev(t))?;
        let v: Vec<String> = t.iter().take(100).map(|b| b.to_string()).collect();
        c08_check("strings", &v)?;
    }
    // permutations
    if t.len() <= 400 {
        let mut perm: Vec<i32> = (0..t.len() as i32).collect();
        let mut r = Mix(c.hash64());
        for i in (1..perm.len()).rev() {
            perm.swap(i, r.below(i + 1));
        }
        c08_check("permutation", &perm)?;
    }
    let dup = distinct(t) < t.len();
    pass_l(distinct(t) >= 2 && t.len() >= 3, if dup { vec!["has duplicates"] } else { vec![] })
}
fn c08_broad(c: &Case, _: &mut Env) -> R {
    let w = broad(c)?;
    c08_check("u32", &w)?;
    c08_check("i8", &w.iter().map(|&x| x as i8).collect::<Vec<i8>>())?;
    c08_check("i16", &w.iter().map(|&x| (x >> 7) as i16).collect::<Vec<i16>>())?;
    c08_check("u128", &w.iter().map(|&x| (x as u128) << 77 | x as u128 / 2).collect::<Vec<u128>>())?;
    pass(w.len() >= 257)
}
pub fn c08(t: Tier) -> Vec<Sub> {
    let mut v = subs(
        Plan {
            ex: space(&[(&[0, 1], 1, t.pick(12, 16)), (&[0, 1, 2], 1, t.pick(9, 11)), (&[0, 1, 2, 3, 4], 1, t.pick(6, 8))]),
            n: t.pick(360000, 1_500_000),
            max: 700,
            bytes: Bytes::All,
            sweep: t.pick(1000, 2000),
            long: (t.pick(240, 800), 5_000, 200_000),
            thr: t.pick(1_100_000, 4_200_000),
        },
        ["lib-exhaustive", "lib-random", "lib-lengths", "lib-long"],
        "nearest smaller values against linear search and monotone stacks",
        c08_case,
    );
    v.push(sub_gen(
        "lib-chains",
        "same on long staircases, sawtooths, plateaus and drops of 32-bit values",
        true,
        t.pick(6000, 30_000),
        || {
            let len = prop_oneof![4 => 1u64..10, 4 => 1u64..2000, 2 => 2000u64..20_000, 1 => 20_000u64..80_000];
            let value = prop_oneof![3 => any::<u64>().prop_map(|x| x % (1 << 31)), 1 => Just(0u64), 1 => Just(u32::MAX as u64)];
            vec((0u64..8, len, value), 1..12).prop_map(|s| Case::new(vec![], vec![], s.into_iter().flat_map(|(a, b, c)| [a, b, c]).collect()))
        },
        c08_chains,
    ));
    v.push(sub_enum(
        "lib-staircases",
        "same, one staircase whose length is a power of two or a neighbour, then a drop below all or half of it, both ways",
        true,
        4 * threshold_sizes(t.pick(1_100_000, 4_200_000)).len() as u64,
        move |i| {
            let l = threshold_sizes(t.pick(1_100_000, 4_200_000))[i as usize / 4] as u64;
            let (k, x) = [(0, 0), (0, l / 2), (1, 0), (5, l / 2)][i as usize % 4];
            Case::new(vec![], vec![], if k == 0 { vec![k, l, 0, 7, 2, x, 3, 1, 5] } else { vec![3, 1, 5, k, l, 0, 7, 2, x] })
        },
        c08_chains,
    ));
    v.push(sub_gen(
        "lib-shapes",
        "same on mountains, staircases and plateaus",
        true,
        t.pick(240000, 800_000),
        || {
            vec((0u8..6, any::<u8>(), 1usize..20), 1..20).prop_map(|segs| {
                let mut t: Vec<u8> = vec![];
                let mut cur = 100u8;
                for (k, d, l) in segs {
                    for _ in 0..l {
                        cur = match k {
                            0 => cur.saturating_add(1),
                            1 => cur.saturating_sub(1),
                            2 => cur,
                            3 => cur.saturating_add(d % 7),
                            4 => cur.saturating_sub(d % 7),
                            _ => d,
                        };
                        t.push(cur);
                    }
                }
                Case::text(t)
            })
        },
        c08_case,
    ));
    v.extend(broad_subs(t.pick(8000, 80_000), 1500, &[256, 257, 300, 1100, 65_535, 65_536, 65_537, 140_000], c08_broad));
    v
}
}

#[cfg(feature = "c14")]
mod c14 {
    use super::*;

/// a reader that hands out the bytes in the given chunk sizes
struct Chunks<'a> {
    t: &'a [u8],
    sizes: Vec<usize>,
    k: usize,
}
impl std::io::Read for Chunks<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let want = self.sizes[self.k % self.sizes.len()].max(1);
        self.k += 1;
        let n = want.min(buf.len()).min(self.t.len());
        buf[..n].copy_from_slice(&self.t[..n]);
        self.t = &self.t[n..];
        Ok(n)
    }
}
fn c14_case(c: &Case, _: &mut Env) -> R {
    let t = &c.text;
    let want = run_lengths(t).len();
    let got = call("number_of_runs", || core::number_of_runs(&mut &t[..]))?;
    same("number of runs", &got, &want)?;
    let got = call("number_of_runs", || core::number_of_runs(&mut std::io::Cursor::new(t.clone())))?;
    same("number of runs", &got, &want)?;
    let x = c.num(0) as usize;
    let got = call("number_of_runs on chunks", || {
        core::number_of_runs(&mut std::io::BufReader::with_capacity(1 + x % 50, Chunks { t, sizes: vec![1 + x % 7, 1 + x % 64, 1], k: 0 }))
    })?;
    same("number of runs read in chunks", &got, &want)?;
    pass(want >= 2 && want < t.len())
}
pub fn c14(t: Tier) -> Vec<Sub> {
    let mut v = subs(
        Plan {
            ex: space(&[(&[0, 255], 0, t.pick(12, 16)), (b"abc", 1, t.pick(8, 11)), (&[0, 10, 128, 255], 1, t.pick(6, 8))]),
            n: t.pick(60_000, 1_200_000),
            max: 2000,
            bytes: Bytes::All,
            sweep: t.pick(400, 2000),
            long: (t.pick(60, 800), 5_000, 400_000),
            thr: t.pick(1_100_000, 4_200_000),
        },
        ["lib-exhaustive", "lib-random", "lib-lengths", "lib-long"],
        "library: number of runs of a reader",
        c14_case,
    );
    v.push(sub_enum("lib-bytes", "all pairs of byte values", true, 65536, |i| Case::new(vec![(i / 256) as u8, (i % 256) as u8], vec![], vec![i]), c14_case));
    v
}
}

#[cfg(any(feature = "c20", feature = "c21", feature = "c22"))]
mod c20 {
    use super::*;

type Word = fn(u8) -> Vec<u8>;
pub fn word_fn(name: &str) -> Word {
    match name {
        "fibonacci" => word::fibonacci_word,
        "fibonacci-lyndon-factor" => word::fibonacci_lyndonfactor,
        "tribonacci" => word::tribonacci_word,
        "kolakoski" => word::kolakoski_word,
        "thue-morse" => word::thuemorse_word,
        "period-doubling" => word::period_doubling_word,
        "paper-folding" => word::paperfolding_word,
        "quaternary-paper-folding" => word::quaternary_paperfolding_word,
        "binary-de-brujin" => word::binary_debruijn_word,
        "power2" => word::power2_sequence,
        _ => word::vtm_word,
    }
}
/// one sub-check per generator: all orders up to a bound
fn word_sub(name: &'static str, orders: u64) -> Sub {
    sub_enum(
        name,
        "library: all orders up to the bound (nums[0])",
        true,
        orders,
        |i| Case::nums(vec![i]),
        move |c, _| {
            let k = c.num(0) as u8;
            let w = call(name, || word_fn(name)(k))?;
            vcore::words::check(name, k, &w)?;
            pass(k >= 2)
        },
    )
}
fn number_sub(name: &'static str, orders: u64, f: fn(u8) -> usize, terms: usize) -> Sub {
    sub_enum(
        name,
        "the number function for every order whose value fits 64 bits",
        true,
        orders,
        |i| Case::nums(vec![i]),
        move |c, _| {
            let k = c.num(0) as usize;
            // |w_0| = 1, |w_1| = 2 (and |w_2| = 4): sums of the previous terms
            let mut v: Vec<u128> = if terms == 2 { vec![1, 2] } else { vec![1, 2, 4] };
            while v.len() <= k {
                let n = v.len();
                v.push(v[n - terms..].iter().sum());
            }
            if v[k] > u64::MAX as u128 {
                return Err(Bad::Discard);
            }
            let got = call(name, || f(k as u8))?;
            same(&format!("{}({})", name, k), &(got as u128), &v[k])?;
            pass(k >= 2)
        },
    )
}

pub fn c20(t: Tier) -> Vec<Sub> {
    vec![
        word_sub("fibonacci", t.pick(40, 42)),
        word_sub("tribonacci", t.pick(30, 32)),
        word_sub("vtm", t.pick(29, 31)),
        word_sub("fibonacci-lyndon-factor", t.pick(20, 21)),
        word_sub("kolakoski", t.pick(44, 46)),
        number_sub("fibonacci_number", 120, word::fibonacci_number, 2),
        number_sub("tribonacci_number", 120, word::tribonacci_number, 3),
    ]
}
pub fn c21(t: Tier) -> Vec<Sub> {
    vec![
        word_sub("thue-morse", t.pick(29, 31)),
        word_sub("period-doubling", t.pick(29, 31)),
        word_sub("paper-folding", t.pick(28, 30)),
        word_sub("quaternary-paper-folding", t.pick(29, 31)),
        word_sub("power2", t.pick(29, 31)),
    ]
}
pub fn c22(t: Tier) -> Vec<Sub> {
    vec![word_sub("binary-de-brujin", t.pick(24, 25))]
}
}

/// an iterator used by a script of operations, a second one in between, against the list of its items
#[cfg(any(feature = "c06", feature = "c23"))]
pub(crate) fn iterator_use<T: PartialEq + std::fmt::Debug + Clone, I: Iterator<Item = T>>(what: &str, want: &[T], script: &[u8], new: impl Fn() -> I) -> Result<(), Bad> {
    call(what, || {
        let mut its = [(new(), 0usize), (new(), 0usize)];
        for (i, &b) in script.iter().enumerate() {
            let (it, at) = &mut its[(b >> 7) as usize];
            let x = (b >> 3 & 15) as usize;
            let k = if x < 12 { x } else { x * want.len() / 12 };
            let left = &want[(*at).min(want.len())..];
            let here = || format!("{}, operation {} of the script {:?}", what, i, script);
            match b & 7 {
                0 | 1 => {
                    same(&format!("{}: next", here()), &it.next(), &left.first().cloned())?;
                    *at += 1;
                }
                2 => {
                    same(&format!("{}: nth({})", here(), k), &it.nth(k), &left.get(k).cloned())?;
                    *at += k + 1;
                }
                3 => {
                    let got: Vec<T> = it.by_ref().take(k).collect();
                    same(&format!("{}: take({})", here(), k), &&got[..], &&left[..k.min(left.len())])?;
                    *at += k;
                }
                4 => {
                    let (lo, hi) = it.size_hint();
                    ensure(lo <= left.len() && hi.is_none_or(|h| h >= left.len()), || format!("{}: size_hint gives {:?} with {} items left", here(), (lo, hi), left.len()))?;
                }
                5 => {
                    let got: Vec<T> = it.by_ref().skip(k).step_by(1 + x % 3).take(3).collect();
                    let mut ends: Vec<usize> = vec![];
                    let mut j = k;
                    while ends.len() < 3 && j < left.len() {
                        ends.push(j);
                        j += 1 + x % 3;
                    }
                    same(&format!("{}: skip({}).step_by({}).take(3)", here(), k, 1 + x % 3), &got, &ends.iter().map(|&j| left[j].clone()).collect::<Vec<_>>())?;
                    *at = if ends.len() == 3 { *at + ends[2] + 1 } else { want.len() };
                }
                6 => {
                    let got = it.by_ref().fold(0, |n, _| n + 1);
                    same(&format!("{}: fold", here()), &got, &left.len())?;
                    *at = want.len();
                }
                _ => {
                    let mut j = 0;
                    let got = it.find(|_| {
                        j += 1;
                        j > k
                    });
                    same(&format!("{}: find", here()), &got, &left.get(k).cloned())?;
                    *at = if k < left.len() { *at + k + 1 } else { want.len() };
                }
            }
        }
        let [(a, i), (b, j)] = its;
        let (i, j) = (i.min(want.len()), j.min(want.len()));
        same(&format!("{}: last after the script {:?}", what, script), &a.last(), &want[i..].last().cloned())?;
        same(&format!("{}: count after the script {:?}", what, script), &b.count(), &(want.len() - j))
    })?
}

#[cfg(feature = "c23")]
mod c23 {
    use super::*;

fn c23_lyndon(c: &Case, _: &mut Env) -> R {
    let (n, s) = (c.num(0) as usize, c.num(1) as usize);
    need(n >= 1 && s >= 1)?;
    let want = vcore::words::lyndon_words(n, s);
    let limit = want.len() + 2;
    let got = call("LyndonWordGenerator", || {
        let mut it = core::LyndonWordGenerator::new(n, s);
        let mut v = vec![];
        while v.len() < limit {
            match it.next() {
                Some(w) => v.push(w),
                None => break,
            }
        }
        let again = if v.len() < limit { it.next() } else { None };
        (v, again)
    })?;
    for (i, (g, w)) in got.0.iter().zip(&want).enumerate() {
        same(&format!("Lyndon word {} for length {} over {} letters", i, n, s), g, w)?;
    }
    same(&format!("number of Lyndon words for length {} over {} letters", n, s), &got.0.len(), &want.len())?;
    same("an item after the end", &got.1, &None)?;
    pass(n >= 2 && s >= 2)
}
/// the first nums[2] words
fn c23_start(c: &Case, _: &mut Env) -> R {
    let (n, s, m) = (c.num(0) as usize, c.num(1) as usize, c.num(2) as usize);
    need(n >= 1 && (2..=256).contains(&s))?;
    let got = call("LyndonWordGenerator", || core::LyndonWordGenerator::new(n, s).take(m).collect::<Vec<_>>())?;
    let mut want = Some(vec![0u8]);
    for i in 0..m {
        same(&format!("Lyndon word {} for length {} over {} letters", i, n, s), &got.get(i), &want.as_ref())?;
        let Some(w) = want else { break };
        want = vcore::words::next_lyndon(&w, n, s);
    }
    pass(n >= 2)
}
fn c23_binary(c: &Case, _: &mut Env) -> R {
    let n = c.num(0) as usize;
    let total = if n < 40 { 1u64 << n } else { u64::MAX };
    let limit = total.min(c.num(1)) as usize;
    call("BinaryStringGenerator", || {
        let mut it = core::BinaryStringGenerator::new(n as u8);
        for i in 0..limit {
            let want: Vec<u8> = (0..n).rev().map(|b| if b < 64 && (i as u64) >> b & 1 == 1 { b'1' } else { b'0' }).collect();
            same(&format!("binary string {} of length {}", i, n), &it.next(), &Some(want))?;
        }
        if total == limit as u64 {
            same(&format!("item after all binary strings of length {}", n), &it.next(), &None)?;
            same(&format!("second item after all binary strings of length {}", n), &it.next(), &None)?;
        }
        Ok(())
    })??;
    pass(n >= 2)
}
/// the generators used in other ways than one item after the other
fn c23_use(c: &Case, _: &mut Env) -> R {
    let (n, s) = (1 + c.num(0) as usize % 7, 1 + c.num(1) as usize % 4);
    let words = vcore::words::lyndon_words(n, s);
    iterator_use("LyndonWordGenerator", &words, &c.aux, || core::LyndonWordGenerator::new(n, s))?;
    let l = c.num(0) as usize % 11;
    let strings: Vec<Vec<u8>> = (0..1usize << l).map(|i| (0..l).rev().map(|b| b'0' + (i >> b & 1) as u8).collect()).collect();
    iterator_use("BinaryStringGenerator", &strings, &c.aux, || core::BinaryStringGenerator::new(l as u8))?;
    pass(words.len() > 4)
}
pub fn c23(t: Tier) -> Vec<Sub> {
    let budget = t.pick(2_000_000f64, 8e6);
    let mut params = vec![];
    for s in (1..=30usize).chain([64, 100, 127, 128, 255, 256]) {
        for n in 1..=40usize {
            // number of words is about s^n / n
            let words: f64 = (1..=n).map(|l| (s as f64).powi(l as i32) / l as f64).sum();
            if words * n as f64 <= budget {
                params.push((n as u64, s as u64));
            }
        }
    }
    let p2 = params.clone();
    let mut lens: Vec<usize> = (1..=t.pick(140, 400)).collect();
    lens.extend(threshold_sizes(t.pick(66_000, 1_100_000)));
    let big = t.pick(22u64, 25);
    let cut = t.pick(70_000, 400_000);
    vec![
        sub_enum(
            "lib-lyndon",
            "Lyndon words of length up to nums[0] over nums[1] letters against a filter by definition or a prenecklace recursion",
            true,
            params.len() as u64,
            move |i| Case::nums(vec![p2[i as usize].0, p2[i as usize].1]),
            c23_lyndon,
        ),
        sub_enum(
            "lib-lyndon-start",
            "the first nums[2] Lyndon words of length up to nums[0], a power of two or a neighbour of it or any other, over nums[1] letters",
            true,
            lens.len() as u64 * 4,
            move |i| {
                let n = lens[i as usize / 4];
                Case::nums(vec![n as u64, [2, 3, 26, 256][i as usize % 4], (200_000 / n).clamp(8, 4000) as u64])
            },
            c23_start,
        ),
        sub_gen(
            "lib-use",
            "the generators used through nth, skip, step_by, take, last, count, fold and size_hint, two of them in turn",
            true,
            t.pick(20_000, 300_000),
            || (vec(any::<u8>(), 0..14), 0u64..80, 0u64..4).prop_map(|(a, n, s)| Case::new(vec![], a, vec![n, s])),
            c23_use,
        ),
        sub_enum("lib-binary", "all binary strings of length nums[0]", true, big + 1, |i| Case::nums(vec![i, u64::MAX]), c23_binary),
        sub_enum("lib-binary-long", "the first binary strings of larger lengths", true, 255 - big, move |i| Case::nums(vec![big + 1 + i, cut]), c23_binary),
    ]
}
}

#[cfg(feature = "c29")]
mod c29 {
    use super::*;

type Morphism = fn(u8) -> &'static [u8];
/// name, word, morphism, images of a, b, c, least order from which word(k+1) is the image of word(k)
fn table() -> Vec<(&'static str, fn(u8) -> Vec<u8>, Morphism, Vec<&'static [u8]>, u8)> {
    vec![
        ("fibonacci", word::fibonacci_word, word::fibonacci_morphism, vec![b"ab", b"a"], 40),
        ("tribonacci", word::tribonacci_word, word::tribonacci_morphism, vec![b"ab", b"ac", b"a"], 30),
        ("vtm", word::vtm_word, word::vtm_morphism, vec![b"abc", b"ac", b"b"], 28),
        ("fibonacci-lyndon-factor", word::fibonacci_lyndonfactor, word::fibonacci_lyndonfactor_morphism, vec![b"aab", b"ab"], 20),
        ("thue-morse", word::thuemorse_word, word::thuemorse_morphism, vec![b"ab", b"ba"], 28),
    ]
}
pub fn c29(t: Tier) -> Vec<Sub> {
    let less = t.pick(5u64, 1);
    let mut all = vec![];
    for (i, x) in table().iter().enumerate() {
        for k in 0..x.4 as u64 - less {
            all.push(vec![i as u64, k]);
        }
    }
    vec![
        sub_enum(
            "lib-images",
            "the images of all letters",
            true,
            5,
            |i| Case::nums(vec![i]),
            |c, _| {
                let x = &table()[c.num(0) as usize % 5];
                for (l, want) in x.3.iter().enumerate() {
                    let got = call("the morphism", || x.2(b'a' + l as u8))?;
                    same_bytes(&format!("image of {:?} under the {} morphism", (b'a' + l as u8) as char, x.0), got, want)?;
                }
                pass(true)
            },
        ),
        sub_enum(
            "lib-words",
            "the image of the word of order k is the word of order k+1; nums = [word, k]",
            true,
            all.len() as u64,
            move |i| Case::nums(all[i as usize].clone()),
            |c, _| {
                let x = &table()[c.num(0) as usize % 5];
                if c.num(1) >= x.4 as u64 {
                    return Err(Bad::Discard);
                }
                let k = c.num(1) as u8;
                let w = call("the word", || x.1(k))?;
                let next = call("the word", || x.1(k + 1))?;
                let mut at = 0;
                for (i, &ch) in w.iter().enumerate() {
                    let im = x.2(ch);
                    ensure(next.len() >= at + im.len() && next[at..at + im.len()] == *im, || {
                        format!("the image of symbol {} of the {} word of order {} is not in the word of order {} at {}", i, x.0, k, k + 1, at)
                    })?;
                    at += im.len();
                }
                same(&format!("length of the {} word of order {}", x.0, k + 1), &next.len(), &at)?;
                pass(k >= 2)
            },
        ),
    ]
}
}

pub fn stdin_session(_ops: &[String]) {
    #[cfg(feature = "c30")]
    c30::session(_ops);
}

#[cfg(feature = "c30")]
mod c30 {
    use super::*;
    use std::io::{Error, ErrorKind, Read, Write};
    use stringology::io;

/// a reader that hands out chunks, is interrupted now and then, and may fail at the end
struct Hostile<'a> {
    t: &'a [u8],
    sizes: &'a [u8],
    k: usize,
    end: Option<ErrorKind>,
    /// interruptions in a row, before anything else
    burst: usize,
}
impl Read for Hostile<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let s = if self.sizes.is_empty() { 8 } else { self.sizes[self.k % self.sizes.len()] };
        self.k += 1;
        // never twice in a row
        if s % 4 == 1 && self.k % 2 == 0 {
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        if self.t.is_empty() {
            if let (Some(e), false) = (self.end, buf.is_empty()) {
                return Err(Error::new(e, "injected"));
            }
        }
        if self.burst > 0 {
            self.burst -= 1;
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        let n = (1 + s as usize / 4).min(buf.len()).min(self.t.len());
        buf[..n].copy_from_slice(&self.t[..n]);
        self.t = &self.t[n..];
        Ok(n)
    }
}
const KINDS: [ErrorKind; 18] = [
    ErrorKind::Other,
    ErrorKind::PermissionDenied,
    ErrorKind::TimedOut,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidData,
    ErrorKind::WouldBlock,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::NotFound,
    ErrorKind::AlreadyExists,
    ErrorKind::InvalidInput,
    ErrorKind::WriteZero,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
    ErrorKind::IsADirectory,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::AddrInUse,
];
/// nums = [mode, prefix length]; aux: chunk sizes
fn readers(c: &Case, env: &mut Env) -> R {
    let t = &c.text;
    let h = |end| Hostile { t, sizes: &c.aux, k: 0, end, burst: if c.num(0) % 50 == 7 { 1 << (c.num(1) % 18) } else { 0 } };
    // bytes until the end, then None for good
    let (got, after) = call("next_char", || {
        let mut r = h(None);
        let mut v = vec![];
        while let Some(b) = io::next_char(&mut r) {
            v.push(b);
            if v.len() > t.len() {
                break;
            }
        }
        (v, [io::next_char(&mut r), io::next_char(&mut r)])
    })?;
    same_bytes("bytes delivered by next_char", &got, t)?;
    same("next_char after the end", &after, &[None, None])?;
    let (got, end) = call("read_char", || {
        let mut r = h(None);
        let mut v = vec![];
        loop {
            match io::read_char(&mut r) {
                Ok(b) => v.push(b),
                Err(e) if e.kind() == ErrorKind::Interrupted => continue,
                Err(e) => return (v, e.kind()),
            }
            if v.len() > t.len() {
                return (v, ErrorKind::Other);
            }
        }
    })?;
    same_bytes("bytes delivered by read_char", &got, t)?;
    same("read_char at the end", &end, &ErrorKind::UnexpectedEof)?;
    // a read error is no end
    let kind = KINDS[c.num(0) as usize % KINDS.len()];
    let mut r = h(Some(kind));
    let got = call("next_char before an error", || (0..t.len()).map(|_| io::next_char(&mut r)).collect::<Vec<_>>())?;
    same("bytes delivered by next_char before an error", &got, &t.iter().map(|&b| Some(b)).collect::<Vec<_>>())?;
    let got = refuses(|| io::next_char(&mut r));
    ensure(got.is_none(), || format!("next_char returns {:?} where the reader fails with {:?}", got, kind))?;
    let mut r = h(Some(kind));
    let mut last = Ok(0);
    for _ in 0..2 * (t.len() + r.burst) + 4 {
        last = io::read_char(&mut r);
        if last.as_ref().is_err_and(|e| e.kind() != ErrorKind::Interrupted) {
            break;
        }
    }
    same("error delivered by read_char", &last.map_err(|e| e.kind()), &Err(kind))?;
    let mut r = h(Some(kind));
    let got = refuses(|| core::number_of_runs(&mut r));
    ensure(got.is_none(), || format!("number_of_runs returns {:?} where the reader fails with {:?}", got, kind))?;
    same("number_of_runs of an interrupted reader", &call("number_of_runs", || core::number_of_runs(&mut h(None)))?, &run_lengths(t).len())?;

    // files
    let iof = |e: Error| Bad::Abort(format!("i/o error of the harness: {}", e));
    let path = env.dir.join("lib-in");
    std::fs::write(&path, t).map_err(iof)?;
    let name = path.to_str().unwrap();
    let n = t.len();
    let x = c.num(1) as usize;
    for p in [0, 1, x % (n + 2), n, n + 1, n.saturating_sub(1), usize::MAX, wide_number(c.num(0) + 1001 * c.num(1)) as usize] {
        let want = if p == 0 { &t[..] } else { &t[..p.min(n)] };
        let got = call("file2byte_vector", || io::file2byte_vector(name, p))?;
        same_bytes(&format!("file2byte_vector with prefix {}", p), &got, want)?;
        let got = call("file_or_stdin2byte_vector", || io::file_or_stdin2byte_vector(Some(name), p))?;
        same_bytes(&format!("file_or_stdin2byte_vector with prefix {}", p), &got, want)?;
    }
    let got = call("stream_or_stdin", || {
        let mut r = io::stream_or_stdin(Some(name));
        let mut v = vec![];
        let mut i = 0;
        loop {
            // bytes, small pieces, then the rest
            match i % 3 {
                0 => match io::next_char(&mut r) {
                    Some(b) => v.push(b),
                    None => break,
                },
                1 => {
                    let mut buf = vec![0; 1 + x % 5000];
                    let k = r.read(&mut buf).unwrap();
                    v.extend_from_slice(&buf[..k]);
                }
                _ if i > 20 => {
                    r.read_to_end(&mut v).unwrap();
                }
                _ => {}
            }
            i += 1;
        }
        v
    })?;
    same_bytes("bytes of stream_or_stdin", &got, t)?;
    // output: replaces what is there, receives everything
    let out = env.dir.join("lib-out");
    let _ = std::fs::remove_file(&out);
    if c.num(0) % 2 == 1 {
        std::fs::write(&out, vec![b'#'; n + 100]).map_err(iof)?;
    }
    call("stream_or_stdout", || {
        let mut w = io::stream_or_stdout(Some(out.to_str().unwrap()));
        let mut rest = &t[..];
        let mut i = 0;
        while !rest.is_empty() {
            let k = (1 + c.aux.get(i % c.aux.len().max(1)).copied().unwrap_or(30) as usize * (1 + i % 9)).min(rest.len());
            w.write_all(&rest[..k]).unwrap();
            rest = &rest[k..];
            i += 1;
        }
        w.flush().unwrap();
    })?;
    same_bytes("file written through stream_or_stdout", &std::fs::read(&out).map_err(|e| Bad::Fail(format!("no output file: {}", e)))?, t)?;
    let missing = env.dir.join("missing").join("file");
    let missing = missing.to_str().unwrap();
    ensure(refuses(|| io::file2byte_vector(missing, 0)).is_none(), || "file2byte_vector of a missing file returns".into())?;
    ensure(refuses(|| io::stream_or_stdin(Some(missing)).read(&mut [0; 4]).unwrap()).is_none(), || "stream_or_stdin of a missing file delivers".into())?;
    ensure(refuses(|| { let mut w = io::stream_or_stdout(Some(missing)); w.write_all(b"x").and_then(|_| w.flush()).unwrap() }).is_none(), || "stream_or_stdout into a missing directory succeeds".into())?;
    let dir = env.dir.to_str().unwrap();
    ensure(refuses(|| io::file2byte_vector(dir, 0)).is_none(), || "file2byte_vector of a directory returns".into())?;
    pass(n >= 2)
}
/// the process of a session: one read of the standard input per argument
pub fn session(ops: &[String]) {
    let mut out = std::io::stdout();
    for op in ops {
        let n: usize = op[1..].parse().unwrap();
        let v = match &op[..1] {
            "v" => io::stdin2byte_vector(n),
            "f" => io::file_or_stdin2byte_vector(None, n),
            "c" => {
                let mut r = io::stream_or_stdin(None);
                (0..n).map_while(|_| io::next_char(&mut r)).collect()
            }
            "r" => {
                let mut v = vec![];
                io::stream_or_stdin(None).take(n as u64).read_to_end(&mut v).unwrap();
                v
            }
            _ => core::number_of_runs(&mut io::stream_or_stdin(None)).to_string().into_bytes(),
        };
        out.write_all(format!("{}:", v.len()).as_bytes()).and_then(|_| out.write_all(&v)).unwrap();
    }
    out.flush().unwrap();
}
/// several reads of the standard input by one process; aux: operations, nums: lengths
fn sessions(c: &Case, env: &mut Env) -> R {
    let mut args = vec!["stdin-session".to_string()];
    let mut want = vec![];
    let mut rest = &c.text[..];
    let mut parts = 0;
    for (i, &a) in c.aux.iter().enumerate().take(12) {
        let n = c.num(i) as usize % (c.text.len() + 3);
        let op = (a % 8) as usize;
        let (k, v) = match op {
            7 => (rest.len(), run_lengths(rest).len().to_string().into_bytes()),
            0 | 1 if n == 0 => (rest.len(), rest.to_vec()),
            _ => (n.min(rest.len()), rest[..n.min(rest.len())].to_vec()),
        };
        args.push(format!("{}{}", ["v", "f", "c", "r", "v", "f", "c", "n"][op], if matches!(op, 4 | 5) { n.max(1) } else { n }));
        let (k, v) = if matches!(op, 4 | 5) && n == 0 { (1.min(rest.len()), rest[..1.min(rest.len())].to_vec()) } else { (k, v) };
        parts += (k > 0) as usize;
        rest = &rest[k..];
        want.extend_from_slice(format!("{}:", v.len()).as_bytes());
        want.extend_from_slice(&v);
    }
    let me = std::env::current_exe().map_err(|e| Bad::Abort(e.to_string()))?;
    let mut t = vcore::tool::tool(me.to_str().unwrap(), &[]);
    t.args = args.clone();
    t.stdin = match c.hash64() % 3 {
        0 => vcore::tool::In::Bytes(c.text.clone()),
        1 => vcore::tool::In::Pipe(c.text.clone(), vec![1 + c.num(0) as usize % 50, 3, 1 + c.num(1) as usize % 9000]),
        _ => vcore::tool::In::Offset(b"before".to_vec(), c.text.clone()),
    };
    let o = t.ok(env)?;
    same_bytes(&format!("reads {:?} of the standard input", &args[1..]), &o.stdout, &want)?;
    pass(parts >= 2)
}
/// files the size of which is reported as zero, named pipes; nums = [which, prefix], text: bytes through the pipe
fn special_files(c: &Case, env: &mut Env) -> R {
    let p = c.num(1) as usize;
    let files = sizeless_files();
    let k = c.num(0) as usize % (files.len() + 1);
    let mut pipe = None;
    let (name, t) = if k < files.len() {
        (files[k].0.to_string(), files[k].1.clone())
    } else {
        let f = env.dir.join("lib-fifo");
        let name = f.to_str().unwrap().to_string();
        pipe = Some(f);
        (name, c.text.clone())
    };
    // a new pipe each time: a process just being started by another thread may hold the former one open, with what is left in it
    let fresh = || {
        pipe.as_ref().is_none_or(|f| {
            let _ = std::fs::remove_file(f);
            vcore::tool::make_fifo(f)
        })
    };
    let feed = || {
        pipe.clone().map(|f| {
            let t = t.clone();
            std::thread::spawn(move || {
                if let Ok(mut o) = std::fs::OpenOptions::new().write(true).open(f) {
                    for part in t.chunks(1 + t.len() / 3) {
                        let _ = o.write_all(part);
                        std::thread::yield_now();
                    }
                }
            })
        })
    };
    let want = if p == 0 { &t[..] } else { &t[..p.min(t.len())] };
    need(fresh())?;
    let h = feed();
    let got = call("file2byte_vector", || io::file2byte_vector(&name, p))?;
    h.map(|h| h.join());
    same_bytes(&format!("file2byte_vector({:?}, {})", name, p), &got, want)?;
    need(fresh())?;
    let h = feed();
    let got = call("stream_or_stdin", || {
        let mut v = vec![];
        let mut r = io::stream_or_stdin(Some(&name));
        while let Some(b) = io::next_char(&mut r) {
            v.push(b);
        }
        v
    })?;
    h.map(|h| h.join());
    same_bytes(&format!("bytes of stream_or_stdin({:?})", name), &got, &t)?;
    pass(t.len() >= 2)
}
pub fn c30(t: Tier) -> Vec<Sub> {
    let aux = || vec(any::<u8>(), 0..8);
    vec![
        sub_gen(
            "lib-stdin-sessions",
            "several reads of the standard input by one process through different functions: vectors, streams, characters, run counts",
            true,
            t.pick(1500, 20_000),
            || {
                (prop_oneof![4 => text(0, 300, Bytes::All), 1 => big(4_000, 150_000, Bytes::All)], vec(any::<u8>(), 1..7), vec(prop_oneof![2 => 0u64..40, 1 => any::<u64>()], 7..8))
                    .prop_map(|(t, a, n)| Case::new(t, a, n))
            },
            sessions,
        ),
        sub_gen(
            "lib-special-files",
            "files of the proc file system, the size of which is reported as zero, and named pipes; nums = [which, prefix]",
            true,
            t.pick(1500, 20_000),
            || {
                (prop_oneof![3 => text(1, 700, Bytes::All), 1 => big(4_000, 150_000, Bytes::All)], 0u64..12, prop_oneof![2 => Just(0u64), 2 => 0u64..60, 1 => 0u64..100_000, 1 => any::<u64>().prop_map(wide_number)])
                    .prop_map(|(t, k, p)| Case::new(t, vec![], vec![k, p]))
            },
            special_files,
        ),
        sub_enum(
            "lib-exhaustive",
            "library readers and writers; all short texts",
            true,
            space(&[(&[0, 255], 0, t.pick(7, 10)), (b"a\nb", 1, t.pick(4, 7))]).len() * 4,
            move |i| {
                let sp = space(&[(&[0, 255], 0, t.pick(7, 10)), (b"a\nb", 1, t.pick(4, 7))]);
                Case::new(sp.nth(i / 4), vec![[0u8, 1, 5, 9][(i % 4) as usize], 8, 1], vec![i / 3, i])
            },
            readers,
        ),
        sub_gen(
            "lib-random",
            "library readers (read_char, next_char, number_of_runs, file2byte_vector, stream_or_stdin) and writer under chunking, interrupts and errors",
            true,
            t.pick(20_000, 300_000),
            move || (text(0, 700, Bytes::All), aux(), 0u64..1000, 0u64..1500).prop_map(|(t, a, m, p)| Case::new(t, a, vec![m, p])),
            readers,
        ),
        sub_gen(
            "lib-long",
            "same, texts longer than all buffers",
            true,
            t.pick(200, 3000),
            move || (big(4_000, 300_000, Bytes::All), aux(), 0u64..1000, 0u64..300_000).prop_map(|(t, a, m, p)| Case::new(t, a, vec![m, p])),
            readers,
        ),
    ]
}
}

#[cfg(feature = "c31")]
mod c31 {
    use super::*;

/// nums = [start, end, e]
fn terminated(c: &Case, _: &mut Env) -> R {
    let (a, b, e) = (c.num(0) as usize, c.num(1) as usize, c.num(2) as u8);
    need((1..=7).contains(&e) && b <= 1 << 24)?;
    let mut count = 0usize;
    let mut long = 0;
    call("RandomStringGenerator", || {
        for w in core::RandomStringGenerator::new(a..b, e) {
            count += 1;
            ensure(count <= b + 2, || "the generator does not stop".into())?;
            ensure(w.last() == Some(&0), || format!("text [{}] is not terminated", brief_bytes(&w)))?;
            for &x in &w[..w.len() - 1] {
                ensure(x >= 1 && x as u32 <= 1 << e, || format!("text [{}] has the letter {}, alphabet exponent {}", brief_bytes(&w), x, e))?;
            }
            long = long.max(w.len());
        }
        Ok(())
    })??;
    pass(long >= 3)
}
fn bits(c: &Case, _: &mut Env) -> R {
    let i = c.num(0);
    let mut want = 0u8;
    let mut x = i;
    while x > 0 {
        x /= 2;
        want += 1;
    }
    same(&format!("bit_size({})", i), &call("bit_size", || core::bit_size(i as usize))?, &want)?;
    pass(i >= 2)
}
/// the first texts of a range anywhere; nums = [start, end, e]
fn anywhere(c: &Case, _: &mut Env) -> R {
    let (a, b, e) = (c.num(0) as usize, c.num(1) as usize, c.num(2) as u8);
    need((1..=7).contains(&e))?;
    let got = call("RandomStringGenerator", || core::RandomStringGenerator::new(a..b, e).take(200).collect::<Vec<_>>())?;
    let most = b.saturating_sub(a);
    ensure(got.len() <= most, || format!("{} or more texts for a range of {} numbers", got.len(), most))?;
    for w in &got {
        ensure(w.last() == Some(&0), || format!("text [{}] is not terminated", brief_bytes(w)))?;
        for &x in &w[..w.len() - 1] {
            ensure(x >= 1 && x as u32 <= 1 << e, || format!("text [{}] has the letter {}, alphabet exponent {}", brief_bytes(w), x, e))?;
        }
    }
    pass(got.iter().any(|w| w.len() >= 3))
}
pub fn c31(t: Tier) -> Vec<Sub> {
    vec![
        sub_gen(
            "lib-anywhere",
            "the first texts of ranges of numbers of any size; nums = [start, end, exponent]",
            true,
            t.pick(20_000, 300_000),
            || {
                (any::<u64>(), 0u32..64, prop_oneof![2 => Just(0u32), 1 => 1u32..3], 0u64..300, 1u8..=7)
                    .prop_map(|(x, s, f, d, e)| { let a = x >> s; Case::nums(vec![a, a.saturating_mul(2).checked_shr(f).unwrap_or(0).saturating_add(d).saturating_add(if f == 0 { 0 } else { a }), e as u64]) })
            },
            anywhere,
        ),
        sub_enum("lib-bit-size-small", "bit_size of all small numbers", true, t.pick(200_000, 5_000_000), |i| Case::nums(vec![i]), bits),
        sub_enum(
            "lib-bit-size-powers",
            "bit_size around all powers of two",
            true,
            64 * 5,
            |i| Case::nums(vec![(1u64 << (i / 5)).wrapping_add(i % 5).wrapping_sub(2)]),
            bits,
        ),
        sub_gen("lib-bit-size-random", "bit_size of random numbers", true, t.pick(50_000, 500_000), || (any::<u64>(), 0u32..64).prop_map(|(x, s)| Case::nums(vec![x >> s])), bits),
        sub_gen(
            "lib-terminated-texts",
            "texts of RandomStringGenerator for random ranges and alphabet exponents: nums = [start, end, exponent]",
            true,
            t.pick(3_000, 60_000),
            || (prop_oneof![1 => Just(0usize), 2 => 0usize..40, 2 => 0usize..20_000], prop_oneof![2 => 0usize..300, 2 => 0usize..20_000, 1 => 0usize..200_000], 1u8..=7).prop_map(|(a, b, e)| Case::nums(vec![a as u64, b as u64, e as u64])),
            terminated,
        ),
    ]
}
}

#[cfg(feature = "c32")]
mod c32 {
    use super::*;

const CALLS: u64 = 26;
const VARIANTS: u64 = 9;

/// a relative of the text; never empty, without zero bytes
fn variant(t: &[u8], v: u64, p: usize) -> Vec<u8> {
    let n = t.len();
    let mut w = t.to_vec();
    let other = |b: u8| if b == 255 { 1 } else { b + 1 };
    match v {
        1 => w[n - 1] = other(w[n - 1]),
        2 => w.reverse(),
        3 => w.rotate_left(p % n),
        4 => w.swap(p % n, (p / 7 + 1) % n),
        5 => w.truncate(1 + p % n),
        6 => w.push(t[p % n]),
        7 => w[n / 2] = other(w[n / 2]),
        8 => w[0] = other(w[0]),
        _ => (),
    }
    w
}
fn nums<T: Copy + Into<i64>>(v: &[T]) -> Vec<i64> {
    v.iter().map(|&x| x.into()).collect()
}
fn us(v: &[usize]) -> Vec<i64> {
    v.iter().map(|&x| x as i64).collect()
}
fn small(a: &[u8], forward: bool) -> Vec<i64> {
    let n = a.len();
    (0..n)
        .map(|i| {
            let r = if forward { (i + 1..n).find(|&j| a[j] < a[i]) } else { (0..i).rev().find(|&j| a[j] < a[i]) };
            r.map(|j| j as i64).unwrap_or(core::INVALID_VALUE as i64)
        })
        .collect()
}
fn suffix_i32(w: &[u8]) -> Vec<i32> {
    suffix_array(w).iter().map(|&x| x as i32).collect()
}
/// the result expected of call f on the text w with the parameter p, from the definition
fn expected(f: u64, w: &[u8], p: usize) -> Vec<i64> {
    let mut z = w.to_vec();
    z.push(0);
    match f {
        0 => nums(&suffix_bwt(&z)),
        1 => nums(&suffix_bwt(w)),
        2 | 3 => nums(&rotation_bwt(w)),
        4 => nums(&rotate(w, least_rotation(w))),
        5 => vec![(1..w.len()).filter(|d| w.len() % d == 0).all(|d| rotate(w, d) != w) as i64],
        6 => vec![(w.len() - borders(w)[w.len()]) as i64],
        7 => us(&borders(w)),
        8 => nums(&bbwt_def(w)),
        9 => us(&suffix_array(w)),
        10 | 11 => us(&lyndon_ends(w)),
        12 => {
            let sa = suffix_array(&z);
            [us(&sa[..0]), us(&lcp_array(&z, &sa))].concat()
        }
        13 => {
            let mut inv = vec![0i64; w.len()];
            suffix_array(w).iter().enumerate().for_each(|(r, &i)| inv[i] = r as i64);
            inv
        }
        14 => small(w, false),
        15 => small(w, true),
        16 => vec![run_lengths(w).len() as i64],
        18 => (0..w.len()).flat_map(|i| nums(&rotate(w, i))).collect(),
        20 | 21 => {
            let terms = f as usize - 18;
            let mut v: Vec<i64> = if terms == 2 { vec![1, 2] } else { vec![1, 2, 4] };
            while v.len() <= p % 60 {
                let n = v.len();
                v.push(v[n - terms..].iter().sum());
            }
            vec![v[p % 60]]
        }
        22 => vcore::words::lyndon_words(1 + p % 6, 1 + p / 6 % 4).iter().flat_map(|x| nums(x)).collect(),
        23 => (0..1i64 << (p % 9)).flat_map(|i| (0..p % 9).rev().map(move |b| 48 + (i >> b & 1))).collect(),
        24 => vec![(usize::BITS - p.leading_zeros()) as i64],
        25 => nums(&w[..if p % 3 == 0 { w.len() } else { (1 + p % w.len()).min(w.len()) }]),
        _ => vec![],
    }
}
fn answer(f: u64, w: &[u8], p: usize, dir: &std::path::Path) -> Result<Vec<i64>, Bad> {
    let mut z = w.to_vec();
    z.push(0);
    Ok(match f {
        0 => nums(&core::bwt_from_text_by_sa(&z)),
        1 => nums(&core::bwt_from_text_by_sa(&w.to_vec())),
        2 => nums(&core::bwt_by_matrix(w)),
        3 => nums(&core::bwt_by_matrix_naive(w)),
        4 => {
            let s = core::lyndon_conjugate(w);
            ensure(s < w.len(), || format!("lyndon_conjugate is {}", s))?;
            nums(&rotate(w, s))
        }
        5 => vec![core::is_primitive(w) as i64],
        6 => vec![core::smallest_period(&core::border_array(w)) as i64],
        7 => us(&core::border_array(w)),
        8 => nums(&core::bbwt_naive(w)),
        9 => us(&core::suffixarray_naive(w)),
        10 => us(&core::duval(w)),
        11 => us(&core::isa_lyndon_factorization(&core::inverse_permutation(&suffix_i32(w)))),
        12 => {
            let sa = suffix_i32(&z);
            nums(&core::compute_lcp(&core::compute_plcp(&z, &core::compute_phi(&sa)), &sa))
        }
        13 => nums(&core::inverse_permutation(&suffix_i32(w))),
        14 => nums(&core::compute_psv(w)),
        15 => nums(&core::compute_nsv(w)),
        16 => vec![core::number_of_runs(&mut &w[..]) as i64],
        17 => {
            // without a terminator, a prefix of a necklace
            let want = is_prenecklace(w);
            same("is_necklace", &word::is_necklace(w, w.len()), &want)?;
            vec![]
        }
        18 => core::ConjugateIterator::new(w).flat_map(|x| nums(&x)).collect(),
        19 => {
            let names = ["fibonacci", "tribonacci", "vtm", "fibonacci-lyndon-factor", "kolakoski", "thue-morse", "period-doubling", "paper-folding", "quaternary-paper-folding", "power2", "binary-de-brujin"];
            let (name, k) = (names[p % 11], (p / 11 % 13) as u8);
            let k = if name == "fibonacci-lyndon-factor" { k / 2 } else { k };
            vcore::words::check(name, k, &super::c20::word_fn(name)(k))?;
            vec![]
        }
        20 => vec![word::fibonacci_number((p % 60) as u8) as i64],
        21 => vec![word::tribonacci_number((p % 60) as u8) as i64],
        22 => core::LyndonWordGenerator::new(1 + p % 6, 1 + p / 6 % 4).flat_map(|x| nums(&x)).collect(),
        23 => core::BinaryStringGenerator::new((p % 9) as u8).flat_map(|x| nums(&x)).collect(),
        24 => vec![core::bit_size(p) as i64],
        25 => {
            let file = dir.join("input");
            std::fs::write(&file, w).map_err(|e| Bad::Abort(format!("i/o error of the harness: {}", e)))?;
            let m = if p % 3 == 0 { 0 } else { 1 + p % w.len() };
            nums(&stringology::io::file2byte_vector(file.to_str().unwrap(), m))
        }
        _ => vec![],
    })
}
/// some continuation makes it a necklace: every suffix is at least the prefix of its length
fn is_prenecklace(w: &[u8]) -> bool {
    (0..w.len()).all(|i| w[i..] >= w[..w.len() - i])
}
/// nums = [threads, calls...], call = function + 26 * (variant + 9 * parameter)
fn history(c: &Case, env: &mut Env) -> R {
    let t = &c.text;
    need(!t.is_empty() && !t.contains(&0) && c.nums.len() >= 2)?;
    let threads = 1 + c.num(0) as usize % 4;
    let calls: Vec<(u64, Vec<u8>, usize, Vec<i64>)> = c.nums[1..]
        .iter()
        .map(|&x| {
            let (f, v, p) = (x % CALLS, x / CALLS % VARIANTS, (x / CALLS / VARIANTS % 1_000_000) as usize);
            let w = variant(t, v, p);
            let e = expected(f, &w, p);
            (f, w, p, e)
        })
        .collect();
    let run = |first: usize, dir: &std::path::Path| -> Result<(), Bad> {
        for i in 0..calls.len() {
            let (f, w, p, e) = &calls[(first + i) % calls.len()];
            let what = || format!("call {} of the history: function {} on [{}], parameter {}", i, f, brief_bytes(w), p);
            let got = match call("the library", || answer(*f, w, *p, dir)) {
                Ok(Ok(x)) => x,
                Ok(Err(Bad::Fail(m))) | Err(Bad::Fail(m)) => return fail(format!("{}: {}", what(), m)),
                Ok(Err(b)) | Err(b) => return Err(b),
            };
            same(&what(), &got, e)?;
        }
        Ok(())
    };
    let mut results = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|k| {
                let dir = env.dir.join(format!("thread{}", k));
                let run = &run;
                s.spawn(move || {
                    std::fs::create_dir_all(&dir).map_err(|e| Bad::Abort(format!("i/o error of the harness: {}", e)))?;
                    run(k * 3, &dir)
                })
            })
            .collect();
        results = hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Bad::Abort("a thread of the harness failed".into())))).collect();
    });
    for r in results {
        r?;
    }
    pass_l(calls.len() >= 2, if threads > 1 { vec!["several threads"] } else { vec![] })
}
pub fn c32(t: Tier) -> Vec<Sub> {
    // histories that mostly stay with one function or a few
    let ops = || {
        (0u64..CALLS, 0u64..CALLS, proptest::collection::vec((0u8..8, 0u64..CALLS, 0u64..VARIANTS, 0u64..5000), 2..14))
            .prop_map(|(a, b, v)| v.into_iter().map(|(k, f, v, p)| [a, a, a, a, a, b, b, f][k as usize] + CALLS * (v + VARIANTS * p)).collect::<Vec<u64>>())
    };
    let case = move |max: usize, bytes: Bytes| {
        (text(1, max, bytes), 0u64..6, ops()).prop_map(|(t, k, mut o)| {
            o.insert(0, if k > 3 { 0 } else { k });
            Case::new(t, vec![], o)
        })
    };
    vec![
        sub_gen(
            "lib-history",
            "histories of library calls on related texts, in one thread or several at once: nums = [threads - 1, calls], call = function + 26 * (variant + 9 * parameter)",
            true,
            t.pick(25_000, 500_000),
            move || case(90, Bytes::NonZero).boxed(),
            history,
        ),
        sub_gen("lib-history-long", "same, longer texts", true, t.pick(1_500, 30_000), move || case(700, Bytes::NonZero).boxed(), history),
    ]
}
}

pub fn lib(id: &str, t: Tier) -> Vec<Sub> {
    let _ = t;
    match id {
        #[cfg(feature = "c01")]
        "C01" => c01::c01(t),
        #[cfg(feature = "c02")]
        "C02" => c02::c02(t),
        #[cfg(feature = "c03")]
        "C03" => c03::c03(t),
        #[cfg(feature = "c04")]
        "C04" => c04::c04(t),
        #[cfg(feature = "c05")]
        "C05" => c05::c05(t),
        #[cfg(feature = "c06")]
        "C06" => c06::c06(t),
        #[cfg(feature = "c07")]
        "C07" => c07::c07(t),
        #[cfg(feature = "c08")]
        "C08" => c08::c08(t),
        #[cfg(feature = "c14")]
        "C14" => c14::c14(t),
        #[cfg(feature = "c20")]
        "C20" => c20::c20(t),
        #[cfg(feature = "c21")]
        "C21" => c20::c21(t),
        #[cfg(feature = "c22")]
        "C22" => c20::c22(t),
        #[cfg(feature = "c23")]
        "C23" => c23::c23(t),
        #[cfg(feature = "c29")]
        "C29" => c29::c29(t),
        #[cfg(feature = "c30")]
        "C30" => c30::c30(t),
        #[cfg(feature = "c31")]
        "C31" => c31::c31(t),
        #[cfg(feature = "c32")]
        "C32" => c32::c32(t),
        _ => vec![],
    }
}
