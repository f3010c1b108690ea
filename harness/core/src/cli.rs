//! Checks on the command-line tools: texts in, objects out. Each function returns the sub-checks of one property.
use crate::case::*;
use crate::frame::*;
use crate::gens::*;
use crate::oracle::*;
use crate::tool::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;

/// a quarter of the cases runs the release build, the others the dev build (overflow checks)
pub(crate) fn rel(c: &Case) -> bool {
    c.hash64() % 4 == 0
}
fn space(blocks: &[(&[u8], u32, u32)]) -> Space {
    Space(blocks.iter().map(|(p, a, b)| (p.to_vec(), *a, *b)).collect())
}
/// exhaustive sub-check over a space of texts
fn texts_enum(
    name: &'static str,
    about: &'static str,
    sp: Space,
    f: impl Fn(&Case, &mut Env) -> Result<Info, Bad> + Send + Sync + 'static,
) -> Sub {
    let n = sp.len();
    sub_enum(name, about, false, n, move |i| Case::text(sp.nth(i)), f)
}
fn texts_gen(
    name: &'static str,
    about: &'static str,
    n: u64,
    s: impl Fn() -> BoxedStrategy<Vec<u8>> + Send + Sync + 'static,
    f: impl Fn(&Case, &mut Env) -> Result<Info, Bad> + Send + Sync + 'static,
) -> Sub {
    sub_gen(name, about, false, n, move || case_text(s()), f)
}
fn zero_free(t: &[u8]) -> bool {
    !t.contains(&0)
}
pub(crate) fn need(cond: bool) -> Result<(), Bad> {
    if cond {
        Ok(())
    } else {
        Err(Bad::Discard)
    }
}
pub(crate) fn distinct(t: &[u8]) -> usize {
    let mut s = [false; 256];
    t.iter().for_each(|&b| s[b as usize] = true);
    s.iter().filter(|x| **x).count()
}
/// every length from a to b, three texts each (random, periodic, runs)
fn sweep(
    name: &'static str,
    about: &'static str,
    lens: Vec<usize>,
    k: Bytes,
    f: impl Fn(&Case, &mut Env) -> Result<Info, Bad> + Send + Sync + 'static,
) -> Sub {
    let kinds: [(u8, Vec<u8>); 4] = [
        (0, (0..=255u8).filter(|&b| k.ok(b)).collect()),
        (2, if k == Bytes::Ascii { b"ab".to_vec() } else { vec![1, 255] }),
        (1, if k == Bytes::Ascii { b"a0".to_vec() } else { vec![128, b'a', 254] }),
        (4, b"ab".to_vec()),
    ];
    let n = lens.len() as u64 * 4;
    sub_enum(
        name,
        about,
        false,
        n,
        move |i| {
            let (kind, p) = &kinds[(i % 4) as usize];
            let n = lens[(i / 4) as usize];
            Case::text(expand(*kind, i, n, p))
        },
        f,
    )
}

/// special byte sequences, also those that occur in the source, at special places
pub(crate) fn dictionary(k: Bytes, f: impl Fn(&Case, &mut Env) -> Result<Info, Bad> + Send + Sync + 'static) -> Sub {
    dictionary_as("tool-dictionary", k, f)
}
pub(crate) fn dictionary_as(name: &'static str, k: Bytes, f: impl Fn(&Case, &mut Env) -> Result<Info, Bad> + Send + Sync + 'static) -> Sub {
    let texts = dictionary_texts(k);
    sub_enum(
        name,
        "texts with well-known byte sequences or literals of the source at the start, at the end, inside, or repeated",
        false,
        texts.len() as u64,
        move |i| Case::text(texts[i as usize].clone()),
        f,
    )
}
/// texts in which one quantity is exactly a power of two or a neighbour of it
fn thresholds(
    max: usize,
    k: Bytes,
    f: impl Fn(&Case, &mut Env) -> Result<Info, Bad> + Send + Sync + 'static,
) -> Sub {
    let sizes = threshold_sizes(max);
    let n = (sizes.len() * SHAPES) as u64;
    sub_enum(
        "tool-thresholds",
        "same, texts in which a run, match, distance, period, count or the length is a power of two or a neighbour of it",
        false,
        n,
        move |i| {
            let mut t = threshold_text(i, &sizes, k);
            // at times the text brings a terminator
            let end = (i + i / SHAPES as u64) % 2;
            if end == 1 && k == Bytes::All && i % SHAPES as u64 != SHAPES as u64 - 1 {
                t.push(0);
            }
            Case::new(t, vec![], if k == Bytes::NonZero { vec![end] } else { vec![] })
        },
        f,
    )
}

/// texts longer than 2^24 bytes, from where on single precision does not count any more
fn huge(k: Bytes, f: impl Fn(&Case, &mut Env) -> Result<Info, Bad> + Send + Sync + 'static) -> Sub {
    sub_enum("tool-huge", "one run, two symbols in turn, and all symbols; more than 2^24 bytes", false, 3, move |i| Case::new(huge_text(i, k), vec![], vec![0]), f)
}
pub(crate) fn huge_text(i: u64, k: Bytes) -> Vec<u8> {
    let n = (1 << 24) + 1;
    let mut t = match i {
        0 => vec![b'a'; n],
        1 => (0..n).map(|j| k.fix(if j % 2 == 0 { b'b' } else { 255 })).collect(),
        _ => threshold_text(SHAPES as u64 - 1, &[n + 2], k),
    };
    t.extend_from_slice(b"bcbcbbc");
    t
}

// ================================================================== C01

fn bwt_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let t = &c.text;
    need(zero_free(t))?;
    let o = tool("bwt", &[]).stdin(t).release(rel(c)).ok(env)?;
    let mut z = t.clone();
    z.push(0);
    match invert_bwt(&o.stdout) {
        Some(x) => same_bytes("inverting the output of bwt", &x, t)?,
        None => return fail(format!("the output of bwt is no BWT of a terminated text: [{}]", brief_bytes(&o.stdout))),
    }
    same_bytes("bwt", &o.stdout, &suffix_bwt(&z))?;
    if !t.is_empty() {
        let o = tool("bwt", &["--no-dollar"]).stdin(t).release(rel(c)).ok(env)?;
        same_bytes("bwt --no-dollar", &o.stdout, &suffix_bwt(t))?;
    }
    pass(t.len() >= 2 && distinct(t) >= 2)
}

pub fn c01(t: Tier) -> Vec<Sub> {
    vec![
        texts_enum(
            "tool-exhaustive",
            "bwt and bwt --no-dollar against inversion and sorted suffixes, all short texts",
            space(&[(b"ab", 0, t.pick(8, 12)), (&[1, 255], 1, t.pick(6, 9)), (b"abc", 1, t.pick(4, 7)), (&[127, 128, 254], 1, t.pick(4, 6))]),
            bwt_case,
        ),
        texts_gen("tool-random", "same, structured random texts", t.pick(5000, 60000), || text(0, 600, Bytes::NonZero), bwt_case),
        sweep("tool-lengths", "same, every length up to 300 and around powers of two", lengths(300, 4100), Bytes::NonZero, bwt_case),
        texts_gen("tool-long", "same, long texts", t.pick(24, 400), || big(60_000, t_max(), Bytes::NonZero), bwt_case),
        dictionary(Bytes::NonZero, bwt_case),
        thresholds(t.pick(1_100_000, 4_200_000), Bytes::NonZero, bwt_case),
    ]
}
fn t_max() -> usize {
    80_000
}
/// 0..=upto and powers of two +-1 up to max
fn lengths(upto: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=upto).collect();
    let mut p = 64;
    while p <= max {
        v.extend([p - 1, p, p + 1]);
        p *= 2;
    }
    v.extend(source_numbers(0, max));
    v.sort();
    v.dedup();
    v
}

// ================================================================== C02

fn matrix_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let t = &c.text;
    need(zero_free(t))?;
    let r = rel(c);
    let d = tool("bwt", &[]).stdin(t).release(r).ok(env)?;
    let u = tool("bwt", &["--use-matrix"]).stdin(t).release(r).ok(env)?;
    same_bytes("bwt --use-matrix against bwt", &u.stdout, &d.stdout)?;
    let mut z = t.clone();
    z.push(0);
    same_bytes("bwt --use-matrix", &u.stdout, &rotation_bwt(&z))?;
    if !t.is_empty() {
        let want = rotation_bwt(t);
        let n = tool("bwt", &["-u", "-n"]).stdin(t).release(r).ok(env)?;
        same_bytes("bwt --use-matrix --no-dollar", &n.stdout, &want)?;
        let s = c.num(0) as usize % t.len();
        if s > 0 {
            let n = tool("bwt", &["-u", "-n"]).stdin(&rotate(t, s)).release(r).ok(env)?;
            same_bytes("bwt --use-matrix --no-dollar of a rotation", &n.stdout, &want)?;
        }
    }
    pass(t.len() >= 2 && distinct(t) >= 2)
}

/// long texts: without a terminator the matrix is sorted quickly
fn matrix_long(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let t = &c.text;
    need(!t.is_empty() && zero_free(t))?;
    let want = rotation_bwt(t);
    let n = tool("bwt", &["-u", "-n"]).stdin(t).release(rel(c)).ok(env)?;
    same_bytes("bwt --use-matrix --no-dollar", &n.stdout, &want)?;
    if c.num(0) % 4 == 1 {
        let n = tool("bwt", &["-u", "-n"]).stdin(&rotate(t, c.num(0) as usize * 7919 % t.len())).release(rel(c)).ok(env)?;
        same_bytes("bwt --use-matrix --no-dollar of a rotation", &n.stdout, &want)?;
    }
    // all symbols: the rotations differ early, such that they are sorted quickly with a terminator, too
    if c.num(0) % SHAPES as u64 == SHAPES as u64 - 1 && t.len() <= 300_000 {
        let u = tool("bwt", &["-u"]).stdin(t).release(true).ok(env)?;
        let d = tool("bwt", &[]).stdin(t).release(true).ok(env)?;
        same_bytes("bwt --use-matrix against bwt", &u.stdout, &d.stdout)?;
    }
    pass(t.len() >= 2 && distinct(t) >= 2)
}
pub fn c02(t: Tier) -> Vec<Sub> {
    let around = |lo: usize, hi: usize| (lo..=hi).collect::<Vec<_>>();
    vec![
        texts_enum(
            "tool-exhaustive",
            "bwt -u (with and without terminator) against sorted rotations, all short texts",
            space(&[(b"ab", 0, t.pick(7, 11)), (&[1, 255], 1, t.pick(5, 8)), (b"abc", 1, t.pick(4, 6))]),
            matrix_case,
        ),
        sub_gen(
            "tool-random",
            "same and rotation invariance, structured random texts and rotations",
            false,
            t.pick(3000, 40000),
            || (text(0, 400, Bytes::NonZero), 0u64..400).prop_map(|(t, s)| Case::new(t, vec![], vec![s])),
            matrix_case,
        ),
        sub_gen(
            "tool-switch",
            "same for the lengths around the internal switch at 100 bytes",
            false,
            t.pick(1500, 15000),
            move || {
                let ls = around(94, 106);
                let l2 = ls.clone();
                let periodic = (vec(any::<u8>(), 1..=20), select(l2), palette(Bytes::NonZero), 0u64..100)
                    .prop_map(|(w, n, p, s)| Case::new((0..n).map(|i| p[w[i % w.len()] as usize % p.len()]).collect(), vec![], vec![s]));
                prop_oneof![
                    1 => (of_length(ls.clone(), Bytes::NonZero), 0u64..100).prop_map(|(t, s)| Case::new(t, vec![], vec![s])),
                    1 => periodic
                ]
            },
            matrix_case,
        ),
        sweep("tool-lengths", "same, every length up to 260", lengths(260, 1100), Bytes::NonZero, matrix_case),
        {
            let sizes = threshold_sizes(t.pick(300_000, 4_200_000));
            sub_enum(
                "tool-thresholds",
                "same without terminator, texts in which a run, match, distance, period, count or the length is a power of two or a neighbour of it",
                false,
                (sizes.len() * SHAPES) as u64,
                move |i| Case::new(threshold_text(i, &sizes, Bytes::NonZero), vec![], vec![i]),
                matrix_long,
            )
        },
        dictionary(Bytes::NonZero, |c, env| matrix_case(&Case::new(c.text.clone(), vec![], vec![c.hash64() / 4 % 64]), env)),
    ]
}

// ================================================================== C04

fn expected_factor_file(t: &[u8], ends: &[usize]) -> Vec<u8> {
    let mut out = b">Factor 1\n".to_vec();
    out.extend_from_slice(&t[..=ends[0]]);
    for i in 1..ends.len() {
        let (s, e) = (ends[i - 1] + 1, ends[i] + 1);
        if i == ends.len() - 1 && &t[s..e] == [0] {
            break;
        }
        out.extend_from_slice(format!("\n>Factor {} : {} -> {}\n", i + 1, s, e).as_bytes());
        out.extend_from_slice(&t[s..e]);
    }
    out
}

fn lyndon_tool_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let t = &c.text;
    need(!t.is_empty())?;
    let ends = lyndon_ends(t);
    let of = env.dir.join("factors");
    let o = tool("lyndonfactorization", &["-o", of.to_str().unwrap()]).stdin(t).release(rel(c)).ok(env)?;
    same("number of factors", &o.result_num("factors")?, &(ends.len() as u64))?;
    let got = std::fs::read(&of).map_err(|e| Bad::Fail(format!("no factor file: {}", e)))?;
    same_bytes("factor file", &got, &expected_factor_file(t, &ends))?;
    let _ = std::fs::remove_file(&of);
    pass(ends.len() >= 2 && ends.len() < t.len())
}

/// the documented listing: RUST_LOG=debug outputs all ending positions
fn lyndon_listing(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let t = &c.text;
    need(!t.is_empty())?;
    let ends = lyndon_ends(t);
    let mut tl = tool("lyndonfactorization", &[]).stdin(t).release(rel(c));
    tl.env.push(("RUST_LOG".into(), "debug".into()));
    let o = tl.ok(env)?;
    same("number of factors", &o.result_num("factors")?, &(ends.len() as u64))?;
    let all = [&o.stdout[..], b"\n", &o.stderr[..]].concat();
    let s = String::from_utf8_lossy(&all);
    // any notation: the numbers of the list in their order, in one line
    let found = s.lines().any(|l| {
        let list = l.rsplit_once('[').map_or(l, |x| x.1);
        let nums: Vec<usize> = list.split(|x: char| !x.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
        if l.contains('[') { nums == ends } else { nums.ends_with(&ends) }
    });
    ensure(found, || format!("with RUST_LOG=debug, the ending positions {:?} are not listed: {}", &ends[..ends.len().min(20)], o.err_tail()))?;
    pass(ends.len() >= 2 && ends.len() < t.len())
}
pub fn c04(t: Tier) -> Vec<Sub> {
    vec![
        texts_enum(
            "tool-exhaustive",
            "factor count and factor file of lyndonfactorization, all short texts",
            space(&[(b"ab", 1, t.pick(9, 13)), (&[0, 255], 1, t.pick(6, 9)), (b"abc", 1, t.pick(5, 7)), (&[0, 127, 128], 1, t.pick(4, 6))]),
            lyndon_tool_case,
        ),
        texts_gen("tool-random", "same, structured random texts", t.pick(8000, 100_000), || text(1, 600, Bytes::All), lyndon_tool_case),
        texts_gen("tool-long", "same, long texts", t.pick(24, 400), || big(8_000, 80_000, Bytes::All), lyndon_tool_case),
        dictionary(Bytes::All, lyndon_tool_case),
        thresholds(t.pick(1_100_000, 4_200_000), Bytes::All, lyndon_tool_case),
        texts_gen("tool-listing", "ending positions listed with RUST_LOG=debug", t.pick(1500, 20_000), || text(1, 600, Bytes::All), lyndon_listing),
        {
            let sizes = threshold_sizes(70_000);
            sub_enum(
                "tool-listing-thresholds",
                "same, texts with many factors or long ones",
                false,
                (sizes.len() * 3) as u64,
                move |i| Case::text(threshold_text(i / 3 * SHAPES as u64 + [0, 3, 6][i as usize % 3], &sizes, Bytes::All)),
                lyndon_listing,
            )
        },
        texts_gen("tool-listing-long", "same, long texts", t.pick(16, 200), || big(4_000, 80_000, Bytes::All), lyndon_listing),
    ]
}

// ================================================================== C09

pub(crate) fn parse_pairs(s: &[u8]) -> Option<Vec<(u64, u64)>> {
    let s = std::str::from_utf8(s).ok()?;
    if s.is_empty() {
        return Some(vec![]);
    }
    let s = s.strip_prefix('(')?.strip_suffix(')')?;
    s.split(")(")
        .map(|p| {
            let (a, b) = p.split_once(',')?;
            Some((a.trim().parse().ok()?, b.trim().parse().ok()?))
        })
        .collect()
}

pub(crate) fn factor_file(bin: &str, c: &Case, env: &mut Env, release: bool) -> Result<(Vec<(u64, u64)>, u64), Bad> {
    let of = env.dir.join("factors");
    let o = tool(bin, &["-o", of.to_str().unwrap()]).stdin(&c.text).release(release).ok(env)?;
    let n = o.result_num("factors")?;
    let raw = std::fs::read(&of).map_err(|e| Bad::Fail(format!("no factor file: {}", e)))?;
    let _ = std::fs::remove_file(&of);
    match parse_pairs(&raw) {
        Some(f) => Ok((f, n)),
        None => fail(format!("the factor file of {} is malformed: {}", bin, brief_bytes(&raw))),
    }
}

fn lz77_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let t = &c.text;
    need(!t.is_empty())?;
    // the dev build evaluates quadratic assertions
    let (f, n) = factor_file("count_z", c, env, rel(c) || t.len() > 3000)?;
    same("reported number of factors", &n, &(f.len() as u64))?;
    let want = lz77_lengths(t);
    let mut out: Vec<u8> = vec![];
    for (i, &(a, l)) in f.iter().enumerate() {
        let start = out.len();
        ensure(i < want.len(), || format!("more factors than the greedy parsing, {} > {}", f.len(), want.len()))?;
        if l == 0 {
            ensure(a < 256, || format!("literal factor ({},0) is no byte", a))?;
            ensure(!out.contains(&(a as u8)), || format!("factor {} is the literal {} which occurred before", i, a))?;
            out.push(a as u8);
        } else {
            ensure(a >= 1 && a as usize <= start, || format!("factor {} = ({},{}) refers before the text", i, a, l))?;
            let from = start - a as usize;
            for x in 0..l as usize {
                out.push(out[from + x]);
                if out.len() > t.len() {
                    return fail(format!("factor {} = ({},{}) runs over the end of the text", i, a, l));
                }
            }
        }
        ensure(out.len() <= t.len() && out[start..] == t[start..out.len()], || {
            format!("factor {} = ({},{}) does not decode to the text at {}", i, a, l, start)
        })?;
        same(&format!("length of factor {} at {}", i, start), &(l as usize), &want[i])?;
    }
    same_bytes("decoded factors", &out, t)?;
    pass(f.iter().any(|x| x.1 > 1))
}

pub fn c09(t: Tier) -> Vec<Sub> {
    vec![
        texts_enum(
            "tool-exhaustive",
            "decoding, greediness, count; all short texts",
            space(&[(b"ab", 1, t.pick(10, 14)), (&[0, 255], 1, t.pick(7, 10)), (b"abc", 1, t.pick(6, 8)), (&[0, 1, 2, 3], 1, t.pick(4, 6))]),
            lz77_case,
        ),
        texts_gen("tool-random", "same, structured random texts", t.pick(10000, 120_000), || text(1, 600, Bytes::All), lz77_case),
        sweep("tool-lengths", "same, every length up to 300 and around powers of two", lengths(300, 4100)[1..].to_vec(), Bytes::All, lz77_case),
        texts_gen("tool-long", "same, long texts", t.pick(48, 600), || big(4_000, 90_000, Bytes::All), lz77_case),
        dictionary(Bytes::All, lz77_case),
        thresholds(t.pick(1_100_000, 4_200_000), Bytes::All, lz77_case),
    ]
}

// ================================================================== C10

fn lexparse_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let t = &c.text;
    need(!t.is_empty())?;
    let n = t.len();
    let (f, cnt) = factor_file("count_lexparse", c, env, rel(c))?;
    same("reported number of factors", &cnt, &(f.len() as u64))?;
    let sa = suffix_array(t);
    let mut isa = vec![0; n];
    for (r, &p) in sa.iter().enumerate() {
        isa[p] = r;
    }
    let mut at = 0;
    // source position of every text position; usize::MAX for literals
    let mut src = vec![usize::MAX; n];
    let mut refs = 0;
    for (i, &(a, l)) in f.iter().enumerate() {
        ensure(at < n, || format!("factor {} starts behind the text", i))?;
        let (pred, lcp) = match isa[at] {
            0 => (0, 0),
            r => (sa[r - 1], lcp_of(&t[sa[r - 1]..], &t[at..])),
        };
        if lcp == 0 {
            same(&format!("factor {} at {}", i, at), &(a, l), &(t[at] as u64, 0))?;
            at += 1;
        } else {
            same(&format!("factor {} at {}", i, at), &(a, l), &(pred as u64, lcp as u64))?;
            for x in 0..lcp {
                src[at + x] = pred + x;
            }
            refs += 1;
            at += lcp;
        }
    }
    same("covered length", &at, &n)?;
    // decode by following references
    let mut state = vec![0u8; n]; // 1: known
    let mut val = vec![0u8; n];
    for i in 0..n {
        if src[i] == usize::MAX {
            val[i] = t[i];
            state[i] = 1;
        }
    }
    for i in 0..n {
        let mut path = vec![];
        let mut p = i;
        while state[p] == 0 {
            state[p] = 2;
            path.push(p);
            p = src[p];
        }
        if state[p] == 2 {
            return fail(format!("cyclic reference at position {}", p));
        }
        for q in path {
            val[q] = val[p];
            state[q] = 1;
        }
    }
    same_bytes("decoded factors", &val, t)?;
    pass(refs >= 2)
}

/// the (endless) enumeration prints texts whose lex-parse sizes differ; check the lines printed so far
fn enumerate_lexparse_case(_c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let io = |e: std::io::Error| Bad::Abort(format!("i/o error of the harness: {}", e));
    let outp = env.dir.join("stdout");
    let mut ch = spawn(
        std::process::Command::new(exe("enumerate_lexparse", false))
            .env_remove("RUST_LOG")
            .stdin(std::process::Stdio::null())
            .stdout(std::fs::File::create(&outp).map_err(io)?)
            .stderr(std::process::Stdio::null()),
    )
    .map_err(io)?;
    limit(ch.id() as i32, false, true);
    // wait for some lines, not for a fixed time
    let want = if env.tier == Tier::Quick { 40 } else { 400 };
    let mut early = None;
    for _ in 0..600 {
        std::thread::sleep(std::time::Duration::from_millis(100));
        early = ch.try_wait().map_err(io)?;
        let lines = std::fs::read(&outp).map_err(io)?.iter().filter(|&&b| b == b'\n').count();
        if lines >= want || early.is_some() {
            break;
        }
    }
    let _ = ch.kill();
    let _ = ch.wait();
    if let Some(s) = early {
        return fail(format!("enumerate_lexparse stopped with {:?}", s));
    }
    let raw = std::fs::read(&outp).map_err(io)?;
    let s = String::from_utf8_lossy(&raw).to_string();
    let complete = match s.rfind('\n') {
        Some(i) => &s[..i],
        None => "",
    };
    let size = |t: &[u8]| -> usize {
        let sa = suffix_array(t);
        let mut isa = vec![0; t.len()];
        for (r, &p) in sa.iter().enumerate() {
            isa[p] = r;
        }
        let (mut at, mut k) = (0, 0);
        while at < t.len() {
            let l = if isa[at] == 0 { 0 } else { lcp_of(&t[sa[isa[at] - 1]..], &t[at..]) };
            at += l.max(1);
            k += 1;
        }
        k
    };
    let unq = |q: &str| -> Option<Vec<u8>> {
        let q = q.strip_prefix('"')?.strip_suffix("\\0\"").or_else(|| q.strip_prefix('"')?.strip_suffix("\\u{0}\""))?;
        let mut v = q.as_bytes().to_vec();
        v.push(0);
        Some(v)
    };
    let mut last = 0usize;
    let mut lines = 0;
    for l in complete.lines().take(3000) {
        let parsed = (|| {
            let (d, r) = l.split_once(": ")?;
            let (a, b) = r.split_once(" <-> ")?;
            Some((d.parse::<usize>().ok()?, unq(a)?, unq(b)?))
        })();
        let Some((d, a, b)) = parsed else { return fail(format!("malformed line {:?}", l)) };
        ensure(a.len() == 33 && b.len() == 33, || format!("texts of a wrong length in {:?}", l))?;
        let same_text = a == b;
        let swapped = a[..32].iter().zip(&b[..32]).all(|(x, y)| x + y == b'a' + b'b');
        ensure(same_text || swapped, || format!("the texts of {:?} do not arise from each other by exchanging letters", l))?;
        let (x, y) = (size(&a), size(&b));
        ensure(y >= x && y - x == d, || format!("line {:?}: lex-parse sizes are {} and {}", l, x, y))?;
        ensure(d >= last, || format!("line {:?}: the difference decreases", l))?;
        last = d;
        lines += 1;
    }
    if lines == 0 {
        return Err(Bad::Abort("enumerate_lexparse printed nothing in a minute".into()));
    }
    pass(lines > 3)
}

pub fn c10(t: Tier) -> Vec<Sub> {
    vec![
        texts_enum(
            "tool-exhaustive",
            "factors against suffix predecessors, decodability, count; all short texts",
            space(&[(b"ab", 1, t.pick(10, 14)), (&[0, 255], 1, t.pick(7, 10)), (b"abc", 1, t.pick(6, 8)), (&[0, 1, 2, 3], 1, t.pick(4, 6))]),
            lexparse_case,
        ),
        texts_gen("tool-random", "same, structured random texts", t.pick(8000, 100_000), || text(1, 600, Bytes::All), lexparse_case),
        texts_gen(
            "tool-terminated",
            "same, texts with a terminating zero byte",
            t.pick(3000, 40_000),
            || {
                text(1, 400, Bytes::NonZero)
                    .prop_map(|mut t| {
                        t.push(0);
                        t
                    })
                    .boxed()
            },
            lexparse_case,
        ),
        texts_gen("tool-long", "same, long texts", t.pick(24, 400), || big(4_000, 80_000, Bytes::All), lexparse_case),
        dictionary(Bytes::All, lexparse_case),
        thresholds(t.pick(1_100_000, 4_200_000), Bytes::All, lexparse_case),
        sub_enum(
            "enumeration",
            "lines printed by enumerate_lexparse in its first seconds",
            false,
            1,
            |_| Case::nums(vec![0]),
            enumerate_lexparse_case,
        ),
    ]
}

// ================================================================== C11

/// the list printed by mus
pub(crate) fn mus_list(input: &[u8], release: bool, env: &mut Env) -> Result<Vec<(u64, u64)>, Bad> {
    let o = tool("mus", &[]).stdin(input).release(release).ok(env)?;
    let r = o.result()?;
    let Some(list) = r.get("mus") else { return fail("no mus field") };
    let inner = list.trim_start_matches('[').trim_end_matches(']').replace(' ', "").replace("),(", ")(");
    match parse_pairs(inner.as_bytes()) {
        Some(got) => Ok(got),
        None => fail(format!("malformed list {}", list)),
    }
}

fn mus_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let mut t = c.text.clone();
    need(!t.is_empty())?;
    let mut input = t.clone();
    if c.num(0) % 2 == 1 {
        input.push(0);
    }
    need(zero_free(&t))?;
    let got = mus_list(&input, rel(c), env)?;
    let want: Vec<(u64, u64)> = mus(&t).into_iter().map(|(a, b)| (a as u64, b as u64)).collect();
    same("minimal unique substrings", &got, &want)?;
    t.clear();
    pass(want.iter().any(|x| x.1 >= 2))
}

pub fn c11(t: Tier) -> Vec<Sub> {
    let sp = space(&[(b"ab", 1, t.pick(9, 13)), (&[1, 255], 1, t.pick(6, 9)), (b"abc", 1, t.pick(5, 7)), (&[1, 2, 3, 4], 1, t.pick(4, 6))]);
    let n = sp.len() * 2;
    vec![
        sub_enum(
            "tool-exhaustive",
            "the list of minimal unique substrings, all short texts, with and without terminator",
            false,
            n,
            move |i| Case::new(sp.nth(i / 2), vec![], vec![i % 2]),
            mus_case,
        ),
        sub_gen(
            "tool-random",
            "same, structured random texts",
            false,
            t.pick(9000, 100_000),
            || (text(1, 500, Bytes::NonZero), 0u64..2).prop_map(|(t, z)| Case::new(t, vec![], vec![z])),
            mus_case,
        ),
        sub_gen(
            "tool-long",
            "same, long texts",
            false,
            t.pick(24, 400),
            || (big(3_000, 80_000, Bytes::NonZero), 0u64..2).prop_map(|(t, z)| Case::new(t, vec![], vec![z])),
            mus_case,
        ),
        dictionary(Bytes::NonZero, mus_case),
        thresholds(t.pick(1_100_000, 4_200_000), Bytes::NonZero, mus_case),
    ]
}

// ================================================================== C12

fn attractor_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let t = &c.text;
    need(!t.is_empty() && zero_free(t))?;
    let mut pos: Vec<usize> = c.nums.iter().map(|&x| x as usize % t.len()).collect();
    if !c.aux.is_empty() {
        // complete the set to an attractor, then optionally drop positions
        let rounds = if t.len() <= 3000 { 3000 } else { 60 };
        let done = complete_attractor(t, &mut pos, rounds, |k, l| {
            let x = c.aux[k % c.aux.len()] as usize;
            (x >= 160, x % l)
        });
        need(done.is_some())?;
        if c.aux[0] % 4 == 1 && pos.len() > 1 {
            pos.remove(c.aux[0] as usize / 4 % pos.len());
        }
        if c.aux[0] % 4 == 2 {
            // the last one was needed for a long substring only
            pos.pop();
        }
    }
    if c.num(0) % 3 != 0 {
        pos.sort();
        pos.dedup();
    }
    let want = attractor_witness(t, &pos);
    // the tool lists all uncovered substrings: their total length may be quadratic
    need(t.len() <= 3000 || want.is_none() || uncovered_size(t, &pos) <= 10_000_000)?;
    let mut args: Vec<String> = vec![];
    if !pos.is_empty() {
        args.push("-a".into());
        args.extend(pos.iter().map(|p| p.to_string()));
    }
    let mut tl = tool("is_stringattractor", &[]).stdin(t).release(rel(c));
    tl.args = args;
    let o = tl.run(env)?;
    let s = String::from_utf8_lossy(&o.stdout).to_string();
    let lines: Vec<&str> = s.lines().collect();
    match &want {
        None => {
            ensure(o.code == Some(0) && lines.last() == Some(&"valid attractor"), || {
                format!("positions {:?} are an attractor, but the tool says {:?} with status {:?} {}", pos, lines.last(), o.code, o.err_tail())
            })?;
            ensure(lines.len() == 1, || format!("a valid attractor with uncovered substrings: {:?}", lines))?;
        }
        Some(w) => {
            ensure(o.code == Some(2) && lines.last() == Some(&"not a valid attractor"), || {
                format!(
                    "positions {:?} do not cover [{}], but the tool says {:?} with status {:?} {}",
                    pos,
                    brief_bytes(w),
                    lines.last(),
                    o.code,
                    o.err_tail()
                )
            })?;
            ensure(s.contains("substring '"), || "no uncovered substring is named".to_string())?;
            if t.iter().all(|b| (0x20..0x7f).contains(b) && *b != b'\'') {
                // all of them, unless the text is long
                let step = if t.len() <= 3000 { 1 } else { 1 + lines.len() / 20 };
                for l in lines[..lines.len() - 1].iter().step_by(step) {
                    let Some(w) = l.strip_prefix("substring '").and_then(|l| l.strip_suffix("' not covered!")) else {
                        return fail(format!("unexpected line {:?}", l));
                    };
                    let (occ, cov) = occurrence_cover(t, w.as_bytes(), &pos);
                    ensure(occ, || format!("the named substring {:?} does not occur in the text (positions {:?})", w, pos))?;
                    ensure(!cov, || format!("the named substring {:?} is covered by positions {:?}", w, pos))?;
                }
            }
        }
    }
    pass_l(t.len() >= 3 && !pos.is_empty(), vec![if want.is_none() { "attractor" } else { "no attractor" }])
}

pub fn c12(t: Tier) -> Vec<Sub> {
    // all texts x all position sets
    let mut blocks: Vec<(Vec<u8>, usize)> = vec![];
    for (p, max) in [(b"ab".to_vec(), t.pick(5, 8)), (b"abc".to_vec(), t.pick(4, 5))] {
        for l in 1..=max {
            for i in 0..(p.len() as u64).pow(l as u32) {
                blocks.push((nth_string(p.len() as u64, l as u32, i).into_iter().map(|x| p[x as usize]).collect(), 1 << l));
            }
        }
    }
    let mut cum = vec![0u64];
    for b in &blocks {
        cum.push(cum.last().unwrap() + b.1 as u64);
    }
    let total = *cum.last().unwrap();
    let far = threshold_sizes(t.pick(70_000, 270_000));
    vec![
        sub_enum(
            "tool-exhaustive",
            "verdict and witnesses; all short texts with all position sets",
            false,
            total,
            move |i| {
                let b = cum.partition_point(|&x| x <= i) - 1;
                let mask = i - cum[b];
                let t = blocks[b].0.clone();
                let nums = (0..t.len() as u64).filter(|&x| mask >> x & 1 == 1).collect();
                Case::new(t, vec![], nums)
            },
            attractor_case,
        ),
        sub_gen(
            "tool-random",
            "same, structured texts, random sets, completed attractors, attractors with one position dropped",
            false,
            t.pick(8000, 100_000),
            || {
                let k = prop_oneof![2 => Just(Bytes::Ascii), 1 => Just(Bytes::NonZero)];
                k.prop_flat_map(|k| (text(1, 200, k), vec(any::<u8>(), 0..4), vec(0u64..2000, 0..8))).prop_map(|(t, a, n)| Case::new(t, a, n))
            },
            attractor_case,
        ),
        dictionary(Bytes::NonZero, |c, env| {
            let h = c.hash64() / 4;
            attractor_case(&Case::new(c.text.clone(), vec![(h % 251) as u8; (h % 3) as usize], (0..h % 5).map(|i| h >> (8 * i) & 0xff).collect()), env)
        }),
        sub_gen(
            "tool-larger",
            "same, larger texts",
            false,
            t.pick(300, 4000),
            || (text(1, 1500, Bytes::Ascii), vec(any::<u8>(), 1..4), vec(0u64..2000, 0..12)).prop_map(|(t, a, n)| Case::new(t, a, n)),
            attractor_case,
        ),
        sub_enum(
            "tool-thresholds",
            "same, long runs and repetitions in two parts of the text, covered but for the longest substrings",
            false,
            far.len() as u64 * 12,
            move |i| {
                let l = far[i as usize / 12];
                let x = i as usize % 12;
                let shape = if x % 2 == 0 { 9 } else { 10 } + SHAPES * (x / 2 % 3) * 3;
                let t = threshold_text(shape as u64, &[l], Bytes::NonZero);
                Case::new(t, vec![[2u8, 162, 6, 200][(x / 2 + l) % 4], 163, 99], vec![])
            },
            attractor_case,
        ),
        sub_gen(
            "tool-far",
            "same, completed attractors of long texts of few runs, periods, morphic words, copies",
            false,
            t.pick(120, 1500),
            || {
                let len = prop_oneof![2 => 1usize..3000, 2 => 3000usize..30_000, 2 => 30_000usize..90_000];
                let part = (0u8..7, 0u8..3, len);
                (vec(part, 1..5), vec(any::<u8>(), 1..8), vec(any::<u64>(), 0..3)).prop_map(|(parts, a, n)| {
                    let mut t: Vec<u8> = vec![];
                    for (k, s, l) in parts {
                        match k {
                            0 => t.extend(std::iter::repeat(b'a' + s).take(l)),
                            1 => t.extend((0..l).map(|i| b'a' + (s + (i % 2) as u8) % 3)),
                            2 => t.extend(morphic(s, l).iter().map(|x| x + b'a')),
                            3 => {
                                let c: Vec<u8> = t.iter().take(l).copied().collect();
                                t.extend(c);
                            }
                            4 => t.push(b'c' + s),
                            5 => t.extend((0..l).map(|i| b"abcab"[i % 5])),
                            _ => t.extend((0..l).map(|i| if i == l / 2 { b'd' } else { b'a' + s })),
                        }
                    }
                    t.push(b'~');
                    t.truncate(200_000);
                    Case::new(t, a, n)
                })
            },
            attractor_case,
        ),
    ]
}

// ================================================================== C13

pub(crate) fn close(what: &str, got: f64, want: f64) -> Result<(), Bad> {
    if got.is_finite() && (got - want).abs() <= 1e-9 * want.abs().max(1.0) {
        Ok(())
    } else {
        fail(format!("{}: got {}, expected {}", what, got, want))
    }
}

pub(crate) fn entropy_of(o: &Out, n: usize) -> Result<f64, Bad> {
    same("length", &o.result_num("length")?, &(n as u64))?;
    let r = o.result()?;
    match r.get("entropy").and_then(|v| v.parse::<f64>().ok()) {
        Some(v) => Ok(v),
        None => fail(format!("no entropy in {:?}", r)),
    }
}

fn entropy_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let t = &c.text;
    let k = c.num(0) as usize;
    need(k == 0 || zero_free(t))?;
    let mut z = t.clone();
    z.push(0);
    let want = entropy(&z, k);
    let r = rel(c);
    let o = tool("entropy", &["-o", &k.to_string()]).stdin(t).release(r).ok(env)?;
    let e = entropy_of(&o, z.len())?;
    close(&format!("entropy of order {}", k), e, want)?;
    if (1..=7).contains(&k) && t.len() >= k {
        let o = tool("entropy_kmer", &["-o", &k.to_string()]).stdin(t).release(r).ok(env)?;
        let f = entropy_of(&o, z.len())?;
        close(&format!("entropy_kmer of order {}", k), f, want)?;
        close("entropy against entropy_kmer", f, e)?;
    }
    pass(want > 0.0)
}

pub fn c13(t: Tier) -> Vec<Sub> {
    let sp = space(&[(b"ab", 0, t.pick(7, 10)), (&[1, 255], 1, t.pick(5, 8)), (b"abc", 1, t.pick(4, 6))]);
    let n = sp.len() * 5;
    vec![
        sub_enum(
            "tool-exhaustive",
            "both entropy tools against the definition; all short texts, orders 0 to 4",
            false,
            n,
            move |i| Case::new(sp.nth(i / 5), vec![], vec![i % 5]),
            entropy_case,
        ),
        sub_gen(
            "tool-order0",
            "order 0 on any bytes",
            false,
            t.pick(2500, 30_000),
            || text(0, 900, Bytes::All).prop_map(|t| Case::new(t, vec![], vec![0])),
            entropy_case,
        ),
        sub_gen(
            "tool-orders",
            "orders 1 to 7 and beyond on structured zero-free texts",
            false,
            t.pick(6000, 70_000),
            || {
                (text(0, 700, Bytes::NonZero), prop_oneof![8 => 1u64..=7, 1 => 8u64..40, 1 => 40u64..900])
                    .prop_map(|(t, k)| Case::new(t, vec![], vec![k]))
            },
            entropy_case,
        ),
        sub_gen(
            "tool-long",
            "long texts",
            false,
            t.pick(32, 400),
            || (big(3_000, 80_000, Bytes::NonZero), 0u64..=8).prop_map(|(t, k)| Case::new(t, vec![], vec![k])),
            entropy_case,
        ),
        sub_enum(
            "tool-many-contexts",
            "texts with so many different contexts that 32 bits do not tell them apart, each occurring twice with different successors",
            false,
            t.pick(6, 40),
            move |i| {
                let n = [100_000, 70_000, 200_000, 400_000][i as usize % 4];
                let mut t = threshold_text(i * SHAPES as u64 + SHAPES as u64 - 1, &[n], Bytes::NonZero);
                if i % 2 == 0 {
                    let m = t.len();
                    t.extend_from_within(..);
                    for j in (m..2 * m).step_by(11) {
                        t[j] = if t[j] == 255 { 1 } else { t[j] + 1 };
                    }
                }
                Case::new(t, vec![], vec![4 + i % 4])
            },
            entropy_case,
        ),
        sub_enum(
            "tool-thue-morse",
            "orders around all powers of two on parts of the Thue-Morse word, of which many different ones have the same polynomial hash",
            false,
            (3 * 13 * 3) as u64,
            move |i| {
                let k = ((1u64 << (i / 9)) + i % 3).max(2) - 1;
                let (x, y) = [(b'a', b'b'), (1, 2), (255, 128)][i as usize / 3 % 3];
                let n = (4 * k as u32 + 50).max(3000);
                let s = [0, 5, 1 << (i / 9)][i as usize % 3];
                let t = (s..s + n).map(|j| if j.count_ones() % 2 == 0 { x } else { y }).collect();
                Case::new(t, vec![], vec![k])
            },
            entropy_case,
        ),
        huge(Bytes::NonZero, entropy_case),
        dictionary(Bytes::NonZero, |c, env| entropy_case(&Case::new(c.text.clone(), vec![], vec![c.hash64() / 4 % 8]), env)),
        thresholds(t.pick(1_100_000, 4_200_000), Bytes::NonZero, |c, env| {
            // order by text
            let k = c.hash64() / 4 % 8;
            entropy_case(&Case::new(c.text.clone(), vec![], vec![k]), env)
        }),
        sub_enum(
            "tool-thresholds-order0",
            "order 0 on texts in which a quantity is a power of two or a neighbour of it",
            false,
            (SHAPES * threshold_sizes(t.pick(4_200_000, 16_800_000)).len()) as u64,
            move |i| Case::new(threshold_text(i, &threshold_sizes(t.pick(4_200_000, 16_800_000)), Bytes::All), vec![], vec![0]),
            entropy_case,
        ),
    ]
}

// ================================================================== C14

fn runs_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let t = &c.text;
    let r = rel(c);
    let runs = run_lengths(t).len();
    let o = tool("count_runs", &[]).stdin(t).release(r).ok(env)?;
    same("count_runs", &o.text()?.trim_end().to_string(), &runs.to_string())?;
    let o = tool("count_sigma", &[]).stdin(t).release(r).ok(env)?;
    same("count_sigma", &o.result_num("sigma")?, &(distinct(t) as u64))?;
    pass(runs >= 2)
}

fn count_r_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let t = &c.text;
    need(!t.is_empty() && zero_free(t))?;
    let r = rel(c);
    let mut labels = vec![];
    for flags in [&[][..], &["-n"], &["-u"], &["-u", "-n"]] {
        let b = tool("bwt", flags).stdin(t).release(r).ok(env)?;
        let o = tool("count_r", flags).stdin(t).release(r).ok(env)?;
        let runs = run_lengths(&b.stdout).len() as u64;
        same(&format!("bwt_runs of count_r {:?}", flags), &o.result_num("bwt_runs")?, &runs)?;
        same(&format!("length of count_r {:?}", flags), &o.result_num("length")?, &(b.stdout.len() as u64))?;
        // the transform itself, independently of the tool
        let want = match flags {
            [] => {
                let mut z = t.clone();
                z.push(0);
                suffix_bwt(&z)
            }
            ["-n"] => suffix_bwt(t),
            ["-u"] => {
                let mut z = t.clone();
                z.push(0);
                rotation_bwt(&z)
            }
            _ => rotation_bwt(t),
        };
        same(&format!("bwt_runs of count_r {:?} against the definition", flags), &runs, &(run_lengths(&want).len() as u64))?;
        if runs > 2 {
            labels.push("more than two BWT runs");
        }
    }
    pass_l(t.len() >= 2 && distinct(t) >= 2, labels)
}

pub fn c14(t: Tier) -> Vec<Sub> {
    vec![
        huge(Bytes::All, runs_case),
        texts_enum(
            "tool-exhaustive",
            "count_runs and count_sigma; all short texts",
            space(&[(b"ab", 0, t.pick(8, 12)), (&[0, 255], 1, t.pick(6, 9)), (&[0, 1, 128], 1, t.pick(4, 7))]),
            runs_case,
        ),
        texts_gen("tool-random", "same, structured random texts", t.pick(4000, 50_000), || text(0, 1500, Bytes::All), runs_case),
        texts_gen(
            "tool-alphabets",
            "texts with any subset of the 256 byte values in any order",
            t.pick(1500, 15_000),
            || {
                (vec(any::<u8>(), 0..40), any::<u64>(), 200usize..=256, 0usize..400)
                    .prop_map(|(drop, seed, m, extra)| {
                        let mut all: Vec<u8> = (0..=255).collect();
                        let mut r = Mix(seed);
                        for i in (1..256).rev() {
                            all.swap(i, r.below(i + 1));
                        }
                        all.truncate(m);
                        all.retain(|b| m == 256 || !drop.contains(b));
                        let k = all.len();
                        for _ in 0..extra {
                            all.push(all[r.below(k)]);
                        }
                        all
                    })
                    .boxed()
            },
            runs_case,
        ),
        texts_gen("tool-long", "long texts", t.pick(24, 300), || big(60_000, 300_000, Bytes::All), runs_case),
        dictionary(Bytes::All, runs_case),
        thresholds(t.pick(4_200_000, 16_800_000), Bytes::All, runs_case),
        texts_enum(
            "bwt-runs-exhaustive",
            "count_r against bwt in all four modes; all short texts",
            space(&[(b"ab", 1, t.pick(5, 9)), (&[1, 255, 128], 1, t.pick(3, 5))]),
            count_r_case,
        ),
        texts_gen("bwt-runs-random", "same, structured random texts", t.pick(900, 12_000), || text(1, 400, Bytes::NonZero), count_r_case),
        texts_gen(
            "bwt-runs-switch",
            "same for lengths around the internal switch at 100 bytes",
            t.pick(250, 3000),
            || of_length((94..=106).collect(), Bytes::NonZero),
            count_r_case,
        ),
        dictionary_as("bwt-runs-dictionary", Bytes::NonZero, count_r_case),
    ]
}

// ================================================================== C15

fn rle_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let t = &c.text;
    let r = rel(c);
    let o = tool("rle", &[]).stdin(t).release(r).ok(env)?;
    match rle_decode(&o.stdout) {
        None => return fail(format!("rle printed an odd number of bytes: [{}]", brief_bytes(&o.stdout))),
        Some(d) => same_bytes("expanding the output of rle", &d, t)?,
    }
    for w in o.stdout.chunks(2).collect::<Vec<_>>().windows(2) {
        ensure(w[0][0] != w[1][0] || w[0][1] == 255, || format!("neighbouring pairs {:?} carry the same byte", w))?;
    }
    let o = tool("rle", &["--human"]).stdin(t).release(r).ok(env)?;
    let want: String = run_lengths(t).into_iter().map(|(b, n)| format!("({},{})", b as char, n)).collect();
    same_bytes("rle --human", &o.stdout, want.as_bytes())?;
    let o = tool("rle", &["--onlyzero"]).stdin(t).release(r).ok(env)?;
    match rle_zero_decode(&o.stdout) {
        None => return fail(format!("rle --onlyzero ends within a pair: [{}]", brief_bytes(&o.stdout))),
        Some(d) => same_bytes("expanding the output of rle --onlyzero", &d, t)?,
    }
    // only runs of '0' are replaced, all other bytes are copied
    let mut i = 0;
    let mut copied = vec![];
    let mut pairs = vec![];
    while i < o.stdout.len() {
        if o.stdout[i] == b'0' {
            pairs.push((i, o.stdout[i + 1]));
            i += 2;
        } else {
            copied.push(o.stdout[i]);
            i += 1;
        }
    }
    same_bytes("bytes copied by rle --onlyzero", &copied, &t.iter().copied().filter(|&b| b != b'0').collect::<Vec<u8>>())?;
    for w in pairs.windows(2) {
        ensure(w[0].0 + 2 != w[1].0 || w[0].1 == 255, || "rle --onlyzero splits a run that fits into one pair".to_string())?;
    }
    pass(run_lengths(t).iter().any(|x| x.1 >= 2))
}

pub fn c15(t: Tier) -> Vec<Sub> {
    let lens: Vec<usize> = (1..=t.pick(40usize, 600)).chain(250..=262).chain(506..=518).chain(764..=772).chain([1024, 65535, 65536, 65537, 70000]).collect();
    let n = lens.len() as u64;
    vec![
        huge(Bytes::All, rle_case),
        texts_enum(
            "tool-exhaustive",
            "the three modes of rle; all short texts",
            space(&[(b"0a", 0, t.pick(7, 10)), (&[0, 255], 1, t.pick(5, 8)), (&[b'0', 0, b'b'], 1, t.pick(4, 6))]),
            rle_case,
        ),
        sub_enum(
            "tool-run-lengths",
            "single runs of many lengths, of '0' and of other bytes, alone, first, last and between other runs",
            false,
            n * 10,
            move |i| {
                let l = lens[(i / 10) as usize];
                let (b, o) = if i % 2 == 0 { (b'0', b'x') } else { (255u8, b'0') };
                let run = vec![b; l];
                Case::text(match i % 10 / 2 {
                    0 => run,
                    1 => [&run[..], &[o]].concat(),
                    2 => [&[o], &run[..]].concat(),
                    3 => [&[o], &run[..], &[o, o, b]].concat(),
                    _ => [&run[..], &[o], &run[..]].concat(),
                })
            },
            rle_case,
        ),
        texts_gen("tool-random", "structured random texts", t.pick(4000, 50_000), || text(0, 1500, Bytes::All), rle_case),
        texts_gen(
            "tool-zeros",
            "texts rich in runs of the character '0'",
            t.pick(2500, 30_000),
            || {
                vec((select(vec![b'0', b'0', 0, b'1', 255, b'\n']), prop_oneof![5 => 1usize..5, 2 => 250usize..262, 1 => 500usize..520]), 0..30)
                    .prop_map(|v| v.into_iter().flat_map(|(b, n)| std::iter::repeat(b).take(n)).collect::<Vec<u8>>())
                    .boxed()
            },
            rle_case,
        ),
        texts_gen("tool-long", "long texts", t.pick(16, 200), || big(60_000, 200_000, Bytes::All), rle_case),
        dictionary(Bytes::All, rle_case),
        thresholds(t.pick(4_200_000, 16_800_000), Bytes::All, rle_case),
    ]
}

// ================================================================== C16

fn mtf_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let t = &c.text;
    let o = tool("mtf", &[]).stdin(t).release(rel(c)).ok(env)?;
    same_bytes("decoding the output of mtf", &mtf_decode(&o.stdout), t)?;
    same_bytes("mtf", &o.stdout, &mtf_encode(t))?;
    pass(distinct(t) >= 2)
}

pub fn c16(t: Tier) -> Vec<Sub> {
    vec![
        huge(Bytes::All, mtf_case),
        texts_enum(
            "tool-exhaustive",
            "encoding and decoding; all short texts",
            space(&[(b"ab", 0, t.pick(8, 12)), (&[0, 255], 1, t.pick(8, 11)), (&[0, 1, 254, 255], 1, t.pick(5, 6))]),
            mtf_case,
        ),
        sub_enum(
            "tool-byte-pairs",
            "all pairs of byte values",
            false,
            256 * t.pick(16, 256),
            move |i| {
                let a = (i % 256) as u8;
                let b = if i < 256 * 16 { [0, 1, 2, 3, 31, 64, 97, 126, 127, 128, 129, 200, 252, 253, 254, 255][(i / 256) as usize] } else { (i / 256) as u8 };
                Case::text(vec![b, a, b, b, a])
            },
            mtf_case,
        ),
        texts_gen("tool-random", "structured random texts", t.pick(9000, 100_000), || text(0, 2000, Bytes::All), mtf_case),
        texts_gen(
            "tool-permutations",
            "permutations of all byte values, repeated",
            t.pick(1500, 15_000),
            || {
                (any::<u64>(), 1usize..4)
                    .prop_map(|(seed, reps)| {
                        let mut r = Mix(seed);
                        let mut out = vec![];
                        for _ in 0..reps {
                            let mut all: Vec<u8> = (0..=255).collect();
                            for i in (1..256).rev() {
                                all.swap(i, r.below(i + 1));
                            }
                            out.extend(all);
                        }
                        out
                    })
                    .boxed()
            },
            mtf_case,
        ),
        texts_gen("tool-long", "long texts", t.pick(24, 300), || big(60_000, 200_000, Bytes::All), mtf_case),
        dictionary(Bytes::All, mtf_case),
        thresholds(t.pick(4_200_000, 16_800_000), Bytes::All, mtf_case),
        sweep("tool-lengths", "every length up to 300 and around powers of two", lengths(300, 140_000), Bytes::All, mtf_case),
    ]
}

// ================================================================== C17

/// nums[0]: escape byte; aux: from-list then to-list, equally long
pub(crate) fn escape_parts(c: &Case) -> Result<(u8, Vec<u8>, Vec<u8>), Bad> {
    let e = c.num(0) as u8;
    let m = c.aux.len() / 2;
    let (from, to) = (c.aux[..m].to_vec(), c.aux[m..2 * m].to_vec());
    let uniq = |v: &[u8]| distinct(v) == v.len();
    need(uniq(&from) && uniq(&to) && !from.contains(&e) && !to.contains(&e) && !from.iter().any(|x| to.contains(x)))?;
    Ok((e, from, to))
}
pub(crate) fn list_args(e: u8, from: &[u8], to: &[u8], style: u64) -> Vec<String> {
    let mut a = vec!["-e".to_string(), e.to_string()];
    let join = |v: &[u8]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    match style % 3 {
        0 if !from.is_empty() => a.extend(["-f".into(), join(from), "-t".into(), join(to)]),
        1 if !from.is_empty() => a.extend([format!("--from-symbols={}", join(from)), format!("--to-symbols={}", join(to))]),
        _ => {
            // one option per symbol
            for x in from {
                a.extend(["-f".into(), x.to_string()]);
            }
            for x in to {
                a.extend(["-t".into(), x.to_string()]);
            }
        }
    }
    a
}

fn escape_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let t = &c.text;
    let (e, from, to) = escape_parts(c)?;
    let mut tl = tool("escape", &[]).stdin(t).release(rel(c));
    tl.args = list_args(e, &from, &to, c.num(1));
    let o = tl.ok(env)?;
    same_bytes("escape", &o.stdout, &escape_encode(t, e, &from, &to))?;
    for f in &from {
        ensure(!o.stdout.contains(f), || format!("the escaped text contains the byte {} that was to be escaped", f))?;
    }
    let mut tl = tool("escape", &["--is-reversion"]).stdin(&o.stdout).release(rel(c));
    tl.args.extend(list_args(e, &from, &to, c.num(1)));
    let b = tl.ok(env)?;
    same_bytes("escape --is-reversion of the escaped text", &b.stdout, t)?;
    let hit = t.iter().any(|b| from.contains(b) || *b == e);
    pass_l(hit, if t.contains(&e) { vec!["contains the escape byte"] } else { vec![] })
}

/// un-escaping what escaping cannot yield: an escape byte at the end or before a byte that is neither it nor listed
fn malformed_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let (e, from, to) = escape_parts(c)?;
    need(escape_decode(&c.text, e, &from, &to).is_none())?;
    let mut tl = tool("escape", &["--is-reversion"]).stdin(&c.text).release(rel(c));
    tl.args.extend(list_args(e, &from, &to, c.num(1)));
    let o = tl.run(env)?;
    ensure(o.code != Some(0), || format!("{} ends with success on a text that no escaping yields", o.cmd))?;
    pass_l(true, vec![if c.text.last() == Some(&e) { "escape byte at the end" } else { "escape byte elsewhere" }])
}

pub fn c17(t: Tier) -> Vec<Sub> {
    let confs: Vec<(u8, Vec<u8>)> = vec![
        (254, vec![0, 255]),
        (0, vec![]),
        (0, vec![97, 98]),
        (98, vec![97, 99]),
        (255, vec![0, 1, 253, 254]),
        (97, vec![98, 99, 100, 101]),
    ];
    let sp = space(&[(&[97, 98, 99, 0], 0, t.pick(4, 6)), (&[0, 1, 253, 254, 255], 1, t.pick(3, 5))]);
    let (n, m) = (sp.len(), confs.len() as u64);
    let bad = space(&[(&[97, 98, 99], 1, t.pick(4, 6))]);
    vec![
        huge(Bytes::All, |c, env| escape_case(&Case::new(c.text.clone(), vec![255, b'b', 0, 1], vec![254, 0]), env)),
        sub_enum(
            "tool-exhaustive",
            "escaping and un-escaping; all short texts under fixed configurations",
            false,
            n * m,
            move |i| {
                let (e, lists) = &confs[(i % m) as usize];
                Case::new(sp.nth(i / m), lists.clone(), vec![*e as u64, i / m])
            },
            escape_case,
        ),
        sub_gen(
            "tool-random",
            "random valid configurations (escape byte, from and to lists) and texts rich in the listed bytes",
            false,
            t.pick(6000, 80_000),
            || {
                (any::<u64>(), 0usize..=100, prop_oneof![3 => 0usize..5, 1 => 0usize..100], 0u64..3, any::<u8>())
                    .prop_flat_map(|(seed, _, m, style, rich)| {
                        let mut r = Mix(seed);
                        let mut all: Vec<u8> = (0..=255).collect();
                        for i in (1..256).rev() {
                            all.swap(i, r.below(i + 1));
                        }
                        let e = all[0];
                        let lists = all[1..1 + 2 * m].to_vec();
                        let mut pal = lists.clone();
                        pal.push(e);
                        pal.push(all[255]);
                        let special = (vec(any::<u16>(), 0..120)).prop_map(move |v| {
                            v.into_iter().map(|i| pal[i as usize % pal.len()]).collect::<Vec<u8>>()
                        });
                        let st = if rich % 2 == 0 { special.boxed() } else { text(0, 500, Bytes::All) };
                        st.prop_map(move |t| Case::new(t, lists.clone(), vec![e as u64, style]))
                    })
            },
            escape_case,
        ),
        sub_gen(
            "tool-long",
            "long texts, escaping zero bytes",
            false,
            t.pick(12, 150),
            || big(60_000, 150_000, Bytes::All).prop_map(|t| Case::new(t, vec![0, 255], vec![254, 0])),
            escape_case,
        ),
        sub_enum(
            "tool-thresholds",
            "texts in which a quantity is a power of two or a neighbour of it, fixed configurations",
            false,
            (SHAPES * threshold_sizes(t.pick(4_200_000, 16_800_000)).len()) as u64,
            move |i| {
                let t = threshold_text(i, &threshold_sizes(t.pick(4_200_000, 16_800_000)), Bytes::All);
                match i % 3 {
                    0 => Case::new(t, vec![0, 255], vec![254, 0]),
                    1 => Case::new(t, vec![b'a', 255, b'c', b'd'], vec![0, 0]),
                    _ => Case::new(t, vec![1, 128, 3, 4], vec![b'b' as u64, 0]),
                }
            },
            escape_case,
        ),
        sub_enum(
            "tool-dictionary",
            "texts with well-known byte sequences or literals of the source at the start, at the end, inside, or repeated; their bytes escaped",
            false,
            dictionary_texts(Bytes::All).len() as u64 * 2,
            {
                let texts = dictionary_texts(Bytes::All);
                move |i| {
                    let t = texts[i as usize / 2].clone();
                    let free = |skip: usize| (0..=255u8).rev().filter(|b| !t.contains(b)).nth(skip).unwrap();
                    let (x, y) = (t[0], t[t.len() - 1]);
                    match (i % 2, x == y) {
                        (0, _) => Case::new(t.clone(), vec![x, free(0)], vec![free(1) as u64, i % 3]),
                        (_, false) => Case::new(t.clone(), vec![x, free(0)], vec![y as u64, i % 3]),
                        _ => Case::new(t.clone(), vec![free(0), free(1)], vec![x as u64, i % 3]),
                    }
                }
            },
            escape_case,
        ),
        sub_enum(
            "malformed-exhaustive",
            "un-escaping of all short texts that no escaping yields, fixed configurations",
            false,
            bad.len() as u64 * 3,
            move |i| {
                let (lists, e): (Vec<u8>, u64) = match i % 3 {
                    0 => (vec![98, 97], 99),
                    1 => (vec![], 99),
                    _ => (vec![1, 100, 97, 2], 99),
                };
                Case::new(bad.nth(i / 3), lists, vec![e, i])
            },
            malformed_case,
        ),
        sub_gen(
            "malformed-random",
            "escaped texts into which an escape byte, alone or with another byte, was inserted",
            false,
            t.pick(2500, 30_000),
            || {
                (any::<u64>(), 0usize..8, text(0, 200, Bytes::All), any::<u16>(), 0u8..3).prop_map(|(seed, m, t, at, kind)| {
                    let mut r = Mix(seed);
                    let mut all: Vec<u8> = (0..=255).collect();
                    for i in (1..256).rev() {
                        all.swap(i, r.below(i + 1));
                    }
                    let e = all[0];
                    let (from, to) = (all[1..1 + m].to_vec(), all[1 + m..1 + 2 * m].to_vec());
                    let mut x = escape_encode(&t, e, &from, &to);
                    let at = if kind == 0 { x.len() } else { at as usize * (x.len() + 1) / 65536 };
                    x.insert(at, e);
                    if kind == 2 {
                        // often one of the bytes that were replaced, or the neighbour of one
                        let y = match r.below(3) {
                            0 if m > 0 => from[r.below(m)],
                            1 if m > 0 => to[r.below(m)].wrapping_add(1),
                            _ => r.below(256) as u8,
                        };
                        x.insert(at + 1, y);
                    }
                    Case::new(x, [from, to].concat(), vec![e as u64, r.below(3) as u64])
                })
            },
            malformed_case,
        ),
    ]
}

// ================================================================== C19

fn reverse_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let t = &c.text;
    let r = rel(c);
    let o = tool("reverse", &[]).stdin(t).release(r).ok(env)?;
    let mut w = t.clone();
    w.reverse();
    same_bytes("reverse", &o.stdout, &w)?;
    let o = tool("reverse", &[]).stdin(&o.stdout).release(r).ok(env)?;
    same_bytes("reverse twice", &o.stdout, t)?;
    if let Some(&p) = c.nums.first() {
        let p = p as usize;
        let o = tool("reverse", &["-p", &p.to_string()]).release(r);
        let o = if c.hash64() / 4 % 2 == 0 {
            o.stdin(t)
        } else {
            let f = env.dir.join("to-reverse");
            std::fs::write(&f, t).map_err(|e| Bad::Abort(format!("i/o error of the harness: {}", e)))?;
            o.arg("-i").arg(f.to_str().unwrap())
        };
        let o = o.ok(env)?;
        let mut w = if p == 0 { t.clone() } else { t[..p.min(t.len())].to_vec() };
        w.reverse();
        same_bytes(&format!("reverse -p {}", p), &o.stdout, &w)?;
    }
    pass(t.len() >= 2 && distinct(t) >= 2)
}

pub fn c19(t: Tier) -> Vec<Sub> {
    vec![
        huge(Bytes::All, reverse_case),
        texts_enum(
            "tool-exhaustive",
            "reversal and double reversal; all short texts",
            space(&[(b"ab", 0, t.pick(7, 10)), (&[0, 255], 1, t.pick(6, 9)), (&[10, 13, 0xc3, 0xa4], 1, t.pick(4, 6))]),
            reverse_case,
        ),
        sub_gen(
            "tool-random",
            "structured random texts with prefix lengths",
            false,
            t.pick(7000, 90_000),
            || (text(0, 1200, Bytes::All), 0u64..1400, any::<u64>()).prop_map(|(t, p, s)| {
                let p = if s % 8 == 0 { wide_number(s / 8) } else if p > 1200 { p } else { p % (t.len() as u64 + 3) };
                Case::new(t, vec![], vec![p])
            }),
            reverse_case,
        ),
        sweep("tool-lengths", "every length up to 300 and around powers of two", lengths(t.pick(300, 2000), 1_100_000), Bytes::All, reverse_case),
        thresholds(t.pick(4_200_000, 16_800_000), Bytes::All, reverse_case),
        dictionary(Bytes::All, |c, env| reverse_case(&Case::new(c.text.clone(), vec![], vec![c.hash64() / 4 % (c.text.len() as u64 + 2)]), env)),
        texts_gen("tool-long", "long texts", t.pick(24, 300), || big(60_000, 1_000_000, Bytes::All), reverse_case),
    ]
}
