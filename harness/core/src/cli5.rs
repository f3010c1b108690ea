//! The remedy for zero bytes (C34) and relations between the measures of related texts (C35).
use crate::case::*;
use crate::cli::*;
use crate::cli3::{normal, release, INVS, READERS};
use crate::frame::*;
use crate::gens::*;
use crate::oracle::*;
use crate::tool::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use std::os::unix::process::CommandExt;
use std::process::Command;

fn io(e: std::io::Error) -> Bad {
    Bad::Abort(format!("i/o error of the harness: {}", e))
}

// ================================================================== C34

/// escape <configuration> < text | tool; aux = symbols ++ replacements, nums = [escape byte, option style, tool]
fn piped_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let (e, from, to) = escape_parts(c)?;
    need(e != 0 && from.contains(&0))?;
    let t = &c.text;
    let inv = &INVS[c.num(2) as usize % READERS];
    need(!inv.args.contains(&"--is-reversion"))?;
    let esc = escape_encode(t, e, &from, &to);
    need(inv.accepts(&esc))?;
    let rel = release(c);

    // the tool on a file with the escaped text
    let want = inv.tool(rel).input(In::Bytes(esc.clone())).run(env)?;
    // the pipeline
    let (input, outp, errp) = (env.dir.join("text"), env.dir.join("piped"), env.dir.join("piped.err"));
    std::fs::write(&input, t).map_err(io)?;
    let mut p = Command::new("timeout");
    p.args(["-k", "5", "200", "bash", "-o", "pipefail", "-c"]);
    p.arg(r#"n=$1; shift; E=("${@:1:n}"); shift $n; "${E[@]}" | "$@""#).arg("pipeline");
    let mut esc_args = vec![exe("escape", rel).display().to_string()];
    match c.num(1) {
        // as in the documentation
        3 if from == [0] && to.len() == 1 => esc_args.extend(["-f".into(), "0".into(), "-t".into(), to[0].to_string(), "-e".into(), e.to_string()]),
        s => esc_args.extend(list_args(e, &from, &to, s)),
    }
    p.arg(esc_args.len().to_string()).args(&esc_args).arg(exe(inv.bin, rel)).args(inv.args);
    p.env_remove("RUST_LOG").env("RUST_BACKTRACE", "0");
    p.stdin(std::fs::File::open(&input).map_err(io)?).stdout(std::fs::File::create(&outp).map_err(io)?).stderr(std::fs::File::create(&errp).map_err(io)?);
    unsafe {
        p.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: 1 << 29, rlim_max: 1 << 29 };
            libc::setrlimit(libc::RLIMIT_FSIZE, &l);
            Ok(())
        });
    }
    let st = spawn(&mut p).and_then(|mut x| x.wait()).map_err(io)?;
    if matches!(st.code(), Some(124) | Some(137)) {
        return Err(Bad::Abort("a pipeline took more than 200 s".into()));
    }
    let got = std::fs::read(&outp).map_err(io)?;
    let what = format!("escape {} | {} {}", esc_args[1..].join(" "), inv.bin, inv.args.join(" "));
    let err = String::from_utf8_lossy(&std::fs::read(&errp).map_err(io)?).lines().take(4).collect::<Vec<_>>().join(" | ");
    if inv.bin == "is_stringattractor" {
        ensure(matches!(st.code(), Some(0) | Some(2)), || format!("{} ends with status {:?}: {}", what, st.code(), err))?;
    } else {
        ensure(st.code() == Some(0), || format!("{} fails with status {:?}: {}", what, st.code(), err))?;
    }
    ensure(st.code() == want.code, || format!("{} ends with status {:?}, the tool on the escaped text with {:?}", what, st.code(), want.code))?;
    same_bytes(&format!("result of {}", what), &normal(inv, &got), &normal(inv, &want.stdout))?;
    let mut z = esc.clone();
    z.push(0);
    match (inv.bin, inv.args) {
        ("bwt", []) | ("bwt", ["-u"]) => {
            let Some(mut x) = invert_bwt(&got) else { return fail(format!("the output of {} is no BWT", what)) };
            if x.last() == Some(&0) {
                x.pop();
            }
            match escape_decode(&x, e, &from, &to) {
                Some(y) => same_bytes(&format!("inverted and un-escaped output of {}", what), &y, t)?,
                None => return fail(format!("the inverted output of {} is no escaped text", what)),
            }
        }
        ("count_r", args) if !args.contains(&"-n") => {
            let o = Out { stdout: got, ..want };
            same(&format!("length of {}", what), &o.result_num("length")?, &(z.len() as u64))?;
            same(&format!("BWT runs of {}", what), &o.result_num("bwt_runs")?, &(run_lengths(&suffix_bwt(&z)).len() as u64))?;
        }
        ("entropy", args) | ("entropy_kmer", args) => {
            let k = args.get(1).map_or(0, |x| x.parse().unwrap());
            let o = Out { stdout: got, ..want };
            close(&format!("entropy by {}", what), entropy_of(&o, z.len())?, entropy(&z, k))?;
        }
        _ => {}
    }
    let _ = std::fs::remove_file(&outp);
    pass_l(t.contains(&0), vec![inv.bin, if t.contains(&e) { "contains the escape byte" } else { "" }].into_iter().filter(|x| !x.is_empty()).collect())
}
/// texts in which zero bytes and the bytes of the configuration are frequent
fn zero_texts(max: usize) -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        2 => vec(prop_oneof![3 => Just(0u8), 1 => Just(254u8), 1 => Just(255u8), 2 => Just(1u8), 1 => any::<u8>()], 0..40),
        2 => text(0, max, Bytes::All),
        2 => text(0, max, Bytes::All).prop_map(|t| {
            // its least letter becomes the zero byte
            let m = t.iter().min().copied().unwrap_or(0);
            t.into_iter().map(|b| if b == m { 0 } else { b }).collect()
        }),
    ]
    .boxed()
}
pub fn c34(t: Tier) -> Vec<Sub> {
    let sp = Space(vec![(vec![0, 254, 255, 1], 0, t.pick(3, 5)), (vec![0, 97], 4, t.pick(6, 10))]);
    let n = sp.len();
    let doc = || zero_texts(300).prop_map(|t| t);
    vec![
        sub_enum(
            "documented-exhaustive",
            "the documented options, all short texts; every tool in turn",
            false,
            n * 5,
            move |i| Case::new(sp.nth(i / 5), vec![0, 255], vec![254, 3, i % 5 * 5 + i / 5]),
            piped_case,
        ),
        sub_gen(
            "documented-random",
            "the documented options, random texts with zero bytes",
            false,
            t.pick(1500, 20_000),
            move || (doc(), 0u64..READERS as u64).prop_map(|(t, i)| Case::new(t, vec![0, 255], vec![254, 3, i])),
            piped_case,
        ),
        sub_gen(
            "configured-random",
            "random escape byte, further symbols and replacements",
            false,
            t.pick(1500, 20_000),
            || {
                (any::<u64>(), 0usize..6, zero_texts(200), 0u64..3, 0u64..READERS as u64).prop_map(|(seed, m, mut t, style, i)| {
                    let mut r = Mix(seed);
                    let mut all: Vec<u8> = (1..=255).collect();
                    for i in (1..all.len()).rev() {
                        all.swap(i, r.below(i + 1));
                    }
                    let e = all[0];
                    let mut from = all[1..1 + m].to_vec();
                    from.insert(r.below(m + 1), 0);
                    let to = all[1 + m..2 + 2 * m].to_vec();
                    for b in t.iter_mut() {
                        match r.below(12) {
                            0 => *b = e,
                            1 => *b = from[r.below(m + 1)],
                            2 => *b = to[r.below(m + 1)],
                            _ => {}
                        }
                    }
                    Case::new(t, [from, to].concat(), vec![e as u64, style, i])
                })
            },
            piped_case,
        ),
        sub_gen(
            "documented-dictionary",
            "the documented options, texts with well-known byte sequences or literals of the source",
            false,
            t.pick(800, 10_000),
            || (select(dictionary_texts(Bytes::All)), 0u64..READERS as u64).prop_map(|(t, i)| Case::new(t, vec![0, 255], vec![254, 3, i])),
            piped_case,
        ),
        sub_gen(
            "documented-long",
            "long texts: pipes fill up",
            false,
            t.pick(40, 500),
            || {
                (big(30_000, 250_000, Bytes::All), 0u64..22).prop_map(|(t, i)| {
                    // quadratic modes get shorter texts
                    let inv = &INVS[i as usize];
                    let most = if inv.args.contains(&"-u") || inv.bin == "is_stringattractor" { 4000 } else { t.len() };
                    let t = t[..most].to_vec();
                    let m = t.iter().max().copied().unwrap();
                    Case::new(t.into_iter().map(|b| if b == m { 0 } else { b }).collect(), vec![0, 255], vec![254, 3, i])
                })
            },
            piped_case,
        ),
    ]
}

// ================================================================== C35

struct Measure {
    rel: bool,
    big: bool,
}
impl Measure {
    fn num(&self, bin: &'static str, args: &[&str], key: &str, t: &[u8], env: &mut Env) -> Result<u64, Bad> {
        // the dev build of count_z evaluates quadratic assertions
        let mut tl = tool(bin, args).stdin(t).release(self.rel || (bin == "count_z" && t.len() > 3000));
        tl.small = tl.small && !self.big;
        tl.ok(env)?.result_num(key)
    }
    fn z(&self, t: &[u8], env: &mut Env) -> Result<u64, Bad> {
        self.num("count_z", &[], "factors", t, env)
    }
    fn sigma(&self, t: &[u8], env: &mut Env) -> Result<u64, Bad> {
        self.num("count_sigma", &[], "sigma", t, env)
    }
    fn r(&self, args: &[&str], t: &[u8], env: &mut Env) -> Result<u64, Bad> {
        self.num("count_r", args, "bwt_runs", t, env)
    }
    fn v(&self, t: &[u8], env: &mut Env) -> Result<u64, Bad> {
        self.num("count_lexparse", &[], "factors", t, env)
    }
    fn lyndon(&self, t: &[u8], env: &mut Env) -> Result<u64, Bad> {
        self.num("lyndonfactorization", &[], "factors", t, env)
    }
    fn runs(&self, t: &[u8], env: &mut Env) -> Result<u64, Bad> {
        let o = tool("count_runs", &[]).stdin(t).release(self.rel).ok(env)?;
        match o.text()?.trim().parse() {
            Ok(x) => Ok(x),
            _ => fail(format!("{} prints no number", o.cmd)),
        }
    }
    fn h(&self, bin: &'static str, k: usize, t: &[u8], env: &mut Env) -> Result<f64, Bad> {
        let o = tool(bin, &["-o", &k.to_string()]).stdin(t).release(self.rel).ok(env)?;
        entropy_of(&o, t.len() + 1)
    }
    fn attractor(&self, t: &[u8], pos: &[usize], env: &mut Env) -> Result<bool, Bad> {
        let mut tl = tool("is_stringattractor", &[]).stdin(t).release(self.rel);
        if !pos.is_empty() {
            tl.args.push("-a".into());
            tl.args.extend(pos.iter().map(|p| p.to_string()));
        }
        let o = tl.run(env)?;
        let s = String::from_utf8_lossy(&o.stdout).to_string();
        match (o.code, s.lines().last()) {
            (Some(0), Some("valid attractor")) => Ok(true),
            (Some(2), Some("not a valid attractor")) => Ok(false),
            (code, l) => fail(format!("{} ends with status {:?} and {:?}: {}", o.cmd, code, l, o.err_tail())),
        }
    }
    fn mus(&self, t: &[u8], env: &mut Env) -> Result<Vec<(u64, u64)>, Bad> {
        mus_list(t, self.rel, env)
    }
}
fn leq<T: PartialOrd + std::fmt::Display>(what: &str, a: T, b: T) -> Result<(), Bad> {
    ensure(a <= b, || format!("{}: {} > {}", what, a, b))
}
/// starting positions of the factors of a factor file
fn starts(f: &[(u64, u64)]) -> Vec<usize> {
    let mut at = 0;
    f.iter()
        .map(|x| {
            let s = at;
            at += (x.1 as usize).max(1);
            s
        })
        .collect()
}
fn ends(f: &[(u64, u64)]) -> Vec<usize> {
    let mut at = 0;
    f.iter()
        .map(|x| {
            at += (x.1 as usize).max(1);
            at - 1
        })
        .collect()
}
/// text positions of the letters at the heads (or tails) of the runs of a BWT with terminator
fn run_samples(b: &[u8], heads: bool) -> Option<Vec<usize>> {
    let n = b.len();
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|&i| b[i]);
    // row of the suffix beginning one position later
    let mut pos = vec![usize::MAX; n];
    let mut row = b.iter().position(|&x| x == 0)?;
    // row is the rank of the suffix 0; its BWT letter is the terminator, at position n-1
    for p in 0..n {
        if pos[row] != usize::MAX {
            return None;
        }
        pos[row] = p;
        row = order[row];
    }
    let mut out = vec![];
    for i in 0..n {
        let edge = if heads { i == 0 || b[i - 1] != b[i] } else { i + 1 == n || b[i + 1] != b[i] };
        if edge && b[i] != 0 {
            out.push(pos[i] - 1);
        }
    }
    out.sort();
    Some(out)
}
fn permutation(seed: u64) -> Vec<u8> {
    let mut r = Mix(seed);
    let mut all: Vec<u8> = (1..=255).collect();
    for i in (1..all.len()).rev() {
        all.swap(i, r.below(i + 1));
    }
    all.insert(0, 0);
    all
}
/// an order-preserving renaming of the letters of t
fn spread(t: &[u8], seed: u64) -> Vec<u8> {
    let mut l = t.to_vec();
    l.sort();
    l.dedup();
    let mut r = Mix(seed);
    let mut pick: Vec<u8> = (1..=255).collect();
    while pick.len() > l.len() {
        let x = r.below(pick.len());
        pick.remove(x);
    }
    t.iter().map(|b| pick[l.binary_search(b).unwrap()]).collect()
}

const RELATIONS: [&str; 16] = [
    "LZ77 factor ends are an attractor",
    "LZ77 factor starts are an attractor",
    "lex-parse factor ends are an attractor",
    "BWT run heads are an attractor",
    "BWT run tails are an attractor",
    "an attractor meets every minimal unique substring",
    "sizes bound each other",
    "reversal",
    "renaming of letters",
    "order-preserving renaming",
    "entropies fall with the order",
    "rotation",
    "power",
    "appended and prepended letters",
    "concatenation",
    "attractors grow and are renamed",
];
/// sorting the rotations of a periodic text takes quadratic time
const SORTABLE: usize = 4000;
fn relation_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let t = &c.text;
    need(!t.is_empty() && !t.contains(&0))?;
    let n = t.len();
    let k = c.num(0) as usize % RELATIONS.len();
    let seed = c.num(1);
    let m = Measure { rel: rel(c), big: false };
    let own = |t: &[u8]| Case::text(t.to_vec());
    let with_end = |t: &[u8]| {
        let mut z = t.to_vec();
        z.push(0);
        z
    };
    match k {
        0..=4 => {
            let pos = match k {
                0 => ends(&factor_file("count_z", c, env, m.rel || n > 3000)?.0),
                1 => starts(&factor_file("count_z", c, env, m.rel || n > 3000)?.0),
                2 => ends(&factor_file("count_lexparse", &own(t), env, m.rel)?.0),
                _ => {
                    let b = tool("bwt", &[]).stdin(t).release(m.rel).ok(env)?.stdout;
                    match run_samples(&b, k == 3) {
                        Some(p) => p,
                        None => return fail("the output of bwt is no BWT"),
                    }
                }
            };
            let mut p = pos.clone();
            p.sort();
            p.dedup();
            ensure(p.len() == pos.len() && p.iter().all(|&x| x < n), || format!("{:?} are no positions of a text of length {}", pos, n))?;
            ensure(m.attractor(t, &pos, env)?, || format!("{}: is_stringattractor rejects {:?}", RELATIONS[k], pos))?;
        }
        5 => {
            // all positions but those within one minimal unique substring
            need(n <= 3000)?;
            let l = m.mus(t, env)?;
            ensure(!l.is_empty(), || "no minimal unique substring".into())?;
            let (s, len) = l[seed as usize % l.len()];
            ensure(len >= 1 && s + len <= n as u64, || format!("({},{}) is no substring", s, len))?;
            let pos: Vec<usize> = (0..n).filter(|&p| !(s as usize..(s + len) as usize).contains(&p)).collect();
            need(pos.len() <= 3000)?;
            ensure(!m.attractor(t, &pos, env)?, || format!("is_stringattractor accepts all positions but those of the minimal unique substring ({},{})", s, len))?;
            // shorter substrings occur elsewhere, so that leaving out fewer positions needs another reason
            let full: Vec<usize> = (0..n).collect();
            ensure(m.attractor(t, &full, env)?, || "is_stringattractor rejects the set of all positions".into())?;
        }
        6 => {
            let z = with_end(t);
            let (s, zz, r, ru, lz) = (m.sigma(t, env)?, m.z(t, env)?, m.r(&[], t, env)?, m.runs(t, env)?, m.v(&z, env)?);
            leq("alphabet size and LZ77 factors", s, zz)?;
            leq("alphabet size with terminator and BWT runs", s + 1, r)?;
            leq("lex-parse factors and twice the BWT runs (with terminator)", lz, 2 * r)?;
            leq("alphabet size and runs", s, ru)?;
            leq("runs and length", ru, n as u64)?;
            leq("LZ77 factors and twice the runs", zz, 2 * ru)?;
            leq("Lyndon factors and length", m.lyndon(t, env)?, n as u64)?;
            if n <= SORTABLE {
                same("BWT runs with terminator, of suffixes and of rotations", &m.r(&["-u"], t, env)?, &r)?;
            }
            let h = m.h("entropy", 0, t, env)?;
            leq("entropy and logarithm of the alphabet size", h, ((s + 1) as f64).log2() + 1e-9)?;
        }
        7 => {
            let u: Vec<u8> = t.iter().rev().copied().collect();
            let rv = tool("reverse", &[]).stdin(t).release(m.rel).ok(env)?.stdout;
            same_bytes("reverse", &rv, &u)?;
            same("alphabet size of the reversed text", &m.sigma(&rv, env)?, &m.sigma(t, env)?)?;
            same("runs of the reversed text", &m.runs(&rv, env)?, &m.runs(t, env)?)?;
            close("entropy of the reversed text", m.h("entropy", 0, &rv, env)?, m.h("entropy", 0, t, env)?)?;
            let mut a: Vec<(u64, u64)> = m.mus(&rv, env)?.into_iter().map(|(s, l)| (n as u64 - s - l, l)).collect();
            a.reverse();
            same("mirrored minimal unique substrings", &a, &m.mus(t, env)?)?;
        }
        8 => {
            let p = permutation(seed);
            let u: Vec<u8> = t.iter().map(|&b| p[b as usize]).collect();
            same("alphabet size of the renamed text", &m.sigma(&u, env)?, &m.sigma(t, env)?)?;
            same("runs of the renamed text", &m.runs(&u, env)?, &m.runs(t, env)?)?;
            same("LZ77 factors of the renamed text", &m.z(&u, env)?, &m.z(t, env)?)?;
            same("minimal unique substrings of the renamed text", &m.mus(&u, env)?, &m.mus(t, env)?)?;
            let o = seed as usize % 4;
            close("entropy of the renamed text", m.h("entropy", o, &u, env)?, m.h("entropy", o, t, env)?)?;
        }
        9 => {
            let u = spread(t, seed);
            for f in [&[][..], &["-n"], &["-u", "-n"]] {
                if f.len() == 2 && n > SORTABLE {
                    continue;
                }
                same(&format!("BWT runs {:?} of the renamed text", f), &m.r(f, &u, env)?, &m.r(f, t, env)?)?;
            }
            same("lex-parse factors of the renamed text", &m.v(&u, env)?, &m.v(t, env)?)?;
            same("Lyndon factors of the renamed text", &m.lyndon(&u, env)?, &m.lyndon(t, env)?)?;
            same("LZ77 factors of the renamed text", &m.z(&u, env)?, &m.z(t, env)?)?;
        }
        10 => {
            let bin = if seed % 2 == 0 { "entropy" } else { "entropy_kmer" };
            let mut last: Option<f64> = None;
            for k in if seed % 2 == 0 { 0..9usize } else { 1..8 } {
                if k > n {
                    break;
                }
                let h = m.h(bin, k, t, env)?;
                leq("zero and the entropy", 0.0, h)?;
                if let Some(x) = last {
                    leq(&format!("{} of order {} and of order {}", bin, k, k - 1), h, x + 1e-9)?;
                }
                last = Some(h);
            }
        }
        11 => {
            let i = seed as usize % n;
            let u = rotate(t, i);
            if n <= SORTABLE {
                same(&format!("BWT runs of the rotation by {}", i), &m.r(&["-u", "-n"], &u, env)?, &m.r(&["-u", "-n"], t, env)?)?;
            }
            same("alphabet size of the rotation", &m.sigma(&u, env)?, &m.sigma(t, env)?)?;
            close("entropy of the rotation", m.h("entropy", 0, &u, env)?, m.h("entropy", 0, t, env)?)?;
            let (a, b) = (m.runs(t, env)?, m.runs(&u, env)?);
            ensure(a.abs_diff(b) <= 1, || format!("{} runs, but the rotation by {} has {}", a, i, b))?;
        }
        12 => {
            let e = 2 + seed as usize % 3;
            let u = t.repeat(e);
            let (a, b) = (m.z(t, env)?, m.z(&u, env)?);
            ensure(a <= b && b <= a + 1, || format!("{} LZ77 factors, but the power {} has {}", a, e, b))?;
            if u.len() <= SORTABLE {
                same(&format!("BWT runs of the rotations of the power {}", e), &m.r(&["-u", "-n"], &u, env)?, &m.r(&["-u", "-n"], t, env)?)?;
                let b1 = tool("bwt", &["-u", "-n"]).stdin(t).release(m.rel).ok(env)?.stdout;
                let b2 = tool("bwt", &["-u", "-n"]).stdin(&u).release(m.rel).ok(env)?.stdout;
                same_bytes("transform of the power", &b2, &b1.iter().flat_map(|&x| std::iter::repeat(x).take(e)).collect::<Vec<u8>>())?;
            }
        }
        13 => {
            let x = seed as u8;
            let mut u = t.clone();
            u.push(x);
            let (a, b) = (m.z(t, env)?, m.z(&u, env)?);
            ensure(a <= b && b <= a + 1, || format!("{} LZ77 factors, but {} after appending a letter", a, b))?;
            // the lengths of all factors but the last remain
            let f = factor_file("count_z", c, env, m.rel || n > 3000)?.0;
            let g = factor_file("count_z", &own(&u), env, m.rel || n > 3000)?.0;
            let keep = f.len() - 1;
            let l = |v: &[(u64, u64)]| v[..keep].iter().map(|x| x.1).collect::<Vec<_>>();
            same("lengths of the LZ77 factors after appending a letter", &l(&g), &l(&f))?;
            // a zero byte is less than all letters
            same("Lyndon factors after appending a least letter", &m.lyndon(&with_end(t), env)?, &(m.lyndon(t, env)? + 1))?;
            let mut w = vec![0];
            w.extend_from_slice(t);
            same("Lyndon factors after prepending a least letter", &m.lyndon(&w, env)?, &1)?;
            let s = m.sigma(t, env)?;
            same("alphabet size with a further letter", &m.sigma(&w, env)?, &(s + 1))?;
            same("alphabet size with a letter", &m.sigma(&u, env)?, &(s + !t.contains(&x) as u64))?;
            same("runs with a letter", &m.runs(&u, env)?, &(m.runs(t, env)? + (t[n - 1] != x) as u64))?;
        }
        14 => {
            // the text cut in two
            let i = seed as usize % (n + 1);
            let (a, b) = (&t[..i], &t[i..]);
            need(!a.is_empty() && !b.is_empty())?;
            leq("LZ77 factors of a text and of its parts", m.z(t, env)?, m.z(a, env)? + m.z(b, env)?)?;
            leq("LZ77 factors of a prefix and of the text", m.z(a, env)?, m.z(t, env)?)?;
            leq("alphabet size of a text and of its parts", m.sigma(t, env)?, m.sigma(a, env)? + m.sigma(b, env)?)?;
            same("runs of a text and of its parts", &m.runs(t, env)?, &(m.runs(a, env)? + m.runs(b, env)? - (a[i - 1] == b[0]) as u64))?;
            leq("Lyndon factors of a text and of its parts", m.lyndon(t, env)?, m.lyndon(a, env)? + m.lyndon(b, env)?)?;
        }
        _ => {
            need(n <= 3000)?;
            // any set of positions: a superset of an attractor is one; renaming the letters changes nothing
            let mut r = Mix(seed);
            let (den, num) = (1 + r.below(8), 1 + r.below(8));
            let pos: Vec<usize> = (0..n).filter(|_| r.below(den + num) < num).collect();
            let was = m.attractor(t, &pos, env)?;
            let mut more = pos.clone();
            more.push(r.below(n));
            more.dedup();
            if was {
                ensure(m.attractor(t, &more, env)?, || format!("{:?} is an attractor, but not {:?}", pos, more))?;
            }
            let p = permutation(seed);
            let u: Vec<u8> = t.iter().map(|&b| p[b as usize]).collect();
            same(&format!("verdict on {:?} after renaming the letters", pos), &m.attractor(&u, &pos, env)?, &was)?;
            let rv: Vec<u8> = t.iter().rev().copied().collect();
            let mirror: Vec<usize> = pos.iter().map(|p| n - 1 - p).collect();
            same(&format!("verdict on {:?} in the reversed text", mirror), &m.attractor(&rv, &mirror, env)?, &was)?;
        }
    }
    pass_l(n >= 2 && distinct(t) >= 2, vec![RELATIONS[k]])
}
pub fn c35(t: Tier) -> Vec<Sub> {
    let sp = Space(vec![(b"ab".to_vec(), 1, t.pick(6, 9)), (b"abc".to_vec(), 1, t.pick(4, 6)), (vec![1, 255], 1, t.pick(3, 5))]);
    let n = sp.len();
    let m = RELATIONS.len() as u64;
    vec![
        sub_enum(
            "relations-exhaustive",
            "every relation on all short texts; nums = [relation, parameter]",
            false,
            n * m,
            move |i| Case::new(sp.nth(i / m), vec![], vec![i % m, i / m * 7 + 3]),
            relation_case,
        ),
        sub_gen(
            "relations-random",
            "every relation on structured random texts",
            false,
            t.pick(2500, 40_000),
            || (text(1, 400, Bytes::NonZero), 0u64..16, any::<u64>()).prop_map(|(t, k, s)| Case::new(t, vec![], vec![k, s])),
            relation_case,
        ),
        sub_gen(
            "relations-dictionary",
            "same, texts with well-known byte sequences or literals of the source",
            false,
            t.pick(1000, 12_000),
            || (select(dictionary_texts(Bytes::NonZero)), 0u64..16, any::<u64>()).prop_map(|(t, k, s)| Case::new(t, vec![], vec![k, s])),
            relation_case,
        ),
        sub_gen(
            "relations-long",
            "same, long texts",
            false,
            t.pick(96, 1200),
            || (big(2_500, 60_000, Bytes::NonZero), 0u64..16, any::<u64>()).prop_map(|(t, k, s)| Case::new(t, vec![], vec![k, s])),
            relation_case,
        ),
    ]
}
