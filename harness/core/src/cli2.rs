//! Checks on the command-line tools: generators, refusals, pipelines and result lines.
use crate::case::*;
use crate::frame::*;
use crate::gens::*;
use crate::oracle::*;
use crate::tool::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;

fn rel(c: &Case) -> bool {
    c.hash64() % 4 == 0
}
fn need(cond: bool) -> Result<(), Bad> {
    if cond {
        Ok(())
    } else {
        Err(Bad::Discard)
    }
}
fn read_out(p: &std::path::Path, what: &str) -> Result<Vec<u8>, Bad> {
    let r = std::fs::read(p).map_err(|e| Bad::Fail(format!("{}: no output file: {}", what, e)));
    let _ = std::fs::remove_file(p);
    r
}

// ================================================================== C20 - C22

/// the word tool for all orders 0..=max of the named generators: standard output and output file
fn word_tool(names: &'static [(&'static str, u64)]) -> Sub {
    let mut all = vec![];
    for (i, (_, max)) in names.iter().enumerate() {
        for k in 0..=*max {
            for m in 0..4u64 {
                all.push(vec![i as u64, k, m]);
            }
        }
    }
    sub_enum(
        "tool",
        "the word tool: nums = [generator, order, mode], mode bit 0: output file, bit 1: release build",
        false,
        all.len() as u64,
        move |i| Case::nums(all[i as usize].clone()),
        move |c, env| {
            let (name, max) = names[c.num(0) as usize % names.len()];
            let k = c.num(1);
            need(k <= max)?;
            let ks = k.to_string();
            let mut t = tool("word", &["-k", &ks, "-n", name]).release(c.num(2) & 2 != 0);
            let of = env.dir.join("word");
            let got = if c.num(2) & 1 != 0 {
                let _ = std::fs::remove_file(&of);
                t.args.extend(["-o".into(), of.display().to_string()]);
                let o = t.ok(env)?;
                same_bytes("standard output of word -o", &o.stdout, b"")?;
                read_out(&of, "word -o")?
            } else {
                t.ok(env)?.stdout
            };
            crate::words::check(name, k as u8, &got)?;
            pass(k >= 2)
        },
    )
}
pub fn c20(t: Tier) -> Vec<Sub> {
    vec![word_tool(t.pick(
        &[("fibonacci", 33), ("tribonacci", 26), ("vtm", 22), ("fibonacci-lyndon-factor", 16), ("kolakoski", 37)],
        &[("fibonacci", 36), ("tribonacci", 28), ("vtm", 25), ("fibonacci-lyndon-factor", 18), ("kolakoski", 40)],
    ))]
}
pub fn c21(t: Tier) -> Vec<Sub> {
    vec![word_tool(t.pick(
        &[("thue-morse", 24), ("period-doubling", 24), ("paper-folding", 23), ("quaternary-paper-folding", 24), ("power2", 24)],
        &[("thue-morse", 24), ("period-doubling", 24), ("paper-folding", 23), ("quaternary-paper-folding", 24), ("power2", 24)],
    ))]
}
pub fn c22(t: Tier) -> Vec<Sub> {
    vec![word_tool(t.pick(&[("binary-de-brujin", 22)], &[("binary-de-brujin", 22)]))]
}

// ================================================================== C23

fn lines_equal(what: &str, got: &[u8], want: impl Iterator<Item = Vec<u8>>) -> Result<u64, Bad> {
    let mut rest = got;
    let mut i = 0;
    for w in want {
        let n = w.len();
        if rest.len() < n + 1 || rest[..n] != w[..] || rest[n] != b'\n' {
            return fail(format!(
                "{}: line {} is [{}], expected [{}]",
                what,
                i + 1,
                brief_bytes(rest.split(|b| *b == b'\n').next().unwrap_or(b"")),
                brief_bytes(&w)
            ));
        }
        rest = &rest[n + 1..];
        i += 1;
    }
    ensure(rest.is_empty(), || format!("{}: surplus output after {} lines: [{}]", what, i, brief_bytes(rest)))?;
    Ok(i)
}
fn letters(w: &[u8]) -> Vec<u8> {
    w.iter().map(|x| x + b'a').collect()
}
fn lyndon_tool(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let (n, s) = (c.num(0), c.num(1));
    need(n >= 1 && s >= 1)?;
    let want = crate::words::lyndon_words(n as usize, s as usize);
    let mut t = tool("lyndonwords", &["-l", &n.to_string(), "-s", &s.to_string()]).release(c.num(2) & 2 != 0);
    let of = env.dir.join("words");
    let got = if c.num(2) & 1 != 0 {
        t.args.extend(["-o".into(), of.display().to_string()]);
        let o = t.ok(env)?;
        same_bytes("standard output of lyndonwords -o", &o.stdout, b"")?;
        read_out(&of, "lyndonwords -o")?
    } else {
        t.ok(env)?.stdout
    };
    let k = lines_equal(&format!("lyndonwords -l {} -s {}", n, s), &got, want.iter().map(|w| letters(w)))?;
    pass(k >= 2)
}
fn enum_tool(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let (s, a, b) = (c.num(0), c.num(1), c.num(2));
    need((1..=26).contains(&s) && a >= 1 && (b == 0 || b >= a))?;
    let mut t = tool("enumerate", &[&s.to_string(), &a.to_string()]).release(rel(c));
    if b != 0 {
        t = t.arg(b.to_string());
    }
    let hi = if b == 0 { a } else { b };
    let o = t.ok(env)?;
    let total = count_strings(s, a as u32, hi as u32);
    let k = lines_equal(
        &format!("enumerate {} {} {}", s, a, hi),
        &o.stdout,
        (0..total).map(|i| letters(&nth_string(s, a as u32, i))),
    )?;
    pass(k >= 2)
}
/// the first lines of an enumeration too long to be completed: nums = [letters, length, end or 0, bytes]
fn enum_start(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let (s, a, b, bytes) = (c.num(0), c.num(1), c.num(2), c.num(3) as usize);
    need((2..=26).contains(&s) && (1..=3000).contains(&a) && (b == 0 || b >= a) && bytes <= 1 << 20)?;
    let mut t = tool("enumerate", &[&s.to_string(), &a.to_string()]).release(rel(c)).to(To::Cut(bytes));
    if b != 0 {
        t = t.arg(b.to_string());
    }
    let o = t.run(env)?;
    let mut want = Vec::with_capacity(bytes);
    let mut w = vec![0u8; a as usize];
    while want.len() < bytes {
        want.extend(letters(&w));
        want.push(b'\n');
        let Some(p) = w.iter().rposition(|&x| (x as u64) < s - 1) else { return Err(Bad::Discard) };
        w[p] += 1;
        w[p + 1..].fill(0);
    }
    want.truncate(bytes);
    same_bytes(&format!("first {} bytes of enumerate {} {} {}", bytes, s, a, b), &o.stdout, &want)?;
    pass(true)
}
/// the first lines of lyndonwords: nums = [length, letters, bytes]
fn lyndon_start(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let (n, s, bytes) = (c.num(0) as usize, c.num(1) as usize, c.num(2) as usize);
    need((1..=1000).contains(&n) && (2..=26).contains(&s) && bytes <= 1 << 20)?;
    let o = tool("lyndonwords", &["-l", &n.to_string(), "-s", &s.to_string()]).release(rel(c)).to(To::Cut(bytes)).run(env)?;
    let mut want = Vec::with_capacity(bytes);
    let mut w = vec![0u8];
    while want.len() < bytes {
        want.extend(letters(&w));
        want.push(b'\n');
        let Some(v) = crate::words::next_lyndon(&w, n, s) else { return Err(Bad::Discard) };
        w = v;
    }
    want.truncate(bytes);
    same_bytes(&format!("first {} bytes of lyndonwords -l {} -s {}", bytes, n, s), &o.stdout, &want)?;
    pass(true)
}
pub fn c23(t: Tier) -> Vec<Sub> {
    let budget = t.pick(40_000f64, 300_000.0);
    let mut ly = vec![];
    for s in 1..=26usize {
        for n in 1..=30usize {
            let words: f64 = (1..=n).map(|l| (s as f64).powi(l as i32) / l as f64).sum();
            if words <= budget {
                for m in 0..4u64 {
                    ly.push(vec![n as u64, s as u64, m]);
                }
            }
        }
    }
    let mut en = vec![];
    for s in 1..=26u64 {
        for a in 1..=16u64 {
            for b in [0].into_iter().chain(a..=17) {
                let hi = if b == 0 { a } else { b };
                let total: f64 = (a..=hi).map(|l| (s as f64).powi(l as i32)).sum();
                if total <= t.pick(80_000.0, 500_000.0) {
                    en.push(vec![s, a, b]);
                }
            }
        }
    }
    vec![
        sub_enum(
            "tool-lyndonwords",
            "lyndonwords: nums = [maximum length, letters, mode], mode bit 0: output file, bit 1: release build",
            false,
            ly.len() as u64,
            move |i| Case::nums(ly[i as usize].clone()),
            lyndon_tool,
        ),
        sub_enum(
            "tool-enumerate",
            "enumerate: nums = [letters, minimum, maximum or 0]",
            false,
            en.len() as u64,
            move |i| Case::nums(en[i as usize].clone()),
            enum_tool,
        ),
        sub_enum(
            "tool-enumerate-start",
            "first lines of enumerate for numbers of strings beyond any integer type: nums = [letters, length, maximum or 0, bytes]",
            false,
            25 * t.pick(96, 300),
            move |i| {
                let (s, a) = (2 + i % 25, 17 + i / 25);
                let a = if a > 90 { [100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 1000, 1023, 1024, 1025, 2000][a as usize % 15] } else { a };
                Case::nums(vec![s, a, [0, a, a + 1, 2 * a][(i / 25) as usize % 4], [1, 3000, 9000, 70_000][i as usize % 4]])
            },
            enum_start,
        ),
        sub_enum(
            "tool-lyndonwords-start",
            "first lines of lyndonwords for long words: nums = [maximum length, letters, bytes]",
            false,
            25 * t.pick(60, 200),
            move |i| Case::nums(vec![12 + i / 25 + 50 * (i / 700), 2 + i % 25, [1, 3000, 9000, 70_000][i as usize % 4]]),
            lyndon_start,
        ),
        sub_enum(
            "tool-kmers",
            "generator_kmer in both builds",
            false,
            2,
            |i| Case::nums(vec![i]),
            |c, env| {
                let o = tool("generator_kmer", &[]).release(c.num(0) == 1).ok(env)?;
                let mut v: Vec<&[u8]> = o.stdout.split(|b| *b == b'\n').collect();
                ensure(v.pop() == Some(b""), || "generator_kmer: the last line is not complete".into())?;
                same("number of lines of generator_kmer", &v.len(), &65536)?;
                v.sort();
                for (i, w) in v.iter().enumerate() {
                    same_bytes(&format!("k-mer {} in sorted order", i), w, &letters(&nth_string(4, 8, i as u64)))?;
                }
                pass(true)
            },
        ),
    ]
}

// ================================================================== C24

fn random_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let (n, k, mode) = (c.num(0), c.num(1), c.num(2));
    let n = if mode & 1 != 0 { 10 } else { n };
    let mut t = tool("randomstring", &["-a", &k.to_string()]).release(mode & 4 != 0);
    if mode & 1 == 0 {
        t.args.extend(["-p".into(), n.to_string()]);
    }
    let of = env.dir.join("random");
    let what = t.describe();
    let got = if mode & 2 != 0 {
        t.args.extend(["-o".into(), of.display().to_string()]);
        let o = t.ok(env)?;
        same_bytes("standard output of randomstring -o", &o.stdout, b"")?;
        read_out(&of, "randomstring -o")?
    } else {
        t.ok(env)?.stdout
    };
    same(&format!("length of the output of {}", what), &got.len(), &(n as usize))?;
    if let Some(b) = got.iter().find(|b| !b.is_ascii_alphanumeric()) {
        return fail(format!("{} printed the byte {}", what, b));
    }
    let mut s = [false; 256];
    got.iter().for_each(|&b| s[b as usize] = true);
    let d = s.iter().filter(|x| **x).count();
    ensure(k == 0 || d as u64 <= k, || format!("{} printed {} distinct characters", what, d))?;
    let most = if k == 0 { 62 } else { k.min(62) as usize };
    let mut labels = if k > 0 && d as u64 == k { vec!["alphabet bound reached"] } else { vec![] };
    if n >= 4000 {
        // a letter is missing with a probability below 62^2 (60/62)^4000 < 1e-50, and twelve standard deviations are as good as impossible
        labels.push("letters counted");
        ensure(d == most, || format!("{} printed {} distinct characters only", what, d))?;
        let mut count = [0usize; 256];
        got.iter().for_each(|&b| count[b as usize] += 1);
        let mean = n as f64 / d as f64;
        for b in (0..256).filter(|&b| count[b] > 0) {
            let diff = (count[b] as f64 - mean).abs();
            ensure(diff <= 40.0 + 12.0 * mean.sqrt(), || format!("{} printed {:?} {} times, about {:.0} expected", what, b as u8 as char, count[b], mean))?;
        }
    }
    if n >= 200 && most >= 2 {
        let z = crate::oracle::zfunc(&got);
        let h = got.len() / 2;
        let period = (1..=h).find(|&p| z[p] == got.len() - p);
        ensure(period.is_none(), || format!("the output of {} repeats itself after {} characters", what, period.unwrap_or(0)))?;
        if mode & 2 == 0 && n <= 2000 {
            labels.push("two runs compared");
            let t = || tool("randomstring", &["-a", &k.to_string(), "-p", &n.to_string()]).release(mode & 4 != 0);
            let again = t().ok(env)?.stdout;
            ensure(again != got, || format!("{} printed the same string twice", what))?;
            if n % 4 == 0 {
                // first processes of two containers have the same number
                labels.push("two runs with the same process number compared");
                let pid = ["1", "7", "32000"][n as usize / 4 % 3];
                let one = t().shim().env("FI_PID", pid).ok(env)?.stdout;
                let two = t().shim().env("FI_PID", pid).ok(env)?.stdout;
                ensure(one != two, || format!("{} printed the same string twice when its process number was {} twice", what, pid))?;
            }
        }
    }
    pass_l(k > 0 && n > k, labels)
}
/// many runs, no two of which give the same: nums = [number, length, build]
fn many_runs(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let (m, n, r) = (c.num(0), c.num(1), c.num(2) == 1);
    // a coincidence has a probability below m^2 / 62^24
    need(n >= 24 && m <= 100_000)?;
    let mut seen = std::collections::HashSet::new();
    for i in 0..m {
        let o = tool("randomstring", &["-a", "0", "-p", &n.to_string()]).release(r).ok(env)?;
        same("length of the output of randomstring", &o.stdout.len(), &(n as usize))?;
        ensure(seen.insert(o.stdout), || format!("run {} of randomstring repeats an earlier one", i + 1))?;
    }
    pass(m >= 2)
}
pub fn c24(t: Tier) -> Vec<Sub> {
    let small: Vec<Vec<u64>> = (0..=t.pick(16u64, 40)).flat_map(|n| (0..=t.pick(64u64, 70)).flat_map(move |k| (0..8).map(move |m| vec![n, k, m]))).collect();
    vec![
        sub_enum(
            "tool-exhaustive",
            "randomstring: nums = [length, alphabet bound, mode], mode bit 0: default length, bit 1: output file, bit 2: release build",
            false,
            small.len() as u64,
            move |i| Case::nums(small[i as usize].clone()),
            random_case,
        ),
        sub_gen(
            "tool-random",
            "same, random lengths and bounds; every run draws its own randomness",
            false,
            t.pick(2000, 25_000),
            || {
                (
                    prop_oneof![3 => 0u64..100, 2 => 0u64..2000, 1 => 4000u64..20_000, 1 => select(source_numbers(0, 400_000)).prop_map(|x| x as u64), 1 => select(vec![255u64, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65_535, 65_536, 65_537, 131_072, 200_001])],
                    prop_oneof![4 => 0u64..12, 3 => 12u64..62, 1 => 60u64..70, 1 => 70u64..100_000],
                    prop_oneof![8 => select(vec![0u64, 2, 4, 6]), 1 => select(vec![1u64, 3, 5, 7])],
                )
                    .prop_map(|(n, k, m)| Case::nums(vec![n, k, m]))
            },
            random_case,
        ),
        sub_enum(
            "tool-many-runs",
            "many runs, no two of which may give the same string: nums = [runs, length, build]",
            false,
            t.pick(8, 32),
            |i| Case::nums(vec![4000, 24 + i, i % 2]),
            many_runs,
        ),
    ]
}

// ================================================================== C26

fn refused(t: Tool, env: &Env, why: &str) -> Result<(), Bad> {
    let o = t.run(env)?;
    ensure(o.code != Some(0), || format!("{} ends with success although {}; output [{}]", o.cmd, why, brief_bytes(&o.stdout)))?;
    ensure(o.stdout.is_empty(), || {
        format!("{} prints a result although {}: [{}]", o.cmd, why, brief_bytes(&o.stdout))
    })
}
fn zero_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let t = &c.text;
    need(t.contains(&0))?;
    let why = "the text contains a zero byte";
    let r = rel(c);
    refused(tool("bwt", &[]).stdin(t).release(r), env, why)?;
    refused(tool("count_r", &[]).stdin(t).release(r), env, why)?;
    let k = 1 + c.num(0) % (t.len() as u64 + 3);
    refused(tool("entropy", &["-o", &k.to_string()]).stdin(t).release(r), env, why)?;
    // with an output file: no result there either
    let of = env.dir.join("refused");
    refused(tool("bwt", &["-o", of.to_str().unwrap()]).stdin(t).release(r), env, why)?;
    let got = std::fs::read(&of).unwrap_or_default();
    let _ = std::fs::remove_file(&of);
    ensure(got.is_empty(), || format!("bwt -o writes a result although {}: [{}]", why, brief_bytes(&got)))?;
    // a prefix without the zero byte is answered
    let first = t.iter().position(|b| *b == 0).unwrap();
    if first > 0 {
        let p = first.to_string();
        let o = tool("bwt", &["-p", &p]).stdin(t).release(r).ok(env)?;
        let mut z = t[..first].to_vec();
        z.push(0);
        same_bytes("bwt of the prefix before the zero byte", &o.stdout, &suffix_bwt(&z))?;
        let p = (first + 1).to_string();
        refused(tool("bwt", &["-p", &p]).stdin(t).release(r), env, "the prefix contains a zero byte")?;
    }
    pass(t.len() >= 2)
}
/// aux[..nums[1]]: from-list, rest: to-list; nums[0]: escape byte
fn escape_conf_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let e = c.num(0) as u8;
    let k = (c.num(1) as usize).min(c.aux.len());
    let (from, to) = c.aux.split_at(k);
    let why = if from.len() != to.len() {
        "the lists have different lengths"
    } else if from.contains(&e) || to.contains(&e) {
        "a list contains the escape byte"
    } else if from.iter().any(|x| to.contains(x)) {
        "the lists overlap"
    } else {
        return Err(Bad::Discard);
    };
    let join = |v: &[u8]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    for rev in [false, true] {
        let mut t = tool("escape", &["-e", &e.to_string()]).stdin(&c.text).release(rel(c));
        if c.num(2) % 2 == 0 {
            for x in from {
                t = t.arg("-f").arg(x.to_string());
            }
            for x in to {
                t = t.arg("-t").arg(x.to_string());
            }
        } else {
            if !from.is_empty() {
                t = t.arg("-f").arg(join(from));
            }
            if !to.is_empty() {
                t = t.arg("-t").arg(join(to));
            }
        }
        if rev {
            t = t.arg("--is-reversion");
        }
        refused(t, env, why)?;
    }
    pass_l(true, vec![why])
}
fn attractor_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let t = &c.text;
    need(!t.contains(&0) && !t.is_empty())?;
    let n = t.len() as u64;
    // nums[0]: the position beyond the text; others are valid
    let bad = c.num(0);
    need(bad > n)?;
    let mut pos: Vec<u64> = c.aux.iter().map(|x| *x as u64 % n).collect();
    let at = (c.num(1) as usize) % (pos.len() + 1);
    pos.insert(at, bad);
    let list = pos.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let mut tl = tool("is_stringattractor", &[]).stdin(t).release(rel(c));
    tl = if c.num(1) % 2 == 0 {
        let mut tl = tl.arg("-a");
        for x in list {
            tl = tl.arg(x);
        }
        tl
    } else {
        let mut tl = tl;
        for x in list {
            tl = tl.arg("-a").arg(x);
        }
        tl
    };
    refused(tl, env, &format!("position {} is beyond the {} bytes of the text", bad, n))?;
    pass(true)
}
fn enum_refused(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let (s, a, b, three) = (c.num(0), c.num(1), c.num(2), c.num(3) == 1);
    let why = if s == 0 || s > 26 {
        "the number of letters is outside 1 to 26"
    } else if a == 0 {
        "the minimum length is zero"
    } else if three && b < a {
        "the maximum length is below the minimum"
    } else {
        return Err(Bad::Discard);
    };
    let mut t = tool("enumerate", &[&s.to_string(), &a.to_string()]).release(rel(c));
    if three {
        t = t.arg(b.to_string());
    }
    refused(t, env, why)?;
    pass_l(true, vec![why])
}
/// the words whose lengths grow at least as 1.6^k, with the least order of which no word can exist in a 64-bit memory
const WORD_LIMITS: [(&str, u64); 9] =
    [("fibonacci", 92), ("fibonacci-lyndon-factor", 64), ("tribonacci", 74), ("thue-morse", 64), ("period-doubling", 64), ("paper-folding", 64), ("quaternary-paper-folding", 64), ("power2", 64), ("vtm", 64)];
const ORDERS: [u64; 42] = [
    64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 80, 88, 90, 91, 92, 93, 94, 95, 96, 97, 100, 126, 127, 128, 129, 130, 160, 186, 190, 191, 192, 193, 220, 253, 254, 255, 256, 257, 300,
];
/// nums = [generator, order, build]
fn word_refused(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let (name, least) = WORD_LIMITS[c.num(0) as usize % WORD_LIMITS.len()];
    let k = c.num(1);
    need(k >= least)?;
    let mut t = tool("word", &["-n", name, "-k", &k.to_string()]).release(c.num(2) == 1);
    t.hopeless = Some(1 << 28);
    let o = t.run_any(env)?;
    ensure(o.code != Some(0), || format!("{} ends with success, though no memory holds that word", o.cmd))?;
    ensure(o.code.is_some() || matches!(o.signal, Some(libc::SIGXCPU | libc::SIGABRT)), || format!("{} died from signal {:?}", o.cmd, o.signal))?;
    ensure(o.stdout.is_empty(), || format!("{} printed {} bytes though no memory holds that word", o.cmd, o.stdout.len()))?;
    pass_l(true, vec![if k > 255 { "order beyond a byte" } else { "order up to 255" }])
}
fn kmer_refused(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let k = c.num(0);
    need(k == 0 || k > 7)?;
    let mut t = tool("entropy_kmer", &[]).stdin(&c.text).release(rel(c));
    if k > 0 || c.num(1) % 2 == 0 {
        t = t.arg("-o").arg(k.to_string());
    }
    refused(t, env, "the order is outside 1 to 7")?;
    pass(true)
}
fn with_zero(max: usize) -> BoxedStrategy<Vec<u8>> {
    (text(0, max, Bytes::NonZero), vec(any::<u16>(), 1..4), any::<u8>())
        .prop_map(|(mut t, at, m)| {
            for a in at {
                let i = a as usize * (t.len() + 1) / 65536;
                let i = match m % 8 {
                    0 => 0,
                    1 => t.len(),
                    _ => i,
                };
                t.insert(i, 0);
            }
            t
        })
        .boxed()
}
pub fn c26(t: Tier) -> Vec<Sub> {
    let sp = Space(vec![(vec![0, b'a'], 1, t.pick(5, 8)), (vec![0, 1, 255], 1, t.pick(4, 6))]);
    let n = sp.len();
    let mut en: Vec<Vec<u64>> = vec![];
    for s in (0..=40u64).chain([100, 255, 256, 257, 258, 1 << 16, (1 << 16) + 2, 1 << 32, (1 << 32) + 2, u64::MAX]) {
        for a in [0u64, 1, 2, 3, 5, 256] {
            for b in [0u64, 1, 2, 4, u64::MAX] {
                for three in 0..2u64 {
                    let bad = s == 0 || s > 26 || a == 0 || (three == 1 && b < a);
                    if bad && (three == 1 || b == 0) {
                        en.push(vec![s, a, b, three]);
                    }
                }
            }
        }
    }
    let confs = conf_list();
    let cn = confs.len() as u64;
    vec![
        sub_enum("zero-exhaustive", "bwt, count_r and entropy -o k on all short texts with a zero byte", false, n, move |i| Case::new(sp.nth(i), vec![], vec![i]), zero_case),
        sub_gen(
            "zero-random",
            "same on structured random texts with zero bytes at any place",
            false,
            t.pick(900, 12_000),
            || (prop_oneof![3 => with_zero(60), 1 => with_zero(600)], 0u64..1000).prop_map(|(t, k)| Case::new(t, vec![], vec![k])),
            zero_case,
        ),
        sub_enum(
            "zero-long",
            "same on long texts: of every threshold length, with a zero byte at the start, inside, or near the end",
            false,
            threshold_sizes(t.pick(300_000, 1_100_000)).len() as u64 * 3,
            {
                let sizes = threshold_sizes(t.pick(300_000, 1_100_000));
                move |i| {
                    let l = sizes[i as usize / 3];
                    let mut t = expand([0, 4, 1, 2][i as usize / 3 % 4], i, l, [&[1u8, b'a', b'b', 255][..], b"ab"][i as usize % 2]);
                    let mut r = Mix(i);
                    let at = [r.below(l), l - 1 - r.below(l.min(5)), r.below(l.min(5))][i as usize % 3];
                    t[at] = 0;
                    Case::new(t, vec![], vec![i * 7])
                }
            },
            zero_case,
        ),
        sub_enum(
            "escape-exhaustive",
            "escape with all invalid lists over four symbols of up to two entries each",
            false,
            cn,
            move |i| {
                let (e, f, t) = &confs[i as usize];
                Case::new(b"abcd\0".to_vec(), [&f[..], &t[..]].concat(), vec![*e as u64, f.len() as u64, i])
            },
            escape_conf_case,
        ),
        sub_gen(
            "escape-random",
            "escape with random invalid configurations",
            false,
            t.pick(2000, 25_000),
            || {
                (any::<u64>(), 0usize..12, 0u8..4, any::<u64>(), text(0, 60, Bytes::All)).prop_map(|(seed, m, kind, style, t)| {
                    let mut r = Mix(seed);
                    let mut all: Vec<u8> = (0..=255).collect();
                    for i in (1..256).rev() {
                        all.swap(i, r.below(i + 1));
                    }
                    let e = all[0];
                    let mut from = all[1..1 + m].to_vec();
                    let mut to = all[1 + m..1 + 2 * m].to_vec();
                    let at = r.below(m.max(1)).min(m.saturating_sub(1));
                    match kind {
                        0 => {
                            let k = r.below(3) + 1;
                            let side = r.below(2);
                            for x in 0..k {
                                if side == 0 { from.push(all[100 + x]) } else { to.push(all[100 + x]) }
                            }
                        }
                        1 if m > 0 => from[at] = e,
                        2 if m > 0 => to[at] = e,
                        _ if m > 0 => to[r.below(m)] = from[at],
                        _ => from.push(e),
                    }
                    let k = from.len() as u64;
                    from.extend(to);
                    Case::new(t, from, vec![e as u64, k, style % 1000])
                })
            },
            escape_conf_case,
        ),
        sub_gen(
            "attractor",
            "is_stringattractor with one position beyond the text among valid ones",
            false,
            t.pick(2500, 25_000),
            || {
                (text(1, 120, Bytes::NonZero), vec(any::<u8>(), 0..6), prop_oneof![4 => 1u64..20, 1 => 20u64..5000, 1 => (1u64 << 31)..(1 << 33), 1 => Just(u64::MAX - 4000), 2 => any::<u64>().prop_map(wide_number)], 0u64..40)
                    .prop_map(|(t, v, d, at)| {
                        let n = t.len() as u64;
                        Case::new(t, v, vec![n.saturating_add(d), at])
                    })
            },
            attractor_case,
        ),
        sub_enum("enumerate", "enumerate with invalid parameters: nums = [letters, minimum, maximum, maximum given]", false, en.len() as u64, move |i| Case::nums(en[i as usize].clone()), enum_refused),
        sub_enum(
            "word-order",
            "word with orders from 64 to 300 whose word is longer than any memory, in both builds; nums = [generator, order, build]",
            false,
            WORD_LIMITS.len() as u64 * 2 * ORDERS.len() as u64,
            |i| Case::nums(vec![i % 9, ORDERS[i as usize / 18], i / 9 % 2]),
            word_refused,
        ),
        sub_gen(
            "kmer-order",
            "entropy_kmer with orders outside 1 to 7",
            false,
            t.pick(1500, 15_000),
            || {
                (text(0, 80, Bytes::All), prop_oneof![1 => Just(0u64), 3 => 8u64..80, 1 => 80u64..100_000, 1 => select(vec![256u64, 257, 258, 264, 1 << 32, (1 << 32) + 1, u64::MAX]), 1 => any::<u64>().prop_map(wide_number)], 0u64..2)
                    .prop_map(|(t, k, m)| Case::new(t, vec![], vec![k, m]))
            },
            kmer_refused,
        ),
    ]
}
/// all invalid configurations with lists of up to two of four symbols
fn conf_list() -> Vec<(u8, Vec<u8>, Vec<u8>)> {
    let sy = [0u8, b'a', b'b', 255];
    let mut lists: Vec<Vec<u8>> = vec![vec![]];
    for &x in &sy {
        lists.push(vec![x]);
        for &y in &sy {
            if x != y {
                lists.push(vec![x, y]);
            }
        }
    }
    let mut out = vec![];
    for &e in &sy {
        for f in &lists {
            for t in &lists {
                let bad = f.len() != t.len() || f.contains(&e) || t.contains(&e) || f.iter().any(|x| t.contains(x));
                if bad {
                    out.push((e, f.clone(), t.clone()));
                }
            }
        }
    }
    out
}

// ================================================================== C27

#[derive(Clone, Debug)]
enum Stage {
    Reverse,
    Mtf,
    Rle,
    RleZero,
    Escape(u8, Vec<u8>, Vec<u8>),
    Bwt(&'static [&'static str]),
}
/// the i-th stage is derived from one byte and the data that enters it
fn stage(b: u8, data: &[u8]) -> Vec<Stage> {
    let esc = |b: u8| -> Stage {
        match b / 8 % 6 {
            0 => Stage::Escape(254, vec![0], vec![255]),
            1 => Stage::Escape(92, vec![0], vec![48]),
            2 => Stage::Escape(1, vec![0, 255], vec![2, 254]),
            3 => Stage::Escape(255, vec![0, b'a', b'b'], vec![b'b' + 1, b'd', b'e']),
            4 => Stage::Escape(b'0', vec![0], vec![b'a']),
            _ => Stage::Escape(b'a', vec![0, 10], vec![b'b', 128]),
        }
    };
    match b % 8 {
        0 => vec![Stage::Reverse],
        1 => vec![Stage::Mtf],
        2 => vec![Stage::Rle],
        3 => vec![Stage::RleZero],
        4 => vec![esc(b)],
        _ => {
            let mut v = vec![];
            if data.contains(&0) {
                v.push(esc(b));
            }
            v.push(Stage::Bwt(if b / 8 % 4 == 3 && data.len() <= 400 { &["-u"] } else { &[] }));
            v
        }
    }
}
fn pipeline_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let r = rel(c);
    let mut data = c.text.clone();
    let mut done: Vec<Stage> = vec![];
    'all: for &b in &c.aux {
        for s in stage(b, &data) {
            if data.len() > 400_000 {
                break 'all;
            }
            let tl = match &s {
                Stage::Reverse => tool("reverse", &[]),
                Stage::Mtf => tool("mtf", &[]),
                Stage::Rle => tool("rle", &[]),
                Stage::RleZero => tool("rle", &["--onlyzero"]),
                Stage::Escape(e, f, t) => {
                    let j = |v: &[u8]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
                    tool("escape", &["-e", &e.to_string(), "-f", &j(f), "-t", &j(t)])
                }
                Stage::Bwt(a) => tool("bwt", a),
            };
            data = tl.stdin(&data).release(r).ok(env)?.stdout;
            done.push(s);
        }
    }
    let names: Vec<String> = done.iter().map(|s| format!("{:?}", s)).collect();
    let mut x = data;
    for (i, s) in done.iter().enumerate().rev() {
        let inv = match s {
            Stage::Reverse => {
                x.reverse();
                Some(x)
            }
            Stage::Mtf => Some(mtf_decode(&x)),
            Stage::Rle => rle_decode(&x),
            Stage::RleZero => rle_zero_decode(&x),
            Stage::Escape(e, f, t) => escape_decode(&x, *e, f, t),
            Stage::Bwt(_) => invert_bwt(&x),
        };
        x = match inv {
            Some(x) => x,
            None => return fail(format!("stage {} of the pipeline {} cannot be inverted", i + 1, names.join(" | "))),
        };
    }
    same_bytes(&format!("inverting the pipeline {}", names.join(" | ")), &x, &c.text)?;
    let bwt = done.iter().any(|s| matches!(s, Stage::Bwt(_)));
    let mut l = vec![];
    if bwt {
        l.push("contains a BWT");
    }
    if done.len() >= 4 {
        l.push("four or more stages");
    }
    pass_l(c.text.len() >= 2 && done.len() >= 2, l)
}
pub fn c27(t: Tier) -> Vec<Sub> {
    let texts: Vec<Vec<u8>> = vec![
        vec![],
        vec![0],
        b"banana".to_vec(),
        vec![0, 255, 0, 0, 254, 1],
        b"0000000a0".to_vec(),
        (0..=255).collect(),
        vec![255; 300],
        vec![b'0'; 515],
        [vec![0u8; 257], (0..=255).rev().collect(), vec![48; 256]].concat(),
    ];
    // every sequence of up to three stages, one representative per kind
    let kinds = [0u8, 1, 2, 3, 4, 5];
    let tn = texts.len() as u64;
    let depth = t.pick(3u32, 4);
    let n = count_strings(6, 1, depth) * tn;
    vec![
        sub_enum(
            "pipelines-exhaustive",
            "every sequence of up to three (thorough: four) stages on fixed texts; aux = one byte per stage",
            false,
            n,
            move |i| {
                let ops: Vec<u8> = nth_string(6, 1, i / tn).into_iter().map(|x| kinds[x as usize]).collect();
                Case::new(texts[(i % tn) as usize].clone(), ops, vec![i])
            },
            pipeline_case,
        ),
        sub_gen(
            "pipelines-random",
            "random pipelines of up to seven stages on structured random texts",
            false,
            t.pick(1200, 18_000),
            || {
                (prop_oneof![4 => text(0, 200, Bytes::All), 1 => text(0, 3000, Bytes::All)], vec(any::<u8>(), 1..8), 0u64..16)
                    .prop_map(|(t, o, s)| Case::new(t, o, vec![s]))
            },
            pipeline_case,
        ),
        sub_gen(
            "pipelines-dictionary",
            "random pipelines on texts with well-known byte sequences or literals of the source",
            false,
            t.pick(800, 12_000),
            || (select(dictionary_texts(Bytes::All)), vec(any::<u8>(), 1..5), 0u64..16).prop_map(|(t, o, s)| Case::new(t, o, vec![s])),
            pipeline_case,
        ),
        sub_gen(
            "pipelines-long",
            "random pipelines on long texts",
            false,
            t.pick(16, 250),
            || (big(20_000, 120_000, Bytes::All), vec(any::<u8>(), 1..5)).prop_map(|(t, o)| Case::new(t, o, vec![0])),
            pipeline_case,
        ),
    ]
}

// ================================================================== C28

struct Ana {
    bin: &'static str,
    args: &'static [&'static str],
    stat: &'static str,
    name: &'static str,
    plus: u64,
    zero_ok: bool,
    empty_ok: bool,
}
const ANA: [Ana; 14] = [
    Ana { bin: "lyndonfactorization", args: &[], stat: "factors", name: "file", plus: 0, zero_ok: true, empty_ok: false },
    Ana { bin: "count_z", args: &[], stat: "factors", name: "file", plus: 0, zero_ok: true, empty_ok: false },
    Ana { bin: "count_lexparse", args: &[], stat: "factors", name: "file", plus: 0, zero_ok: true, empty_ok: false },
    Ana { bin: "mus", args: &[], stat: "mus", name: "file", plus: 0, zero_ok: false, empty_ok: false },
    Ana { bin: "count_sigma", args: &[], stat: "sigma", name: "file", plus: 0, zero_ok: true, empty_ok: true },
    Ana { bin: "count_r", args: &[], stat: "bwt_runs", name: "file", plus: 1, zero_ok: false, empty_ok: true },
    Ana { bin: "count_r", args: &["-n"], stat: "bwt_runs", name: "file", plus: 0, zero_ok: false, empty_ok: false },
    Ana { bin: "count_r", args: &["-u"], stat: "bwt_runs", name: "file", plus: 1, zero_ok: false, empty_ok: true },
    Ana { bin: "count_r", args: &["-u", "-n"], stat: "bwt_runs", name: "file", plus: 0, zero_ok: false, empty_ok: false },
    Ana { bin: "entropy", args: &[], stat: "entropy", name: "input", plus: 1, zero_ok: true, empty_ok: true },
    Ana { bin: "entropy", args: &["-o", "1"], stat: "entropy", name: "input", plus: 1, zero_ok: false, empty_ok: false },
    Ana { bin: "entropy", args: &["-o", "3"], stat: "entropy", name: "input", plus: 1, zero_ok: false, empty_ok: false },
    Ana { bin: "entropy_kmer", args: &["-o", "1"], stat: "entropy", name: "input", plus: 1, zero_ok: true, empty_ok: false },
    Ana { bin: "entropy_kmer", args: &["-o", "3"], stat: "entropy", name: "input", plus: 1, zero_ok: false, empty_ok: false },
];
/// blank-separated key=value fields; blanks may occur between brackets only
fn parse_line(l: &str) -> Result<Vec<(String, String)>, String> {
    let mut out: Vec<(String, String)> = vec![];
    let mut cur = String::new();
    let mut depth = 0;
    let mut words = vec![];
    for ch in l.chars() {
        match ch {
            '[' => depth += 1,
            ']' => depth -= 1,
            _ => {}
        }
        if ch.is_whitespace() && depth == 0 {
            if !cur.is_empty() {
                words.push(std::mem::take(&mut cur));
            }
        } else {
            cur.push(ch);
        }
    }
    if !cur.is_empty() {
        words.push(cur);
    }
    if depth != 0 {
        return Err("unbalanced brackets".into());
    }
    let mut it = words.into_iter();
    if it.next().as_deref() != Some("RESULT") {
        return Err("the line does not start with the word RESULT".into());
    }
    for w in it {
        let Some((k, v)) = w.split_once('=') else {
            return Err(format!("the field {:?} is not of the form key=value", w));
        };
        if k.is_empty() || v.is_empty() {
            return Err(format!("the field {:?} has an empty part", w));
        }
        if out.iter().any(|x| x.0 == k) {
            return Err(format!("the key {} occurs twice", k));
        }
        out.push((k.into(), v.into()));
    }
    Ok(out)
}
/// the k-th of several input files: unusual, long and deep names (without blanks)
fn input_path(dir: &std::path::Path, k: u64) -> std::path::PathBuf {
    let long = "x".repeat(130);
    let longest = "n".repeat(255);
    let names = [
        "input.txt", "x", "none", "RESULT", "a,b.c-d", ".hidden", "archive.tar.gz", &long, "dot.", "length=3", "file=none", "=", "-", "--help", "UPPER.TXT",
        "w\u{f6}rter-\u{3b1}\u{3b2}\u{3b3}", "100%", "[mus]", "'quoted\"", "back\\slash", "{}", "~", "*", "$HOME", &longest, "0", "dir/../file", "./here", "a//b", "stdin",
    ];
    let k = k as usize;
    let name = names[k % names.len()];
    let mut p = dir.join("named");
    // at times deep below
    for i in 0..[0, 0, 1, 9][k / names.len() % 4] {
        p.push(if i % 2 == 0 { &long[..100] } else { "d" });
    }
    let full = format!("{}/{}", p.display(), name);
    let dirs = if name == "dir/../file" { p.join("dir") } else if name == "a//b" { p.join("a") } else { p };
    std::fs::create_dir_all(dirs).expect("a folder for input files");
    full.into()
}
/// nums = [tool, prefix, mode]; mode bit 0: named file, bit 1: also an output file, bit 2: release
fn result_line_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let a = &ANA[c.num(0) as usize % ANA.len()];
    let t = &c.text;
    let p = c.num(1) as usize;
    let mode = c.num(2);
    let eff = if p == 0 { &t[..] } else { &t[..p.min(t.len())] };
    need((a.zero_ok || !t.contains(&0)) && (a.empty_ok || eff.len() >= 4))?;
    let mut tl = tool(a.bin, a.args).release(mode & 4 != 0);
    if t.len() > 1024 {
        tl = tl.big();
    }
    if p > 0 || mode & 8 != 0 {
        tl = tl.arg("-p").arg(p.to_string());
    }
    let name = if mode & 1 != 0 {
        let f = input_path(&env.dir, mode / 16);
        std::fs::write(&f, t).map_err(|e| Bad::Abort(e.to_string()))?;
        tl = tl.arg("-i").arg(f.to_str().unwrap());
        f.to_str().unwrap().to_string()
    } else {
        tl = tl.stdin(t);
        "none".to_string()
    };
    let of = env.dir.join("result-out");
    let has_o = matches!(a.bin, "lyndonfactorization" | "count_z" | "count_lexparse");
    if has_o && mode & 2 != 0 {
        tl = tl.arg("-o").arg(of.to_str().unwrap());
    }
    let o = tl.ok(env)?;
    let _ = std::fs::remove_file(&of);
    let s = o.text()?;
    ensure(s.ends_with('\n') && s.matches('\n').count() == 1, || format!("{} did not print exactly one line: {:?}", o.cmd, s))?;
    let f = match parse_line(s.trim_end_matches('\n')) {
        Ok(f) => f,
        Err(e) => return fail(format!("{}: {}: {:?}", o.cmd, e, s)),
    };
    let get = |k: &str| f.iter().find(|x| x.0 == k).map(|x| x.1.as_str());
    let num = |k: &str| get(k).and_then(|v| v.parse::<u64>().ok());
    ensure(num("time_ms").is_some(), || format!("{} prints no elapsed time: {:?}", o.cmd, s))?;
    same(&format!("length reported by {}", o.cmd), &num("length"), &Some(eff.len() as u64 + a.plus))?;
    same(&format!("file name reported by {}", o.cmd), &get(a.name), &Some(name.as_str()))?;
    let st = get(a.stat);
    let okay = match (a.stat, st) {
        (_, None) => false,
        ("mus", Some(v)) => v.starts_with('[') && v.ends_with(']'),
        ("entropy", Some(v)) => v.parse::<f64>().is_ok_and(|x| x.is_finite()),
        (_, Some(v)) => v.parse::<u64>().is_ok(),
    };
    ensure(okay, || format!("{} prints no proper field {}: {:?}", o.cmd, a.stat, s))?;
    pass_l(eff.len() >= 2, vec![a.bin])
}
pub fn c28(t: Tier) -> Vec<Sub> {
    let sp = Space(vec![(b"ab".to_vec(), 0, t.pick(5, 8)), (vec![0, 255], 1, t.pick(4, 6))]);
    let m = ANA.len() as u64;
    let n = sp.len() * m;
    let nums = |max: u64| (0u64..ANA.len() as u64, prop_oneof![4 => Just(0u64), 6 => 0..max, 2 => max..3 * max, 1 => any::<u64>().prop_map(wide_number)], 0u64..512);
    vec![
        sub_enum("tool-exhaustive", "all analytic tools on all short texts; nums = [tool, prefix, mode]", false, n, move |i| Case::new(sp.nth(i / m), vec![], vec![i % m, 0, i / 5 % 4096]), result_line_case),
        sub_gen(
            "tool-random",
            "structured random texts, prefix lengths, files and standard input",
            false,
            t.pick(6000, 80_000),
            move || {
                (prop_oneof![3 => text(0, 120, Bytes::NonZero), 1 => text(0, 900, Bytes::All)], nums(200))
                    .prop_map(|(t, (a, p, m))| Case::new(t, vec![], vec![a, p, m]))
            },
            result_line_case,
        ),
        sub_gen(
            "tool-dictionary",
            "texts with well-known byte sequences or literals of the source; lengths and prefixes that are numbers of the source",
            false,
            t.pick(2500, 30_000),
            move || {
                (
                    prop_oneof![2 => select(dictionary_texts(Bytes::NonZero)), 1 => select(dictionary_texts(Bytes::All)), 1 => of_length(source_numbers(1, 12_000), Bytes::NonZero)],
                    nums(200),
                    prop_oneof![2 => Just(0usize), 1 => select(source_numbers(0, 20_000))],
                )
                    .prop_map(|(t, (a, _, m), p)| Case::new(t, vec![], vec![a, p as u64, m]))
            },
            result_line_case,
        ),
        sub_enum(
            "tool-thresholds",
            "all analytic tools on texts whose length is a power of two or a neighbour of it",
            false,
            m * threshold_sizes(t.pick(1_100_000, 4_200_000)).len() as u64,
            {
                let sizes = threshold_sizes(t.pick(1_100_000, 4_200_000));
                move |i| Case::new(threshold_text(i / m * SHAPES as u64 + SHAPES as u64 - 1, &sizes, Bytes::NonZero), vec![], vec![i % m, 0, i * 5 % 4096])
            },
            result_line_case,
        ),
        sub_gen(
            "tool-long",
            "long texts",
            false,
            t.pick(60, 800),
            move || {
                (big(2_000, 40_000, Bytes::NonZero), nums(50_000)).prop_map(|(t, (a, p, m))| Case::new(t, vec![], vec![a, p, m]))
            },
            result_line_case,
        ),
    ]
}
