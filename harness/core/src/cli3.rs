//! Channels (C18) and faults (C25): the same tools under every way of feeding and draining them.
use crate::case::*;
use crate::frame::*;
use crate::gens::*;
use crate::oracle::*;
use crate::tool::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use std::os::fd::{FromRawFd, OwnedFd};
use std::path::{Path, PathBuf};

fn need(cond: bool) -> Result<(), Bad> {
    if cond {
        Ok(())
    } else {
        Err(Bad::Discard)
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub(crate) enum Kind {
    /// prints its output or writes it to -o
    Transform,
    /// prints a result; -o holds the factors
    Factors,
    /// prints a result
    Analysis,
    /// like Transform, reads nothing
    Source,
    /// reads nothing, has no -o
    Printer,
    /// like Source, but draws at random
    Random,
}
pub(crate) struct Inv {
    pub bin: &'static str,
    pub args: &'static [&'static str],
    pub(crate) kind: Kind,
    prefix: bool,
    zero_ok: bool,
    /// least length of the text
    least: usize,
    oracle: Option<fn(&[u8]) -> Vec<u8>>,
}
const fn inv(bin: &'static str, args: &'static [&'static str], kind: Kind, prefix: bool, zero_ok: bool, least: usize, oracle: Option<fn(&[u8]) -> Vec<u8>>) -> Inv {
    Inv { bin, args, kind, prefix, zero_ok, least, oracle }
}
fn o_reverse(t: &[u8]) -> Vec<u8> {
    t.iter().rev().copied().collect()
}
fn o_escape(t: &[u8]) -> Vec<u8> {
    escape_encode(t, 92, &[0, 97], &[48, 49])
}
fn o_bwt(t: &[u8]) -> Vec<u8> {
    let mut z = t.to_vec();
    z.push(0);
    suffix_bwt(&z)
}
fn o_bwt_n(t: &[u8]) -> Vec<u8> {
    suffix_bwt(t)
}
fn o_rle_human(t: &[u8]) -> Vec<u8> {
    run_lengths(t).into_iter().map(|(b, n)| format!("({},{})", b as char, n)).collect::<String>().into_bytes()
}
fn o_runs(t: &[u8]) -> Vec<u8> {
    format!("{}\n", run_lengths(t).len()).into_bytes()
}
use Kind::*;
pub(crate) const READERS: usize = 26;
pub(crate) static INVS: [Inv; 35] = [
    inv("bwt", &[], Transform, true, false, 0, Some(o_bwt)),
    inv("bwt", &["-u"], Transform, true, false, 0, Some(o_bwt)),
    inv("bwt", &["-n"], Transform, true, false, 1, Some(o_bwt_n)),
    inv("bwt", &["-u", "-n"], Transform, true, false, 1, Some(|t| rotation_bwt(t))),
    inv("escape", &["-e", "92", "-f", "0,97", "-t", "48,49"], Transform, true, true, 0, Some(o_escape)),
    inv("reverse", &[], Transform, true, true, 0, Some(o_reverse)),
    inv("mtf", &[], Transform, false, true, 0, Some(mtf_encode)),
    inv("rle", &[], Transform, false, true, 0, None),
    inv("rle", &["--onlyzero"], Transform, false, true, 0, None),
    inv("rle", &["--human"], Transform, false, true, 0, Some(o_rle_human)),
    inv("count_z", &[], Factors, true, true, 1, None),
    inv("count_lexparse", &[], Factors, true, true, 1, None),
    inv("lyndonfactorization", &[], Factors, true, true, 1, None),
    inv("count_r", &[], Analysis, true, false, 0, None),
    inv("count_r", &["-n"], Analysis, true, false, 1, None),
    inv("count_r", &["-u"], Analysis, true, false, 0, None),
    inv("count_r", &["-u", "-n"], Analysis, true, false, 1, None),
    inv("count_runs", &[], Analysis, false, true, 0, Some(o_runs)),
    inv("count_sigma", &[], Analysis, true, true, 0, None),
    inv("entropy", &[], Analysis, true, true, 0, None),
    inv("entropy", &["-o", "2"], Analysis, true, false, 2, None),
    inv("entropy_kmer", &["-o", "2"], Analysis, true, false, 2, None),
    inv("mus", &[], Analysis, true, false, 1, None),
    inv("is_stringattractor", &["-a", "0"], Analysis, true, false, 1, None),
    inv("is_stringattractor", &["-a", "0", "1", "2", "3"], Analysis, true, false, 4, None),
    inv("escape", &["-e", "92", "-f", "0,97", "-t", "48,49", "--is-reversion"], Transform, false, true, 0, Some(|t| escape_decode(t, 92, &[0, 97], &[48, 49]).unwrap_or_default())),
    // no input
    inv("word", &["-n", "fibonacci", "-k", "6"], Source, false, true, 0, None),
    inv("word", &["-n", "paper-folding", "-k", "12"], Source, false, true, 0, None),
    inv("word", &["-n", "binary-de-brujin", "-k", "4"], Source, false, true, 0, None),
    inv("lyndonwords", &["-l", "4", "-s", "2"], Source, false, true, 0, None),
    inv("lyndonwords", &["-l", "10", "-s", "3"], Source, false, true, 0, None),
    inv("enumerate", &["3", "1", "3"], Printer, false, true, 0, None),
    inv("enumerate", &["2", "9"], Printer, false, true, 0, None),
    inv("generator_kmer", &[], Printer, false, true, 0, None),
    inv("randomstring", &["-a", "5", "-p", "300"], Random, false, true, 0, None),
];
impl Inv {
    pub(crate) fn accepts(&self, t: &[u8]) -> bool {
        t.len() >= self.least && (self.zero_ok || !t.contains(&0))
    }
    pub(crate) fn tool(&self, release: bool) -> Tool<'static> {
        tool(self.bin, self.args).release(release)
    }
    /// un-escaping is fed what escaping yields
    pub(crate) fn input(&self, t: &[u8]) -> Vec<u8> {
        if self.args.contains(&"--is-reversion") {
            o_escape(t)
        } else {
            t.to_vec()
        }
    }
    pub(crate) fn has_o(&self) -> bool {
        !matches!(self.kind, Analysis | Printer)
    }
    /// the output goes to the file given by -o instead of standard output
    pub(crate) fn o_instead(&self) -> bool {
        matches!(self.kind, Transform | Source | Random)
    }
}

/// what counts as the result of a run: the elapsed time and the file name do not
pub(crate) fn normal(inv: &Inv, out: &[u8]) -> Vec<u8> {
    if inv.kind == Random {
        return out.len().to_string().into_bytes();
    }
    if !out.starts_with(b"RESULT") {
        return out.to_vec();
    }
    let s = String::from_utf8_lossy(out);
    let mut r = String::new();
    for l in s.split_inclusive('\n') {
        let mut f = fields(l);
        for k in ["time_ms", "file", "input"] {
            if f.contains_key(k) {
                f.insert(k.into(), "*".into());
            }
        }
        // the summands of an entropy may be added in any order
        if let Some(Ok(e)) = f.get("entropy").map(|e| e.parse::<f64>()) {
            f.insert("entropy".into(), format!("{:.9}", e));
        }
        r.push_str(&format!("{:?}{}", f, if l.ends_with('\n') { "\n" } else { "" }));
    }
    r.into_bytes()
}

pub(crate) fn release(c: &Case) -> bool {
    c.hash64() % 4 == 0
}

// ================================================================== C18

const CHANNELS: [&str; 10] = [
    "file given by -i",
    "symbolic link given by -i",
    "named pipe given by -i",
    "standard input from a file",
    "standard input from a pipe",
    "/dev/stdin given by -i, from a pipe",
    "standard input positioned within a file",
    "standard input with short and interrupted reads",
    "file given by -i with short and interrupted reads",
    "standard input, short and interrupted writes",
];

/// nums = [tool, prefix length, channel, mode]; mode bit 0: -o, bit 1: the output file exists already,
/// bit 2: -p 0 given explicitly; aux: chunk sizes
fn channel_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let inv = &INVS[c.num(0) as usize % READERS];
    let t = &inv.input(&c.text);
    let (ch, mode) = (c.num(2) as usize % CHANNELS.len(), c.num(3));
    let p = if inv.prefix { c.num(1) as usize } else { 0 };
    let eff = if p == 0 { &t[..] } else { &t[..p.min(t.len())] };
    need(inv.accepts(eff))?;
    let rel = release(c);
    let io = |e: std::io::Error| Bad::Abort(format!("i/o error of the harness: {}", e));
    let with_o = inv.has_o() && mode & 1 != 0;

    // the reference: a regular file with exactly the bytes
    let reff = env.dir.join("reference");
    std::fs::write(&reff, eff).map_err(io)?;
    let refo = env.dir.join("reference.out");
    let mut r = inv.tool(rel).arg("-i").arg(reff.to_str().unwrap());
    r.small = t.len() <= 1024;
    if with_o && !inv.o_instead() {
        r = r.arg("-o").arg(refo.to_str().unwrap());
    }
    let want = r.run(env)?;
    let want_file = if with_o && !inv.o_instead() { Some(std::fs::read(&refo).map_err(|e| Bad::Fail(format!("{}: no output file: {}", want.cmd, e)))?) } else { None };
    let _ = std::fs::remove_file(&refo);
    if inv.bin != "is_stringattractor" {
        ensure(want.code == Some(0), || format!("{} fails: {}", want.cmd, want.err_tail()))?;
    }
    if let Some(f) = inv.oracle {
        same_bytes(&want.cmd, &want.stdout, &f(eff))?;
    }

    // the channel
    let sizes: Vec<usize> = c.aux.iter().map(|b| match *b {
        b @ 0..=199 => b as usize + 1,
        b => (b as usize - 199) * 331,
    }).collect();
    let list = sizes.iter().take(12).map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let mut tl = inv.tool(rel);
    tl.small = t.len() <= 1024;
    if p > 0 || (inv.prefix && mode & 4 != 0) {
        tl = tl.arg("-p").arg(p.to_string());
    }
    let data = env.dir.join("data");
    let link = env.dir.join("link");
    let fifo = env.dir.join("fifo");
    let put = || std::fs::write(&data, t).map_err(io);
    let eintr = 2 + mode / 8 % 4;
    tl = match ch {
        0 => {
            put()?;
            tl.arg("-i").arg(data.to_str().unwrap())
        }
        1 => {
            put()?;
            let _ = std::fs::remove_file(&link);
            std::os::unix::fs::symlink("data", &link).map_err(io)?;
            tl.arg("-i").arg(link.to_str().unwrap())
        }
        2 => tl.arg("-i").arg(fifo.to_str().unwrap()).input(In::Fifo(fifo.clone(), t.clone(), sizes)),
        3 => tl.input(In::Bytes(t.clone())),
        4 => tl.input(In::Pipe(t.clone(), sizes)),
        5 => tl.arg("-i").arg("/dev/stdin").input(In::Pipe(t.clone(), sizes)),
        6 => tl.input(In::Offset(b"not part of the input\0".to_vec(), t.clone())),
        7 => tl.input(In::Bytes(t.clone())).shim().env("FI_RCHUNK", list).env("FI_EINTR", eintr).env("FI_OUT", "/nonexistent"),
        8 => {
            put()?;
            tl.arg("-i").arg(data.to_str().unwrap()).shim().env("FI_IN", data.display()).env("FI_OUT", "/nonexistent").env("FI_RCHUNK", list).env("FI_EINTR", eintr)
        }
        _ => {
            let of = if with_o { env.dir.join("out").display().to_string() } else { String::new() };
            tl.input(In::Bytes(t.clone())).shim().env("FI_WCHUNK", list).env("FI_EINTR", eintr).env("FI_IN", "/nonexistent").env("FI_OUT", of)
        }
    };
    let of = env.dir.join("out");
    if with_o {
        if mode & 2 != 0 {
            std::fs::write(&of, vec![b'#'; 5000]).map_err(io)?;
        } else {
            let _ = std::fs::remove_file(&of);
        }
        tl = tl.arg("-o").arg(of.to_str().unwrap());
    }
    let got = tl.run(env)?;
    let what = format!("{} [{}, prefix {}]", got.cmd, CHANNELS[ch], p);
    ensure(got.code == want.code, || format!("{} ends with status {:?}, on a plain file with {:?}: {}", what, got.code, want.code, got.err_tail()))?;
    if with_o && inv.o_instead() {
        let f = std::fs::read(&of).map_err(|e| Bad::Fail(format!("{}: no output file: {}", what, e)))?;
        same_bytes(&format!("output file of {}", what), &f, &want.stdout)?;
        same_bytes(&format!("standard output of {}", what), &got.stdout, b"")?;
    } else {
        same_bytes(&format!("output of {}", what), &normal(inv, &got.stdout), &normal(inv, &want.stdout))?;
        if let Some(w) = want_file {
            let f = std::fs::read(&of).map_err(|e| Bad::Fail(format!("{}: no output file: {}", what, e)))?;
            same_bytes(&format!("output file of {}", what), &f, &w)?;
        }
    }
    let _ = std::fs::remove_file(&of);
    let _ = std::fs::remove_file(&fifo);
    pass_l(t.len() >= 2, vec![CHANNELS[ch], inv.bin, if p > 0 && p < t.len() { "proper prefix" } else { "whole input" }])
}
/// a file whose size is reported as zero; nums = [tool, prefix length, file, mode]
fn sizeless_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let inv = &INVS[c.num(0) as usize % READERS];
    let files = sizeless_files();
    need(!files.is_empty())?;
    let (name, t) = &files[c.num(2) as usize % files.len()];
    let p = if inv.prefix { c.num(1) as usize } else { 0 };
    let eff = if p == 0 { &t[..] } else { &t[..p.min(t.len())] };
    need(inv.accepts(eff) && inv.input(t) == *t)?;
    let rel = release(c);
    let plain = env.dir.join("plain");
    std::fs::write(&plain, eff).map_err(|e| Bad::Abort(format!("i/o error of the harness: {}", e)))?;
    let want = inv.tool(rel).arg("-i").arg(plain.to_str().unwrap()).run(env)?;
    let mut tl = inv.tool(rel).arg("-i").arg(*name);
    if p > 0 {
        tl = tl.arg("-p").arg(p.to_string());
    }
    let got = tl.run(env)?;
    ensure(got.code == want.code, || format!("{} ends with status {:?}, on a copy of the file with {:?}: {}", got.cmd, got.code, want.code, got.err_tail()))?;
    same_bytes(&format!("output of {}", got.cmd), &normal(inv, &got.stdout), &normal(inv, &want.stdout))?;
    pass_l(true, vec![inv.bin])
}
/// tools without input; nums = [tool, mode]; mode bit 0: -o, bit 1: the output file exists already and is longer,
/// bit 2: short and interrupted writes (aux: sizes), bits 3-4: how often interrupted
fn source_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let inv = &INVS[READERS + c.num(0) as usize % (INVS.len() - READERS)];
    let mode = c.num(1);
    let rel = release(c);
    let io = |e: std::io::Error| Bad::Abort(format!("i/o error of the harness: {}", e));
    let with_o = inv.has_o() && mode & 1 != 0;
    let want = inv.tool(rel).ok(env)?;
    let of = env.dir.join("out");
    let mut tl = inv.tool(rel);
    if with_o {
        if mode & 2 != 0 {
            std::fs::write(&of, vec![b'#'; want.stdout.len() + 1000]).map_err(io)?;
        } else {
            let _ = std::fs::remove_file(&of);
        }
        tl = tl.arg("-o").arg(of.to_str().unwrap());
    }
    if mode & 4 != 0 {
        let list = c.aux.iter().take(12).map(|b| (*b as usize + 1).to_string()).collect::<Vec<_>>().join(",");
        let target = if with_o { of.display().to_string() } else { String::new() };
        tl = tl.shim().env("FI_WCHUNK", list).env("FI_EINTR", 2 + mode / 8 % 4).env("FI_IN", "/nonexistent").env("FI_OUT", target);
    }
    let got = tl.ok(env)?;
    let what = format!("{}{}", got.cmd, if mode & 4 != 0 { " [short and interrupted writes]" } else { "" });
    if with_o {
        let f = std::fs::read(&of).map_err(|e| Bad::Fail(format!("{}: no output file: {}", what, e)))?;
        same_bytes(&format!("output file of {}", what), &normal(inv, &f), &normal(inv, &want.stdout))?;
        same_bytes(&format!("standard output of {}", what), &got.stdout, b"")?;
    } else {
        same_bytes(&format!("output of {}", what), &normal(inv, &got.stdout), &normal(inv, &want.stdout))?;
    }
    let _ = std::fs::remove_file(&of);
    pass_l(mode & 5 != 0, vec![inv.bin, if mode & 4 != 0 { "disturbed writes" } else { "plain writes" }])
}
/// the prefix of a text that is un-escaped counts bytes of the input: nums = [prefix length, escape byte, mode]
fn unescape_prefix_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let (p, e, mode) = (c.num(0) as usize, c.num(1) as u8, c.num(2));
    let from = [e.wrapping_add(1), e.wrapping_add(7)];
    let to = [e.wrapping_add(3), e.wrapping_add(100)];
    let t = escape_encode(&c.text, e, &from, &to);
    need(t.len() <= 100_000)?;
    let args = |x: Tool<'static>| x.arg("-e").arg(e.to_string()).arg("-f").arg(format!("{},{}", from[0], from[1])).arg("-t").arg(format!("{},{}", to[0], to[1])).arg("--is-reversion").release(mode & 1 != 0);
    let f = env.dir.join("data");
    let mut x = args(tool("escape", &[])).arg("-p").arg(p.to_string());
    if mode & 2 != 0 {
        std::fs::write(&f, &t).map_err(|e| Bad::Abort(format!("i/o error of the harness: {}", e)))?;
        x = x.arg("-i").arg(f.to_str().unwrap());
    } else {
        x = x.input(In::Bytes(t.clone()));
    }
    let got = x.run(env)?;
    let cut = if p == 0 { &t[..] } else { &t[..p.min(t.len())] };
    match escape_decode(cut, e, &from, &to) {
        Some(want) => {
            ensure(got.code == Some(0), || format!("{} fails: {}", got.cmd, got.err_tail()))?;
            same_bytes(&format!("output of {} on [{}]", got.cmd, brief_bytes(&t)), &got.stdout, &want)?;
        }
        // the prefix ends with an escape byte that has no successor in it
        None => ensure(got.code != Some(0), || format!("{} succeeds although the prefix ends within an escaped byte", got.cmd))?,
    }
    pass_l(t.len() >= 2 && p > 0 && p < t.len(), if cut.len() < t.len() && t.len() > c.text.len() { vec!["pairs, and a proper prefix"] } else { vec![] })
}
pub fn c18(t: Tier) -> Vec<Sub> {
    let texts: Vec<Vec<u8>> = vec![
        vec![],
        b"a".to_vec(),
        b"banana".to_vec(),
        b"abracadabra\n".to_vec(),
        vec![0xc3, 0xa4, 13, 10, 255, 254, 1, 1],
        vec![0, 0, 1, 0, 0, 255, 0],
    ];
    let (tn, cn) = (texts.len() as u64, CHANNELS.len() as u64);
    let ps = [0u64, 1, 4, 6, 7, 50];
    let n = READERS as u64 * tn * cn * ps.len() as u64;
    let nums = |max: u64| {
        (
            0u64..READERS as u64,
            prop_oneof![2 => Just(0u64), 4 => 1..max, 1 => max..4 * max, 1 => select(vec![1u64 << 31, 1 << 32, (1 << 32) + 3, 1 << 63, u64::MAX])],
            0u64..CHANNELS.len() as u64,
            0u64..64,
        )
    };
    let chunks = || vec(prop_oneof![3 => Just(0u8), 3 => 0u8..8, 2 => 0u8..200, 2 => 200u8..=255], 1..8);
    vec![
        sub_enum(
            "channels-exhaustive",
            "every tool, channel and prefix kind on fixed texts; nums = [tool, prefix, channel, mode]",
            false,
            n,
            move |i| {
                let (a, i) = (i % READERS as u64, i / READERS as u64);
                let (ch, i) = (i % cn, i / cn);
                let (ti, i) = (i % tn, i / tn);
                Case::new(texts[ti as usize].clone(), vec![(i % 3) as u8], vec![a, ps[i as usize], ch, (a + 3 * ch + 5 * ti + i) % 64])
            },
            channel_case,
        ),
        sub_gen(
            "unescape-prefix",
            "prefixes of escaped texts, measured in bytes of the input; nums = [prefix length, escape byte, mode]",
            false,
            t.pick(500, 8000),
            || {
                (text(0, 60, Bytes::All), vec(any::<u8>(), 0..30), 0u64..100, any::<u8>(), 0u64..4).prop_map(|(mut t, at, p, e, m)| {
                    // many bytes that are to be escaped
                    for (i, x) in at.iter().enumerate() {
                        let k = *x as usize % (t.len() + 1);
                        t.insert(k, e.wrapping_add([0, 1, 7, 3][i % 4]));
                    }
                    Case::new(t, vec![], vec![p, e as u64, m])
                })
            },
            unescape_prefix_case,
        ),
        sub_named("file-names", 11),
        sub_enum(
            "sources",
            "tools without input: output file, new or existing, and disturbed writes; nums = [tool, mode]",
            false,
            (INVS.len() - READERS) as u64 * 32 * 4,
            |i| {
                let (a, i) = (i % (INVS.len() - READERS) as u64, i / (INVS.len() - READERS) as u64);
                Case::new(vec![], [vec![0u8], vec![1, 0, 6], vec![30], vec![99, 2]][i as usize / 32].clone(), vec![a, i % 32])
            },
            source_case,
        ),
        sub_enum(
            "sizeless",
            "files of the proc file system, the size of which is reported as zero; nums = [tool, prefix, file, mode]",
            false,
            READERS as u64 * 8,
            |i| {
                let (a, i) = (i % READERS as u64, i / READERS as u64);
                Case::nums(vec![a, [0, 5][i as usize % 2], i / 2, i])
            },
            sizeless_case,
        ),
        sub_gen(
            "channels-random",
            "structured random texts, prefixes and chunk sizes",
            false,
            t.pick(4500, 60_000),
            move || {
                (prop_oneof![2 => text(0, 150, Bytes::NonZero), 1 => text(0, 150, Bytes::All), 1 => text(0, 1500, Bytes::NonZero)], chunks(), nums(200))
                    .prop_map(|(t, a, (i, p, c, m))| Case::new(t, a, vec![i, p, c, m]))
            },
            channel_case,
        ),
        sub_gen(
            "channels-prefix",
            "prefix lengths around the length of the text and around buffer sizes",
            false,
            t.pick(1500, 20_000),
            move || {
                (
                    prop_oneof![6 => text(1, 200, Bytes::NonZero), 1 => of_length(vec![4095, 4096, 4097, 8191, 8192, 8193, 8200, 16_384, 20_000], Bytes::NonZero)],
                    chunks(),
                    nums(200),
                    0u64..5,
                )
                    .prop_map(|(t, a, (i, p, c, m), d)| {
                        let n = t.len() as u64;
                        let p = if n > 4000 && p % 2 == 0 { [4095, 4096, 4097, 8191, 8192, 8193][p as usize / 2 % 6] } else { (n + d).saturating_sub(2) };
                        Case::new(t, a, vec![i, p, c, m])
                    })
            },
            channel_case,
        ),
        sub_gen(
            "channels-dictionary",
            "texts with well-known byte sequences or literals of the source; lengths and prefixes that are numbers of the source",
            false,
            t.pick(1500, 20_000),
            move || {
                let sizes = source_numbers(0, 20_000);
                (
                    prop_oneof![3 => select(dictionary_texts(Bytes::NonZero)), 2 => select(dictionary_texts(Bytes::All)), 2 => of_length(source_numbers(1, 20_000), Bytes::NonZero)],
                    chunks(),
                    nums(200),
                    prop_oneof![1 => Just(0usize), 2 => select(sizes), 1 => 1usize..40],
                )
                    .prop_map(|(t, a, (i, _, c, m), p)| {
                        let slow = INVS[i as usize].bin == "is_stringattractor" || INVS[i as usize].args.contains(&"-u");
                        let n = t.len();
                        let t = if slow { t[..n.min(3000)].to_vec() } else { t };
                        Case::new(t, a, vec![i, p as u64, c, m])
                    })
            },
            channel_case,
        ),
        sub_gen(
            "channels-long",
            "texts longer than all internal buffers and the capacity of a pipe",
            false,
            t.pick(100, 1500),
            move || {
                (big(66_000, 150_000, Bytes::NonZero), chunks(), nums(100_000)).prop_map(|(t, mut a, (i, p, c, m))| {
                    // is_stringattractor, mus and the naive parts are slow on long texts: shorten
                    let slow = INVS[i as usize].bin == "is_stringattractor" || INVS[i as usize].args.contains(&"-u");
                    let t = if slow { t[..3000].to_vec() } else { t };
                    if c >= 7 {
                        a.push(250);
                    }
                    Case::new(t, a, vec![i, p, c, m])
                })
            },
            channel_case,
        ),
    ]
}

// ================================================================== C25

const FAULTS: [&str; 17] = [
    "missing input file",
    "a directory as input file",
    "a directory as standard input",
    "a terminal that hangs up",
    "read error on standard input",
    "read error on the input file",
    "unreadable device file",
    "/dev/full as standard output",
    "standard output closed",
    "reader of standard output goes away",
    "write error on standard output",
    "write error on the output file",
    "/dev/full as output file",
    "output file in a missing directory",
    "a directory as output file",
    "file size limit on standard output",
    "file size limit on the output file",
];
const FIRST_OUT: usize = 7;
/// not EINTR, which asks for another try, nor EBADF, which the standard library takes for a closed stream
const ERRNO_IN: [i32; 12] = [
    libc::EIO,
    libc::ENXIO,
    libc::ECONNRESET,
    libc::ETIMEDOUT,
    libc::ENOTCONN,
    libc::ESTALE,
    libc::EINVAL,
    libc::EACCES,
    libc::ENOMEM,
    libc::ENODEV,
    libc::EPIPE,
    libc::EAGAIN,
];
const ERRNO_OUT: [i32; 12] = [
    libc::ENOSPC,
    libc::EDQUOT,
    libc::EIO,
    libc::EPIPE,
    libc::EFBIG,
    libc::ECONNRESET,
    libc::EROFS,
    libc::ETIMEDOUT,
    libc::EINVAL,
    libc::ENOMEM,
    libc::EPERM,
    libc::EAGAIN,
];

/// the master side of a pseudo terminal that delivers the bytes and then fails
fn hung_up(data: &[u8]) -> Option<OwnedFd> {
    unsafe {
        let m = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        if m < 0 {
            return None;
        }
        let m = OwnedFd::from_raw_fd(m);
        use std::os::fd::AsRawFd;
        let mut name = [0 as libc::c_char; 128];
        if libc::grantpt(m.as_raw_fd()) != 0 || libc::unlockpt(m.as_raw_fd()) != 0 || libc::ptsname_r(m.as_raw_fd(), name.as_mut_ptr(), 128) != 0 {
            return None;
        }
        let s = libc::open(name.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        if s < 0 {
            return None;
        }
        let mut tio: libc::termios = std::mem::zeroed();
        libc::tcgetattr(s, &mut tio);
        libc::cfmakeraw(&mut tio);
        libc::tcsetattr(s, libc::TCSANOW, &tio);
        let k = if data.is_empty() { 0 } else { libc::write(s, data.as_ptr() as *const _, data.len()) };
        libc::close(s);
        if k != data.len() as isize {
            return None;
        }
        Some(m)
    }
}

/// nums = [tool, fault, byte position of the fault, mode]; mode bit 0: the fault hits one call only,
/// bit 1: another error number, bits 2-3: short transfers
fn fault_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let inv = &INVS[c.num(0) as usize % INVS.len()];
    let fault = c.num(1) as usize % FAULTS.len();
    let pos = c.num(2) as usize;
    let mode = c.num(3);
    let reads = !matches!(inv.kind, Source | Printer | Random);
    let t = &if reads { inv.input(&c.text) } else { c.text.clone() };
    need(reads || (fault >= FIRST_OUT && t.is_empty()))?;
    need(!reads || inv.accepts(t))?;
    let rel = release(c);
    let io = |e: std::io::Error| Bad::Abort(format!("i/o error of the harness: {}", e));
    let big = t.len() > 1024;
    let of = env.dir.join("out");
    let mark = env.dir.join("mark");
    let _ = std::fs::remove_file(&of);
    let _ = std::fs::remove_file(&mark);
    let file_out = matches!(fault, 11 | 12 | 13 | 14 | 16);
    need(!file_out || inv.has_o())?;
    let base = |o: bool| {
        let mut tl = inv.tool(rel);
        tl.small = !big;
        if o {
            tl = tl.arg("-o").arg(of.to_str().unwrap());
        }
        tl
    };
    let fed = |tl: Tool<'static>| if reads { tl.input(In::Bytes(t.clone())) } else { tl };

    // without the fault
    let clean = fed(base(file_out)).run(env)?;
    let status = if inv.bin == "is_stringattractor" { vec![Some(0), Some(2)] } else { vec![Some(0)] };
    ensure(status.contains(&clean.code), || format!("{} fails without any fault: {}", clean.cmd, clean.err_tail()))?;
    let clean_file = if file_out { std::fs::read(&of).map_err(|e| Bad::Fail(format!("{}: no output file: {}", clean.cmd, e)))? } else { vec![] };
    let _ = std::fs::remove_file(&of);
    let size = if file_out { clean_file.len() } else { clean.stdout.len() };

    // with it
    let mut tl = base(file_out && !matches!(fault, 12 | 13 | 14));
    let once = mode & 1;
    let errno = match (fault < FIRST_OUT, (mode / 16) as usize) {
        (true, e) => ERRNO_IN[e % ERRNO_IN.len()],
        (false, e) => ERRNO_OUT[e % ERRNO_OUT.len()],
    };
    // trying again later is an answer to this one
    let once = if errno == libc::EAGAIN { 1 } else { once };
    let chunk = ["", "1", "3", "7,2"][(mode / 4 % 4) as usize];
    let shim = |tl: Tool<'static>| {
        let tl = tl.shim().env("FI_ONCE", once).env("FI_ERRNO", errno).env("FI_MARK", mark.display());
        if fault < FIRST_OUT {
            tl.env("FI_RFAIL", pos).env("FI_RCHUNK", chunk)
        } else {
            tl.env("FI_WFAIL", pos).env("FI_WCHUNK", chunk)
        }
    };
    let data = env.dir.join("data");
    // the fault certainly hits, and for good
    let mut certain = false;
    let bad = if fault == 13 { env.dir.join("missing").join("out") } else { env.dir.join("directory") };
    match fault {
        0 => {
            certain = true;
            tl = tl.arg("-i").arg(env.dir.join("does-not-exist").to_str().unwrap());
        }
        1 => {
            certain = true;
            tl = tl.arg("-i").arg(env.dir.to_str().unwrap());
        }
        2 => {
            certain = true;
            tl = tl.input(In::Path(env.dir.clone()));
        }
        3 => {
            need(t.len() <= 1500)?;
            match hung_up(&t[..pos.min(t.len())]) {
                Some(fd) => tl = tl.input(In::Fd(fd)),
                None => return Err(Bad::Discard),
            }
            certain = true;
        }
        4 => tl = shim(fed(tl)),
        5 => {
            std::fs::write(&data, t).map_err(io)?;
            tl = shim(tl.arg("-i").arg(data.to_str().unwrap()).env("FI_IN", data.display()));
        }
        6 => {
            certain = true;
            tl = tl.arg("-i").arg("/proc/self/mem");
        }
        7 => {
            certain = size > 0;
            tl = fed(tl).to(To::Path(PathBuf::from("/dev/full")));
        }
        8 => {
            certain = size > 0;
            tl = fed(tl).to(To::Closed);
        }
        9 => {
            certain = size > pos + 4096 + 64;
            tl = fed(tl).to(To::Cut(pos));
        }
        10 => tl = shim(fed(tl)),
        11 => tl = shim(fed(tl).env("FI_OUT", of.display())),
        12 => {
            certain = size > 0;
            // never the device itself: a tool that replaces its output file would destroy it
            let link = env.dir.join("full");
            let _ = std::fs::remove_file(&link);
            std::os::unix::fs::symlink("/dev/full", &link).map_err(io)?;
            tl = fed(tl.arg("-o").arg(link.to_str().unwrap()));
        }
        13 | 14 => {
            if fault == 14 {
                std::fs::create_dir_all(&bad).map_err(io)?;
            }
            certain = true;
            tl = fed(tl.arg("-o").arg(bad.to_str().unwrap()));
        }
        _ => {
            // without reading a file given by -i, all files written belong to the tool
            tl = fed(tl);
            tl.fsize = Some(pos as u64);
        }
    }
    let got = tl.run_any(env)?;
    let marked = mark.exists();
    let _ = std::fs::remove_file(&mark);
    let what = format!("{} [{}{}]", got.cmd, FAULTS[fault], if matches!(fault, 3 | 4 | 5 | 9 | 10 | 11 | 15 | 16) { format!(" after {} bytes", pos) } else { String::new() });
    let success = status.contains(&got.code);
    if success {
        ensure(!certain, || format!("{} ends with success", what))?;
        ensure(!marked || once == 1, || format!("{} ends with success although the transfer failed for good", what))?;
        // whatever happened, success means that everything was processed and delivered
        ensure(got.code == clean.code, || format!("{} ends with status {:?} instead of {:?}", what, got.code, clean.code))?;
        if !matches!(fault, 7 | 8 | 9) {
            same_bytes(&format!("{} ends with success; its output", what), &normal(inv, &got.stdout), &normal(inv, &clean.stdout))?;
        }
        if file_out && !matches!(fault, 12 | 13 | 14) {
            let f = std::fs::read(&of).unwrap_or_default();
            same_bytes(&format!("{} ends with success; its output file", what), &normal(inv, &f), &normal(inv, &clean_file))?;
        }
    } else if !marked && matches!(fault, 4 | 5 | 10 | 11) && inv.kind != Random {
        // the fault did not hit: nothing may fail
        return fail(format!("{} fails without having met the fault: {}", what, got.err_tail()));
    }
    let _ = std::fs::remove_file(&of);
    let hit = certain || marked || (!success && fault >= FIRST_OUT);
    pass_l(hit, vec![FAULTS[fault], if hit { "fault hit" } else { "fault not reached" }])
}
pub fn c25(t: Tier) -> Vec<Sub> {
    let texts: Vec<Vec<u8>> = vec![b"banana".to_vec(), vec![], b"aab0000b\xff\x01aaaaa".to_vec()];
    let mut all: Vec<(usize, u64, u64, u64, u64)> = vec![];
    for i in 0..INVS.len() {
        let reads = i < READERS;
        for (ti, tx) in texts.iter().enumerate() {
            if (!reads && ti != 1) || (reads && !INVS[i].accepts(tx)) {
                continue;
            }
            for f in 0..FAULTS.len() {
                if !reads && f < FIRST_OUT {
                    continue;
                }
                let (lo, modes): (u64, &[u64]) = match f {
                    3 => (tx.len() as u64 + 1, &[0]),
                    4 | 5 => (tx.len() as u64 + 2, &[0, 1, 6]),
                    10 | 11 => (if reads { 40 } else { 60 }, &[0, 1, 6]),
                    15 | 16 => (20, &[0]),
                    _ => (1, &[0]),
                };
                for pos in 0..lo {
                    for &m in modes {
                        all.push((i, ti as u64, f as u64, pos, m));
                    }
                    // further error numbers
                    if matches!(f, 4 | 5 | 10 | 11) && (pos <= 2 || pos % 7 == tx.len() as u64 % 7) {
                        for e in 1..12 {
                            all.push((i, ti as u64, f as u64, pos, 16 * e));
                        }
                    }
                }
            }
        }
    }
    let n = all.len() as u64;
    vec![
        sub_enum(
            "faults-exhaustive",
            "every tool, fault and byte position up to a bound on fixed texts; nums = [tool, fault, position, mode]",
            false,
            n,
            move |i| {
                let (a, ti, f, p, m) = all[i as usize];
                let tx = if a < READERS { texts[ti as usize].clone() } else { vec![] };
                Case::new(tx, vec![], vec![a as u64, f, p, m])
            },
            fault_case,
        ),
        sub_gen(
            "faults-random",
            "random texts, faults and positions",
            false,
            t.pick(3000, 60_000),
            || {
                (
                    prop_oneof![3 => text(0, 80, Bytes::NonZero), 2 => text(0, 1200, Bytes::NonZero)],
                    0u64..INVS.len() as u64,
                    0u64..FAULTS.len() as u64,
                    any::<u16>(),
                    prop_oneof![1 => Just(100u64), 2 => Just(1000), 1 => Just(4000)],
                    0u64..16 * 12,
                )
                    .prop_map(|(t, i, f, pos, span, m)| {
                        let reads = (i as usize) < READERS;
                        let f = if !reads && f < FIRST_OUT as u64 { f + 7 } else { f };
                        let span = if (f as usize) < FIRST_OUT || span == 1000 { t.len() as u64 + 4 } else { span };
                        let t = if reads { t } else { vec![] };
                        Case::new(t, vec![], vec![i, f, pos as u64 * span / 65536, m])
                    })
            },
            fault_case,
        ),
        sub_gen(
            "faults-long",
            "texts longer than all internal buffers; faults at any byte",
            false,
            t.pick(160, 3000),
            || {
                (big(5_000, 150_000, Bytes::NonZero), 0u64..READERS as u64, select(vec![4u64, 5, 7, 8, 9, 10, 11, 12, 15, 16]), any::<u32>(), 0u64..16 * 12).prop_map(
                    |(t, i, f, pos, m)| {
                        let slow = INVS[i as usize].bin == "is_stringattractor" || INVS[i as usize].args.contains(&"-u");
                        let t = if slow { t[..3000].to_vec() } else { t };
                        let n = t.len() as u64 * 2;
                        Case::new(t, vec![], vec![i, f, pos as u64 * n >> 32, m])
                    },
                )
            },
            fault_case,
        ),
    ]
}

// ================================================================== C32

const VARIATIONS: [&str; 25] = [
    "the same again",
    "RUST_LOG=error",
    "RUST_LOG=info",
    "RUST_LOG=debug",
    "RUST_LOG=trace",
    "RUST_LOG=stringology=trace,warn",
    "RUST_LOG=???",
    "the other build",
    "the other build with RUST_LOG=debug",
    "another locale and time zone",
    "an almost empty environment",
    "another working directory, relative names",
    "other bytes on standard input beside -i",
    "standard input at its end beside -i",
    "long options",
    "options in another order",
    "prefix length equal to the text length",
    "more environment",
    "RUST_LOG=debug and no usable standard error",
    "RUST_LOG_STYLE and RUST_BACKTRACE",
    "standard output is a terminal",
    "standard input and standard error are terminals",
    "a single processor",
    "another date",
    "another program name",
];

/// names of files in the working directory
const RELATIVE: [&str; 24] = [
    "data", "-", "~", " data", "data ", "none", "stdin", "0", "stdout", "null", "data.gz", "data.bwt", "%s", "{}", "a b", "'", "data\\n", "*", "$HOME", "file:data", "http:", "d\u{e4}ta", "con", "1",
];
/// these, and what the source mentions, as the name, its beginning or its end
fn names() -> &'static [String] {
    static ALL: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let mut v: Vec<String> = RELATIVE.iter().map(|s| s.to_string()).collect();
        v.extend(crate::dict::dict().names.iter().flat_map(|(_, s)| around(s)));
        v.sort();
        v.dedup();
        v
    })
}
/// a name as it is, with something before it, and with something behind it
fn around(s: &str) -> [String; 3] {
    [s.to_string(), format!("data{}", s), format!("{}data", s)]
}
/// the tools that shall be tried with each name: the one whose source mentions it, or some
fn named() -> Vec<(usize, String)> {
    let mut v = vec![];
    for (k, (tool, s)) in crate::dict::dict().names.iter().enumerate() {
        for (j, n) in around(s).into_iter().enumerate() {
            match tool {
                Some(t) => v.extend((0..INVS.len()).filter(|&i| INVS[i].bin == t).map(|i| (i, n.clone()))),
                None => v.extend((0..4).map(|i| ((7 * k + j + i * INVS.len() / 4) % INVS.len(), n.clone()))),
            }
        }
    }
    v
}
/// file names (variation 11) or program names (24)
fn sub_named(name: &'static str, variation: u64) -> Sub {
    let all = named();
    sub_enum(
        name,
        "every short string of the source as the name, its beginning and its end, of the files or of the program; aux = name, nums = [tool, variation, mode]",
        false,
        all.len() as u64 * 3,
        move |i| {
            let ((a, n), k) = (&all[i as usize / 3], i % 3);
            let text = if *a >= READERS { vec![] } else { [&b"ab\nba\r\nab a\tb>ab\n"[..], b"\xff\xfe\xc3\xa4 \x01\x02ACGTacgt,.;\n", b"aaaabaaabaaa"][k as usize].to_vec() };
            Case::new(text, n.clone().into_bytes(), vec![*a as u64, variation, [1, 0, 3][k as usize]])
        },
        same_case,
    )
}
/// some variables of the locale with some value
fn with_locale(mut tl: Tool, h: u64) -> Tool {
    const VALUES: [&str; 14] = [
        "de_DE.UTF-8", "tr_TR.UTF-8", "C", "fr_FR.ISO-8859-1", "ja_JP.eucJP", "POSIX", "C.UTF-8", "en_US.UTF-8", "zh_CN.GB18030", "ru_RU.KOI8-R", "ar_EG", "", "de", "nonsense",
    ];
    let v = VALUES[h as usize / 4 % VALUES.len()];
    let w = VALUES[h as usize / 4 / VALUES.len() % VALUES.len()];
    // LC_ALL decides if it is set, then the particular one, then LANG
    match h % 4 {
        0 => tl = tl.env("LC_ALL", v).env("LANG", w),
        1 => tl = tl.env("LC_NUMERIC", v).env("LC_CTYPE", v).env("LC_COLLATE", v).env("LANG", w),
        2 => tl = tl.env("LANG", v).env("LANGUAGE", w),
        _ => tl = tl.env("LC_ALL", v).env("LC_NUMERIC", v).env("LANG", v),
    }
    tl.env("TZ", ["Asia/Tokyo", "UTC", "America/St_Johns"][h as usize % 3])
}

/// nums = [tool, variation, mode]; mode bit 0: -o, bit 1: release build is the reference
fn same_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let inv = &INVS[c.num(0) as usize % INVS.len()];
    let var = c.num(1) as usize % VARIATIONS.len();
    let mode = c.num(2);
    let reads = !matches!(inv.kind, Source | Printer | Random);
    need(!reads || inv.accepts(&c.text))?;
    need(reads || c.text.is_empty())?;
    // the log lists whole arrays and trees
    need(c.text.len() <= 4000)?;
    let t = if reads { inv.input(&c.text) } else { vec![] };
    let io = |e: std::io::Error| Bad::Abort(format!("i/o error of the harness: {}", e));
    let with_o = inv.has_o() && mode & 1 != 0;
    let rel = mode & 2 != 0;
    let (data, of) = (env.dir.join("data"), env.dir.join("out"));
    std::fs::write(&data, &t).map_err(io)?;
    let _ = std::fs::remove_file(&of);
    let (din, dout) = (data.to_str().unwrap().to_string(), of.to_str().unwrap().to_string());
    let assemble = |rel: bool, i: &str, o: &str, out: bool, inp: bool| {
        let mut tl = inv.tool(rel);
        tl.small = false;
        if reads && inp {
            tl = tl.arg(i).arg(&din);
        }
        if with_o && out {
            tl = tl.arg(o).arg(&dout);
        }
        tl
    };
    let base = |rel: bool| assemble(rel, "-i", "-o", true, true);
    let want = base(rel).run(env)?;
    let want_file = if with_o { std::fs::read(&of).map_err(|e| Bad::Fail(format!("{}: no output file: {}", want.cmd, e)))? } else { vec![] };
    let _ = std::fs::remove_file(&of);
    if inv.bin != "is_stringattractor" {
        ensure(want.code == Some(0), || format!("{} fails: {}", want.cmd, want.err_tail()))?;
    }
    let mut moved = None;
    let tl = match var {
        0 => base(rel),
        1 => base(rel).env("RUST_LOG", "error"),
        2 => base(rel).env("RUST_LOG", "info"),
        3 => base(rel).env("RUST_LOG", "debug"),
        4 => base(rel).env("RUST_LOG", "trace"),
        5 => base(rel).env("RUST_LOG", "stringology=trace,warn"),
        6 => base(rel).env("RUST_LOG", "???"),
        7 => base(!rel),
        8 => base(!rel).env("RUST_LOG", "debug"),
        9 => with_locale(base(rel), if c.nums.len() > 3 { c.num(3) } else { c.hash64() }),
        10 => {
            let mut x = base(rel);
            x.clear_env = true;
            x
        }
        11 => {
            need(reads || with_o)?;
            let mut x = inv.tool(rel);
            let cwd = env.dir.join("relative");
            std::fs::create_dir_all(cwd.join("sub")).map_err(io)?;
            let h = c.hash64() as usize / 2;
            let names = names();
            let (mut i, mut o) = (names[h % names.len()].clone(), names[h / names.len() % names.len()].clone());
            if !c.aux.is_empty() {
                i = String::from_utf8_lossy(&c.aux).to_string();
                o = if h % 2 == 0 { format!("out{}", i) } else { i.clone() };
            }
            let o = format!("{}{}", [if o.starts_with('-') { "./" } else { "" }, "./", "sub/"][h / 4096 % 3], if o == i { format!("{}out", o) } else { o });
            if reads {
                std::fs::write(cwd.join(&i), &t).map_err(io)?;
                // such a name would be taken for an option
                let option = i.len() > 1 && i.starts_with('-');
                x = x.arg("-i").arg(if option { format!("./{}", i) } else { i });
            }
            if with_o {
                x = x.arg("-o").arg(&o);
                moved = Some(cwd.join(&o));
            }
            if h % 3 == 0 {
                x = x.input(In::Bytes(b"something else, of another length".to_vec()));
            }
            x.cwd = Some(cwd);
            x
        }
        12 => {
            need(reads)?;
            base(rel).input(In::Bytes(b"something else, of another length".to_vec()))
        }
        13 => {
            need(reads)?;
            base(rel).input(In::Bytes(vec![]))
        }
        14 => {
            need(reads || with_o)?;
            assemble(rel, "--infilename", "--outfilename", true, true)
        }
        15 => {
            need(inv.bin != "is_stringattractor" && inv.bin != "enumerate" && (reads || with_o))?;
            let mut x = tool(inv.bin, &[]).release(rel);
            x.small = false;
            if with_o {
                x = x.arg("-o").arg(&dout);
            }
            if reads {
                x = x.arg("-i").arg(&din);
            }
            for a in inv.args {
                x = x.arg(*a);
            }
            x
        }
        16 => {
            need(reads && inv.prefix && !t.is_empty())?;
            base(rel).arg("-p").arg(t.len().to_string())
        }
        17 => with_source_envs(base(rel), c.hash64() / 8)
            .env("TMPDIR", "/nonexistent").env("HOME", "/nonexistent").env("PREFIX", "3").env("ORDER", "1").env("INFILENAME", "/nonexistent").env("COLUMNS", "3").env("TERM", "dumb").env("NO_COLOR", "1").env("CLICOLOR_FORCE", "1"),
        18 => {
            let mut x = base(rel).env("RUST_LOG", "debug");
            x.stderr_full = true;
            x
        }
        19 => base(rel).env("RUST_LOG", "debug").env("RUST_LOG_STYLE", "always").env("RUST_BACKTRACE", "full"),
        20 => {
            let mut x = base(rel).to(To::Terminal).env("TERM", "xterm-256color").env("COLUMNS", "80");
            if c.hash64() % 2 == 0 {
                x.stderr_terminal = true;
                x = x.env("RUST_LOG", "info");
            }
            x
        }
        21 => {
            let mut x = base(rel).env("TERM", "xterm-256color");
            if reads {
                x = x.input(In::Terminal);
            }
            if c.hash64() % 2 == 0 {
                x = x.to(To::Terminal).env("RUST_LOG", "debug");
            }
            x.stderr_terminal = true;
            x
        }
        22 => {
            let mut x = base(rel);
            x.one_cpu = true;
            x
        }
        // years back, the end of 32-bit times, the far future, a month
        23 => base(rel).shim().env("FI_CLOCK", [-1_500_000_000i64, 900_000_000, 20_000_000_000, 2_592_000][c.hash64() as usize / 2 % 4]),
        _ => {
            let mut x = base(rel);
            let h = c.hash64() as usize / 2;
            let names = names();
            x.name = Some(match h % 12 {
                k if !c.aux.is_empty() => format!("{}{}", ["", "/usr/bin/", "./"][k % 3], String::from_utf8_lossy(&c.aux)),
                k @ 0..=5 => ["", "tool", "./a b", "/usr/bin/reverse", "decode", "zcat"][k].into(),
                k => format!("{}{}", ["", "/usr/bin/", "./"][k % 3], names[h / 12 % names.len()]),
            });
            x
        }
    };
    let got = tl.run(env)?;
    if let Some(m) = &moved {
        if got.code == Some(0) {
            std::fs::rename(m, &of).map_err(|e| Bad::Fail(format!("{}: no output file {}: {}", got.cmd, m.display(), e)))?;
        }
    }
    if var == 11 {
        let _ = std::fs::remove_dir_all(env.dir.join("relative"));
    }
    let what = format!("{} [{}]", got.cmd, VARIATIONS[var]);
    ensure(got.code == want.code, || format!("{} ends with status {:?} instead of {:?}: {}", what, got.code, want.code, got.err_tail()))?;
    same_bytes(&format!("output of {}", what), &normal(inv, &got.stdout), &normal(inv, &want.stdout))?;
    if with_o {
        let f = std::fs::read(&of).map_err(|e| Bad::Fail(format!("{}: no output file: {}", what, e)))?;
        same_bytes(&format!("output file of {}", what), &normal(inv, &f), &normal(inv, &want_file))?;
    }
    let _ = std::fs::remove_file(&of);
    pass_l(!reads || t.len() >= 2, vec![VARIATIONS[var], inv.bin])
}
/// a file that is changed between the runs, keeping its length and its time of modification: nums = [tool, history, mode];
/// mode bit 0: the file is replaced by another one, bit 1: release build
fn changed_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let inv = &INVS[c.num(0) as usize % READERS];
    let mode = c.num(2);
    need(inv.accepts(&c.text) && c.text.len() >= 2)?;
    let io = |e: std::io::Error| Bad::Abort(format!("i/o error of the harness: {}", e));
    let mut r = crate::gens::Mix(c.num(1));
    let mut texts = vec![c.text.clone()];
    for _ in 0..3 {
        let mut t = texts[r.below(texts.len())].clone();
        match r.below(4) {
            0 => t.reverse(),
            1 => t.rotate_left(1),
            2 => t.sort(),
            _ => {
                let (i, j) = (r.below(t.len()), r.below(t.len()));
                t[i] = t[j];
            }
        }
        texts.push(t);
    }
    let dir = env.dir.join("changed");
    std::fs::create_dir_all(&dir).map_err(io)?;
    let f = dir.join("data");
    let stamp = std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_700_000_000);
    let order: Vec<usize> = (0..6).map(|k| if k < 4 { k } else { r.below(4) }).collect();
    for (step, &k) in order.iter().enumerate() {
        let t = inv.input(&texts[k]);
        if mode & 1 != 0 {
            let g = dir.join("next");
            std::fs::write(&g, &t).map_err(io)?;
            std::fs::rename(&g, &f).map_err(io)?;
        } else {
            std::fs::write(&f, &t).map_err(io)?;
        }
        std::fs::File::options().write(true).open(&f).and_then(|x| x.set_modified(stamp)).map_err(io)?;
        let of = env.dir.join("out");
        let run = |named: bool| -> Result<(Out, Vec<u8>), Bad> {
            let _ = std::fs::remove_file(&of);
            let mut tl = inv.tool(mode & 2 != 0).env("HOME", dir.display()).env("TMPDIR", dir.display()).env("XDG_CACHE_HOME", dir.display());
            tl.small = false;
            tl.cwd = Some(dir.clone());
            if inv.kind == Factors {
                tl = tl.arg("-o").arg(of.to_str().unwrap());
            }
            tl = if named { tl.arg("-i").arg(f.to_str().unwrap()) } else { tl.input(In::Bytes(t.clone())) };
            let o = tl.run(env)?;
            Ok((o, std::fs::read(&of).unwrap_or_default()))
        };
        let (got, file) = run(true)?;
        let (want, want_file) = run(false)?;
        let what = format!("{} [run {} on a file whose bytes were changed]", got.cmd, step + 1);
        ensure(got.code == want.code, || format!("{} ends with status {:?} instead of {:?}: {}", what, got.code, want.code, got.err_tail()))?;
        same_bytes(&format!("output of {}", what), &normal(inv, &got.stdout), &normal(inv, &want.stdout))?;
        same_bytes(&format!("output file of {}", what), &file, &want_file)?;
    }
    let _ = std::fs::remove_dir_all(&dir);
    pass_l(true, vec![inv.bin])
}
/// whatever in the source looks like the name of an environment variable is set
fn with_source_envs(mut x: Tool, h: u64) -> Tool {
    for (i, name) in crate::dict::dict().envs.iter().enumerate() {
        if !["PATH", "HOME", "RUST_LOG", "RUST_LOG_STYLE", "RUST_BACKTRACE"].contains(&name.as_str()) {
            x = x.env(name, ["1", "true", "0", "2", "/nonexistent", "65536"][(h as usize + i) % 6]);
        }
    }
    x
}
pub fn c32(t: Tier) -> Vec<Sub> {
    let texts: Vec<Vec<u8>> = vec![vec![], b"banana".to_vec(), b"abaababaabaababaababa".to_vec(), vec![0xc3, 0xa4, 13, 10, 255, 254, 1, 1, 10], vec![0, 0, 1, 0, 0, 255, 0]];
    let mut all: Vec<(usize, usize, u64, u64)> = vec![];
    for i in 0..INVS.len() {
        for (ti, tx) in texts.iter().enumerate() {
            if (i >= READERS && ti > 0) || (i < READERS && !INVS[i].accepts(tx)) {
                continue;
            }
            for v in 0..VARIATIONS.len() as u64 {
                for m in 0..4 {
                    if m & 1 == 0 || INVS[i].has_o() {
                        all.push((i, ti, v, m));
                    }
                }
            }
        }
    }
    vec![
        sub_enum(
            "same-exhaustive",
            "every tool under every variation on fixed texts; nums = [tool, variation, mode]",
            false,
            all.len() as u64,
            move |i| {
                let (a, ti, v, m) = all[i as usize];
                Case::new(texts[ti].clone(), vec![], vec![a as u64, v, m])
            },
            same_case,
        ),
        sub_named("same-file-names", 11),
        sub_named("same-program-names", 24),
        sub_enum(
            "same-locales",
            "every tool under various locales; nums = [tool, variation, mode, locale]",
            false,
            INVS.len() as u64 * 4 * 14 * t.pick(1, 6),
            |i| {
                let (a, l) = ((i % INVS.len() as u64), i / INVS.len() as u64);
                let long = b"the quick brown fox jumps over 13 lazy dogs, again and again and again.".to_vec();
                let text = if a >= READERS as u64 { vec![] } else if l % 3 < 2 { long } else { b"\xc3\xa4\xc3\xa4\xe9\xff\xc3\xa4 Ii \xc4\xb0 1.5".to_vec() };
                Case::new(text, vec![], vec![a, 9, l / 2 % 4, l])
            },
            same_case,
        ),
        sub_gen(
            "same-random",
            "structured random texts",
            false,
            t.pick(2500, 40_000),
            || {
                (
                    prop_oneof![3 => text(1, 120, Bytes::NonZero), 1 => text(1, 120, Bytes::All), 1 => text(1, 1500, Bytes::NonZero)],
                    0u64..READERS as u64,
                    0u64..VARIATIONS.len() as u64,
                    0u64..4,
                )
                    .prop_map(|(t, i, v, m)| Case::new(t, vec![], vec![i, v, m]))
            },
            same_case,
        ),
        sub_gen(
            "changed-file",
            "several runs on a file whose bytes change, but neither its length nor its time: nums = [tool, history, mode]",
            false,
            t.pick(300, 4000),
            || {
                (prop_oneof![1 => text(2, 40, Bytes::NonZero), 1 => text(4, 300, Bytes::NonZero)], 0u64..READERS as u64, 0u64..1_000_000, 0u64..4)
                    .prop_map(|(t, a, h, m)| Case::new(t, vec![], vec![a, h, m]))
            },
            changed_case,
        ),
    ]
}

#[allow(dead_code)]
fn unused(_: &Path) {}
