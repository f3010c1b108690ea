//! Command lines the tools do not understand, and the spellings of those they do (C36).
use crate::case::*;
use crate::cli::need;
use crate::cli3::{normal, release, INVS};
use crate::frame::*;
use crate::gens::*;
use crate::tool::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;

fn io(e: std::io::Error) -> Bad {
    Bad::Abort(format!("i/o error of the harness: {}", e))
}

/// a numeric option: its names, the bound of its values, whether it takes a list, and valid values
struct Opt {
    short: &'static str,
    long: &'static str,
    max: u64,
    list: bool,
    good: &'static [&'static str],
}
struct Cmd {
    bin: &'static str,
    /// arguments that have to be there, without those of `opts`
    fixed: &'static [&'static str],
    opts: &'static [Opt],
    /// the options to be given always
    must: &'static [usize],
    flags: &'static [(&'static str, &'static str)],
    i: bool,
    o: bool,
}
const fn opt(short: &'static str, long: &'static str, max: u64, good: &'static [&'static str]) -> Opt {
    Opt { short, long, max, list: false, good }
}
const fn list(short: &'static str, long: &'static str, max: u64, good: &'static [&'static str]) -> Opt {
    Opt { short, long, max, list: true, good }
}
const P: Opt = opt("-p", "--prefixlength", u64::MAX, &["0", "1", "3", "4", "8", "11", "4294967296", "18446744073709551615"]);
const PL: &[Opt] = &[P];
const ORDER: Opt = opt("-o", "--order", u64::MAX, &["0", "1", "2", "3", "8", "10"]);
static CMDS: [Cmd; 19] = [
    Cmd { bin: "bwt", fixed: &[], opts: PL, must: &[], flags: &[("-u", "--use-matrix"), ("-n", "--no-dollar")], i: true, o: true },
    Cmd { bin: "count_lexparse", fixed: &[], opts: PL, must: &[], flags: &[], i: true, o: true },
    Cmd { bin: "count_r", fixed: &[], opts: PL, must: &[], flags: &[("-u", "--use-matrix"), ("-n", "--no-dollar")], i: true, o: false },
    Cmd { bin: "count_runs", fixed: &[], opts: &[], must: &[], flags: &[], i: true, o: false },
    Cmd { bin: "count_sigma", fixed: &[], opts: PL, must: &[], flags: &[], i: true, o: false },
    Cmd { bin: "count_z", fixed: &[], opts: PL, must: &[], flags: &[], i: true, o: true },
    Cmd { bin: "entropy", fixed: &[], opts: &[P, ORDER], must: &[], flags: &[], i: true, o: false },
    Cmd { bin: "entropy_kmer", fixed: &[], opts: &[P, opt("-o", "--order", u64::MAX, &["1", "2", "3", "7"])], must: &[1], flags: &[], i: true, o: false },
    Cmd {
        bin: "escape",
        fixed: &[],
        opts: &[P, opt("-e", "--escape-symbol", 255, &["92", "0", "7", "255"]), list("-f", "--from-symbols", 255, &["98,97", "100,254"]), list("-t", "--to-symbols", 255, &["48,49", "1,2"])],
        must: &[1, 2, 3],
        flags: &[("", "--is-reversion")],
        i: true,
        o: true,
    },
    Cmd { bin: "is_stringattractor", fixed: &[], opts: &[P, opt("-a", "--attractor", u64::MAX, &["0", "1", "2", "10"])], must: &[1], flags: &[], i: true, o: false },
    Cmd { bin: "lyndonfactorization", fixed: &[], opts: PL, must: &[], flags: &[], i: true, o: true },
    Cmd { bin: "lyndonwords", fixed: &[], opts: &[opt("-l", "", u64::MAX, &["4", "1", "5", "8"]), opt("-s", "", u64::MAX, &["2", "1", "3", "8"])], must: &[], flags: &[], i: false, o: true },
    Cmd { bin: "mtf", fixed: &[], opts: &[], must: &[], flags: &[], i: true, o: true },
    Cmd { bin: "mus", fixed: &[], opts: PL, must: &[], flags: &[], i: true, o: false },
    Cmd { bin: "randomstring", fixed: &[], opts: &[opt("-p", "--prefixlength", u64::MAX, &["10", "0", "300"]), opt("-a", "--alphabet-size", u64::MAX, &["5", "1", "20"])], must: &[1], flags: &[], i: false, o: true },
    Cmd { bin: "reverse", fixed: &[], opts: PL, must: &[], flags: &[], i: true, o: true },
    Cmd { bin: "rle", fixed: &[], opts: &[], must: &[], flags: &[("", "--onlyzero"), ("", "--human")], i: true, o: true },
    Cmd { bin: "word", fixed: &["-n", "fibonacci"], opts: &[opt("-k", "", 255, &["6", "0", "8", "12", "11"])], must: &[0], flags: &[], i: false, o: true },
    Cmd {
        bin: "enumerate",
        fixed: &[],
        opts: &[opt("", "", u64::MAX, &["2", "10", "1", "9", "12"]), opt("", "", u64::MAX, &["1", "8", "2"]), opt("", "", u64::MAX, &["3", "2", "8"])],
        must: &[0, 1],
        flags: &[],
        i: false,
        o: false,
    },
];
/// (command, option) pairs
fn options() -> Vec<(usize, usize)> {
    CMDS.iter().enumerate().flat_map(|(c, x)| (0..x.opts.len()).map(move |o| (c, o))).collect()
}

impl Opt {
    /// the ways to give a value
    fn forms(&self) -> usize {
        if self.short.is_empty() {
            1
        } else if self.long.is_empty() {
            3
        } else {
            5
        }
    }
    fn spell(&self, form: usize, v: &str) -> Vec<String> {
        if self.short.is_empty() {
            return vec![v.into()];
        }
        match form {
            0 => vec![self.short.into(), v.into()],
            1 => vec![format!("{}{}", self.short, v)],
            2 => vec![format!("{}={}", self.short, v)],
            3 => vec![self.long.into(), v.into()],
            _ => vec![format!("{}={}", self.long, v)],
        }
    }
    fn separate(&self, form: usize) -> bool {
        self.short.is_empty() || matches!(form, 0 | 3)
    }
}
/// a decimal number within the bound, maybe padded with blanks (which nobody promises anything about)
fn number(v: &str, max: u64) -> bool {
    let v = v.trim();
    // "-0" is a spelling of zero
    let v = match v.strip_prefix('-') {
        Some(z) if z.bytes().all(|b| b == b'0') => z,
        _ => v.strip_prefix('+').unwrap_or(v),
    };
    !v.is_empty() && v.bytes().all(|b| b.is_ascii_digit()) && v.parse::<u64>().map_or(false, |x| x <= max)
}
fn bad_value(o: &Opt, v: &str) -> bool {
    if o.list {
        v.split(',').any(|x| !number(x, o.max))
    } else {
        !number(v, o.max)
    }
}

/// runs a command line that must be refused
fn refused(c: &Cmd, mut args: Vec<String>, text: &[u8], rel: bool, mode: u64, env: &mut Env) -> Result<Out, Bad> {
    let (data, out) = (env.dir.join("data"), env.dir.join("out"));
    std::fs::write(&data, text).map_err(io)?;
    let _ = std::fs::remove_file(&out);
    let old = if mode & 1 != 0 { Some(b"older contents\n".to_vec()) } else { None };
    if let Some(b) = &old {
        std::fs::write(&out, b).map_err(io)?;
    }
    // in front, such that lists and missing values at the end stay as they are
    let mut all = vec![];
    if c.o && mode & 2 != 0 {
        all.extend(["-o".to_string(), out.display().to_string()]);
    }
    if c.i && mode & 4 != 0 {
        all.extend(["-i".to_string(), data.display().to_string()]);
    }
    all.append(&mut args);
    let mut t = tool(c.bin, &[]).release(rel).stdin(text);
    t.args = all;
    t.cwd = Some(env.dir.clone());
    let o = t.run(env)?;
    ensure(o.code != Some(0), || format!("{} ends with success and prints {}", o.cmd, brief_bytes(&o.stdout)))?;
    ensure(o.stdout.is_empty(), || format!("{} fails, but prints {}", o.cmd, brief_bytes(&o.stdout)))?;
    let now = std::fs::read(&out).ok();
    ensure(now == old, || format!("{} fails, but {} the output file", o.cmd, if old.is_some() { "changes" } else { "creates" }))?;
    Ok(o)
}
/// the options of a command with valid values, except for one
fn line(c: &Cmd, skip: Option<usize>, with: &[String], pick: u64) -> Vec<String> {
    let mut v: Vec<String> = c.fixed.iter().map(|s| s.to_string()).collect();
    for (i, o) in c.opts.iter().enumerate() {
        if Some(i) == skip {
            v.extend_from_slice(with);
        } else if c.must.contains(&i) || skip.map_or(false, |s| s > i && o.short.is_empty()) {
            v.extend(o.spell(0, o.good[pick as usize % o.good.len().min(2)]));
        }
    }
    v
}

/// aux = value, nums = [option, form, mode, mixed]
fn value_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let all = options();
    let (ci, oi) = all[c.num(0) as usize % all.len()];
    let (cmd, o) = (&CMDS[ci], &CMDS[ci].opts[oi]);
    let form = c.num(1) as usize % o.forms();
    let v = match String::from_utf8(c.aux.clone()) {
        Ok(v) => v,
        _ => return Err(Bad::Discard),
    };
    need(!v.contains('\0') && bad_value(o, &v))?;
    if o.separate(form) {
        // another option may be valid itself
        need(!v.starts_with('-') || v.as_bytes().get(1).map_or(false, |b| b.is_ascii_digit()))?;
    }
    if form == 1 && !o.short.is_empty() {
        need(!v.is_empty() && v.strip_prefix('=').map_or(true, |w| bad_value(o, w)))?;
    }
    let args = line(cmd, Some(oi), &o.spell(form, &v), 0);
    refused(cmd, args, &c.text, release(c), c.num(2), env)?;
    pass_l(true, vec![cmd.bin, if v.bytes().any(|b| b.is_ascii_digit()) { "has a digit" } else { "" }].into_iter().filter(|s| !s.is_empty()).collect())
}

const STRUCTURES: u64 = 17;
fn structure(cmd: &Cmd, kind: u64, k: u64) -> Option<Vec<String>> {
    let s = |x: &str| x.to_string();
    let base = line(cmd, None, &[], 0);
    let pos = ["surplus", "0", "", "data", "-"][k as usize % 5];
    let unknown = ["--bogus", "--bogus=1", "-Z", "-9", "--prefixlengthy=3", "--outfilenames"][k as usize % 6];
    let cat = |a: Vec<String>, b: Vec<String>| [a, b].concat();
    let nth = |n: usize| if n == 0 { None } else { Some(k as usize % n) };
    Some(match kind {
        0 => cat(vec![s(unknown)], base),
        1 => cat(base, vec![s(unknown)]),
        2 => {
            let at = cmd.fixed.len();
            cat(base[..at].to_vec(), cat(vec![s(unknown)], base[at..].to_vec()))
        }
        // positional arguments nobody reads
        3 if cmd.bin != "enumerate" => cat(vec![s(pos)], base),
        3 => vec![s("2"), s("1"), s("3"), s(pos)],
        4 if cmd.bin != "enumerate" => cat(base, vec![s("--"), s(pos)]),
        5 if cmd.bin != "enumerate" => cat(vec![s(pos), s("more")], base),
        // options that lack their value
        6 => {
            let o = &cmd.opts[nth(cmd.opts.len())?];
            if o.short.is_empty() {
                return None;
            }
            let mut v = line(cmd, Some(k as usize % cmd.opts.len()), &[], 0);
            v.push(s(o.short));
            v
        }
        7 => {
            let o = &cmd.opts[nth(cmd.opts.len())?];
            if o.long.is_empty() {
                return None;
            }
            let mut v = line(cmd, Some(k as usize % cmd.opts.len()), &[], 0);
            v.push(s(o.long));
            v
        }
        8 => {
            // another option follows
            let o = &cmd.opts[nth(cmd.opts.len())?];
            let f = cmd.flags.get(k as usize / cmd.opts.len() % 2).map(|f| f.1);
            if o.short.is_empty() {
                return None;
            }
            let mut v = line(cmd, Some(k as usize % cmd.opts.len()), &[], 0);
            v.push(s(o.short));
            v.push(s(f.unwrap_or("--outfilename=nowhere")));
            if f.is_none() && !cmd.o {
                return None;
            }
            v
        }
        9 if cmd.i => cat(base, vec![s(["-i", "--infilename"][k as usize % 2])]),
        10 if cmd.o => cat(base, vec![s(["-o", "--outfilename"][k as usize % 2])]),
        // flags take no value
        11 => {
            let f = cmd.flags[nth(cmd.flags.len())?];
            cat(base, vec![format!("{}={}", f.1, ["1", "0", "true", "false", "yes"][k as usize / 2 % 5])])
        }
        // letters that are no flags
        12 => {
            let f = cmd.flags[nth(cmd.flags.len())?];
            if f.0.is_empty() {
                return None;
            }
            cat(vec![format!("{}{}", f.0, ["Z", "0", "9", "=1", "x"][k as usize / 2 % 5])], base)
        }
        // what is required
        13 => match cmd.bin {
            "word" => [vec![s("-n"), s("fibonacci")], vec![s("-k"), s("6")], vec![]][k as usize % 3].clone(),
            "randomstring" => [vec![], vec![s("-p"), s("10")]][k as usize % 2].clone(),
            "enumerate" => [vec![], vec![s("2")]][k as usize % 2].clone(),
            _ => return None,
        },
        14 if cmd.bin == "word" => {
            let names = ["fib", "", "unknown", "fibonacci,vtm", "thue_morse", "0", "power", "power3", "fibonacci-lyndon", "paperfolding", "Fibonacci", "VTM", "fibonacc"];
            let n = names[k as usize % names.len()];
            [vec![s("-n"), s(n)], vec![format!("--name={}", n)]][k as usize / names.len() % 2].iter().cloned().chain([s("-k"), s("6")]).collect()
        }
        // names of options that are cut, or written otherwise
        16 => {
            let mut all: Vec<(&str, bool)> = cmd.opts.iter().map(|o| (o.long, true)).chain(cmd.flags.iter().map(|f| (f.1, false))).collect();
            if cmd.i {
                all.push(("--infilename", true));
            }
            if cmd.o {
                all.push(("--outfilename", true));
            }
            all.retain(|x| !x.0.is_empty());
            let (name, value) = all[nth(all.len())?];
            let other = match k as usize / all.len() % 5 {
                0 => s(&name[..name.len() - 1]),
                1 => s(&name[..4]),
                2 => name.to_uppercase(),
                3 if name[2..].contains('-') => name[2..].replace('-', "_").replacen("", "--", 1),
                3 => s(&name[..name.len() / 2 + 1]),
                _ => format!("{}s", name),
            };
            if all.iter().any(|x| x.0 == other) {
                return None;
            }
            cat(base, vec![if value { format!("{}=1", other) } else { other }])
        }
        // options of other tools
        15 => {
            let x = ["--order=2", "--attractor=0", "--human", "--is-reversion", "--alphabet-size=3", "--use-matrix", "--from-symbols=3", "--name=vtm", "--onlyzero"];
            let x = x[k as usize % x.len()];
            let name = x.split('=').next().unwrap();
            if cmd.opts.iter().any(|o| o.long == name) || cmd.flags.iter().any(|f| f.1 == name) || (cmd.bin == "word" && name == "--name") {
                return None;
            }
            cat(base, vec![s(x)])
        }
        _ => return None,
    })
}
/// nums = [command, kind, choice, mode]
fn structure_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let cmd = &CMDS[c.num(0) as usize % CMDS.len()];
    let Some(args) = structure(cmd, c.num(1) % STRUCTURES, c.num(2)) else { return Err(Bad::Discard) };
    refused(cmd, args, &c.text, release(c), c.num(3), env)?;
    pass_l(true, vec![cmd.bin])
}

/// The same request in other spellings; nums = [option, form, choice, leading zeros, mode]
fn spelling_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let all = options();
    let (ci, oi) = all[c.num(0) as usize % all.len()];
    let (cmd, o) = (&CMDS[ci], &CMDS[ci].opts[oi]);
    let form = c.num(1) as usize % o.forms();
    let v = o.good[c.num(2) as usize % o.good.len()];
    let inv = INVS.iter().find(|x| x.bin == cmd.bin).unwrap();
    need(!cmd.i || inv.accepts(&c.text))?;
    let rel = release(c);
    let zeros = "0".repeat(c.num(3) as usize % 4);
    let w = v.split(',').map(|x| format!("{}{}", zeros, x)).collect::<Vec<_>>().join(",");
    let run = |args: Vec<String>, env: &mut Env| -> Result<Out, Bad> {
        let mut t = tool(cmd.bin, &[]).release(rel).stdin(&c.text);
        t.args = args;
        t.run(env)
    };
    let want = run(line(cmd, Some(oi), &o.spell(0, v), 0), env)?;
    let got = run(line(cmd, Some(oi), &o.spell(form, &w), 0), env)?;
    ensure(got.code == want.code, || format!("{} ends with status {:?}, {} with {:?}: {}", got.cmd, got.code, want.cmd, want.code, got.err_tail()))?;
    same_bytes(&format!("output of {} (compared to {})", got.cmd, want.cmd), &normal(inv, &got.stdout), &normal(inv, &want.stdout))?;
    // a valid request is answered, up to what the tools refuse for other reasons
    let accepted = !matches!(cmd.bin, "is_stringattractor" | "escape");
    ensure(!accepted || want.code == Some(0), || format!("{} is refused: {}", want.cmd, want.err_tail()))?;
    pass_l(c.text.len() > 1, vec![cmd.bin])
}
const FLAGS: [(&str, &[&[&str]]); 9] = [
    ("bwt", &[&["-u"], &["--use-matrix"]]),
    ("bwt", &[&["-n"], &["--no-dollar"]]),
    ("bwt", &[&["-u", "-n"], &["-un"], &["-nu"], &["-n", "-u"], &["--no-dollar", "--use-matrix"], &["-u", "--no-dollar"]]),
    ("bwt", &[&["-u", "-n", "-p", "4"], &["-unp4"], &["-nup", "4"], &["-p4", "-un"], &["-un", "--prefixlength", "4"], &["-p=4", "-n", "-u"]]),
    ("count_r", &[&["-u"], &["--use-matrix"]]),
    ("count_r", &[&["-n"], &["--no-dollar"]]),
    ("count_r", &[&["-u", "-n", "-p", "4"], &["-unp4"], &["-nup", "4"], &["-p4", "-un"], &["--use-matrix", "--prefixlength=4", "--no-dollar"]]),
    ("is_stringattractor", &[&["-a", "0", "1", "3"], &["--attractor", "0", "1", "3"], &["-a", "0", "-a", "1", "-a", "3"], &["-a0", "-a1", "--attractor=3"], &["-a", "3", "--attractor", "1", "0"], &["-p", "0", "-a", "1", "0", "3"]]),
    ("escape", &[&["-e", "92", "-f", "97,98", "-t", "48,49"], &["-e92", "-f97,98", "-t48,49"], &["-t", "48", "-f", "97", "-e", "92", "-t", "49", "-f", "98"], &["--escape-symbol=92", "--from-symbols=97", "--to-symbols=48,49", "--from-symbols", "98"]]),
];
fn flags_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let (bin, forms) = FLAGS[c.num(0) as usize % FLAGS.len()];
    let inv = INVS.iter().find(|x| x.bin == bin).unwrap();
    need(inv.accepts(&c.text) && c.text.len() >= 4)?;
    let rel = release(c);
    let mut first: Option<Out> = None;
    for f in forms {
        let o = tool(bin, f).release(rel).stdin(&c.text).run(env)?;
        match &first {
            None => first = Some(o),
            Some(w) => {
                ensure(o.code == w.code, || format!("{} ends with status {:?}, {} with {:?}: {}", o.cmd, o.code, w.cmd, w.code, o.err_tail()))?;
                let lines = |x: &Out| {
                    // the uncovered substrings may come in any order
                    let mut v: Vec<Vec<u8>> = normal(inv, &x.stdout).split(|b| *b == b'\n').map(|l| l.to_vec()).collect();
                    if bin == "is_stringattractor" {
                        v.sort();
                    }
                    v.join(&b'\n')
                };
                same_bytes(&format!("output of {} (compared to {})", o.cmd, w.cmd), &lines(&o), &lines(w))?;
            }
        }
    }
    pass_l(true, vec![bin])
}
/// nums = [command, which]
fn help_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let cmd = &CMDS[c.num(0) as usize % CMDS.len()];
    let which = ["--help", "-h", "--version", "-V"][c.num(1) as usize % 4];
    let out = env.dir.join("out");
    let _ = std::fs::remove_file(&out);
    let mut t = tool(cmd.bin, &[]).release(release(c)).stdin(b"text");
    if cmd.o && c.num(1) >= 4 {
        t = t.arg("-o").arg(out.display().to_string());
    }
    let o = t.arg(which).ok(env)?;
    let s = o.text()?;
    ensure(!s.trim().is_empty(), || format!("{} prints nothing", o.cmd))?;
    ensure(!out.exists(), || format!("{} creates the output file", o.cmd))?;
    if c.num(1) % 4 < 2 {
        let mut names: Vec<&str> = cmd.opts.iter().map(|o| if o.long.is_empty() { o.short } else { o.long }).chain(cmd.flags.iter().map(|f| f.1)).filter(|n| !n.is_empty()).collect();
        if cmd.i {
            names.push("--infilename");
        }
        if cmd.o {
            names.push("--outfilename");
        }
        for n in names {
            ensure(s.contains(n), || format!("{} does not mention {}", o.cmd, n))?;
        }
    }
    pass(true)
}

const BAD: [&str; 44] = [
    "", "x", "1x", "x1", "-1", "-0", "1.5", "1.0", "1e3", "1E3", "0x10", "0b1", "0o7", "1_000", "10k", "4K", "1M", "1,5", "1 2", "one", "NaN", "inf", "²", "٣", "1\u{a0}", "1;", "1/2", "50%", "0-5", "2..3", "--5", "=5", "==5", "\"1\"", "'1'",
    "18446744073709551616", "18446744073709551617", "36893488147419103235", "340282366920938463463374607431768211459", "999999999999999999999", "256", "259", "65539", "4294967299",
];
fn bad_values() -> BoxedStrategy<Vec<u8>> {
    let junk = "[-+_.,:;xXeEkKmMoObB0-9a-f]{1,6}";
    prop_oneof![
        2 => select(BAD.to_vec()).prop_map(|s| s.as_bytes().to_vec()),
        2 => junk.prop_map(|s| s.into_bytes()),
        // a number with something in front of it, in it, or behind it
        3 => ("[0-9]{1,3}", "[ -/:-~]{1,2}", "[0-9]{0,3}").prop_map(|(a, j, b)| format!("{}{}{}", a, j, b).into_bytes()),
        1 => ("[ -/:-~]{1,2}", "[0-9]{1,3}").prop_map(|(j, a)| format!("{}{}", j, a).into_bytes()),
        // above the bound
        2 => ("[1-9]", "[0-9]{20,60}").prop_map(|(a, b)| format!("{}{}", a, b).into_bytes()),
        2 => (1u128..40, 0u64..300).prop_map(|(q, r)| ((q << 64) + r as u128).to_string().into_bytes()),
        2 => (1u64..300, 0u64..256).prop_map(|(q, r)| (q * 256 + r).to_string().into_bytes()),
        // lists
        2 => (vec(0u16..256, 0..4), select(BAD.to_vec()), vec(0u16..256, 0..3)).prop_map(|(a, b, d)| {
            let s = |v: Vec<u16>| v.into_iter().map(|x| x.to_string()).collect::<Vec<_>>();
            [s(a), vec![b.to_string()], s(d)].concat().join(",").into_bytes()
        }),
        1 => "\\PC{1,5}".prop_map(|s| s.into_bytes()),
    ]
    .boxed()
}
pub fn c36(t: Tier) -> Vec<Sub> {
    let texts: [&[u8]; 3] = [b"abaababaabaab", b"mississippi", b"aaaaaaaaaaab"];
    let (no, nb) = (options().len() as u64, BAD.len() as u64);
    let ns = CMDS.len() as u64;
    vec![
        sub_enum(
            "values-exhaustive",
            "every numeric option with every listed malformed or too large value, in every spelling",
            false,
            no * nb * 5,
            move |i| Case::new(texts[i as usize % 3].to_vec(), BAD[(i / 5 / no) as usize].as_bytes().to_vec(), vec![i / 5 % no, i % 5, i * 5 / 3]),
            value_case,
        ),
        sub_gen(
            "values-random",
            "every numeric option with random malformed or too large values",
            false,
            t.pick(3000, 900_000),
            move || (bad_values(), 0..no, 0u64..5, 0u64..16, text(1, 20, Bytes::NonZero)).prop_map(|(v, o, f, m, t)| Case::new(t, v, vec![o, f, m])),
            value_case,
        ),
        sub_enum(
            "structure-exhaustive",
            "unknown options, surplus arguments, missing values, values of flags, missing required arguments, unknown names, names that are cut or misspelled, options of other tools",
            false,
            ns * STRUCTURES * 20,
            move |i| Case::new(texts[i as usize % 3].to_vec(), vec![], vec![i / 20 / STRUCTURES, i / 20 % STRUCTURES, i % 20, i * 7 / 3]),
            structure_case,
        ),
        sub_enum(
            "spelling-exhaustive",
            "every numeric option with every spelling of valid values, also with leading zeros",
            false,
            no * 5 * 8 * t.pick(1, 4),
            move |i| Case::new(texts[i as usize % 3].to_vec(), vec![], vec![i % no, i / no % 5, i / no / 5 % 8, i / no / 40 + i % 2]),
            spelling_case,
        ),
        sub_gen(
            "spelling-random",
            "the same request in several spellings on random texts",
            false,
            t.pick(300, 90_000),
            move || (0..no, 0u64..5, 0u64..8, 0u64..4, text(7, 60, Bytes::NonZero)).prop_map(|(o, f, v, z, t)| Case::new(t, vec![], vec![o, f, v, z])),
            spelling_case,
        ),
        sub_gen(
            "flags-random",
            "flags together, apart, in any order, repeated list options",
            false,
            t.pick(150, 40_000),
            || (0u64..FLAGS.len() as u64, text(4, 60, Bytes::NonZero)).prop_map(|(f, t)| Case::new(t, vec![], vec![f])),
            flags_case,
        ),
        sub_enum("help-exhaustive", "help and version of every tool", false, ns * 8, move |i| Case::nums(vec![i / 8, i % 8]), help_case),
    ]
}
