//! Texts of more than 2^32 bytes, produced and compared on the fly (thorough tiers).
use crate::case::*;
use crate::frame::*;
use crate::tool::*;
use std::io::{Read, Write};
use std::process::{Command, Stdio};

type At = Box<dyn Fn(u64) -> u8 + Send + Sync>;
/// the name of a check, the tool and its arguments, the length of the input and its bytes, what is expected
enum Want {
    /// so many bytes
    Stream(u64, At),
    /// fields of the RESULT line
    Fields(Vec<(&'static str, f64)>),
}
struct Huge {
    bin: &'static str,
    args: Vec<String>,
    n: u64,
    at: At,
    want: Want,
}
const FOUR: u64 = 1 << 32;

fn bytes(s: String) -> Want {
    let b = s.into_bytes();
    Want::Stream(b.len() as u64, Box::new(move |i| b[i as usize]))
}
/// neither periodic nor symmetric
fn noise(i: u64) -> u8 {
    (i.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40) as u8 ^ (i >> 32) as u8
}
fn huge(kind: u64, extra: u64) -> Huge {
    let n = FOUR + extra;
    let args = |a: &[&str]| a.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let run: fn(u64) -> At = |n| Box::new(move |i| if i + 1 == n { b'b' } else { b'a' });
    match kind {
        0 => Huge { bin: "rle", args: args(&["--human"]), n, at: run(n), want: bytes(format!("(a,{})(b,1)", n - 1)) },
        1 | 2 => {
            // the run without the last symbol, by pairs of at most 256
            let (c, last) = if kind == 1 { (b'a', vec![b'b', 0]) } else { (b'0', vec![b'b']) };
            let pairs = (n - 1).div_ceil(256);
            let rest = ((n - 2) % 256) as u8;
            Huge {
                bin: "rle",
                args: if kind == 1 { vec![] } else { args(&["--onlyzero"]) },
                n,
                at: Box::new(move |i| if i + 1 == n { b'b' } else { c }),
                want: Want::Stream(
                    2 * pairs + last.len() as u64,
                    Box::new(move |i| match i / 2 {
                        p if p >= pairs => last[(i - 2 * pairs) as usize],
                        _ if i % 2 == 0 => c,
                        p if p + 1 == pairs => rest,
                        _ => 255,
                    }),
                ),
            }
        }
        3 => Huge { bin: "count_runs", args: vec![], n, at: Box::new(|i| b'a' + (i % 2) as u8), want: bytes(format!("{}\n", n)) },
        4 => Huge { bin: "reverse", args: vec![], n, at: Box::new(noise), want: Want::Stream(n, Box::new(move |i| noise(n - 1 - i))) },
        5 => {
            let p = n - 5;
            Huge { bin: "reverse", args: args(&["-p", &p.to_string()]), n, at: Box::new(noise), want: Want::Stream(p, Box::new(move |i| noise(p - 1 - i))) }
        }
        6 => Huge {
            bin: "mtf",
            args: vec![],
            n,
            // a, b in turn, and a new symbol at the end
            at: Box::new(move |i| if i + 1 == n { b'z' } else { b'a' + (i % 2) as u8 }),
            want: Want::Stream(n, Box::new(move |i| if i == 0 { b'a' } else if i == 1 { b'b' } else if i + 1 == n { b'z' } else { 1 })),
        },
        7 => Huge {
            bin: "escape",
            args: args(&["-e", "1", "-f", "2", "-t", "3"]),
            n: n / 4 * 4,
            at: Box::new(|i| [9, 1, 2, 3][i as usize % 4]),
            want: Want::Stream(n / 4 * 6, Box::new(|i| [9, 1, 1, 1, 3, 3][(i % 6) as usize])),
        },
        8 => Huge {
            bin: "escape",
            args: args(&["-e", "1", "-f", "2", "-t", "3", "--is-reversion"]),
            n: n / 6 * 6,
            at: Box::new(|i| [9, 1, 1, 1, 3, 3][(i % 6) as usize]),
            want: Want::Stream(n / 6 * 4, Box::new(|i| [9, 1, 2, 3][i as usize % 4])),
        },
        9 => Huge {
            bin: "count_sigma",
            args: vec![],
            n,
            at: Box::new(move |i| if i + 1 == n { b'z' } else { b'a' + (i % 2) as u8 }),
            want: Want::Fields(vec![("length", n as f64), ("sigma", 3.0)]),
        },
        11 => {
            // xxxy again and again, and an x: more than 2^31 times xx
            let q = (n / 4) as f64;
            let x = 3.0 * q + 1.0;
            let want = (2.0 * q * (x / (2.0 * q)).log2() + q * (x / q).log2() + x.log2()) / (4.0 * q + 2.0);
            let n = n / 4 * 4 + 1;
            Huge {
                bin: "entropy_kmer",
                args: args(&["-o", "1"]),
                n,
                at: Box::new(|i| if i % 4 == 3 { b'y' } else { b'x' }),
                want: Want::Fields(vec![("length", (n + 1) as f64), ("entropy", want)]),
            }
        }
        _ => {
            let h = |c: f64| c / (n + 1) as f64 * ((n + 1) as f64 / c).log2();
            let half = n / 2;
            Huge {
                bin: "entropy",
                args: vec![],
                n,
                at: Box::new(move |i| if i < half { b'x' } else { b'y' }),
                want: Want::Fields(vec![("length", (n + 1) as f64), ("entropy", h(half as f64) + h((n - half) as f64) + h(1.0))]),
            }
        }
    }
}
/// nums = [kind, bytes beyond 2^32]
fn huge_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let h = huge(c.num(0), c.num(1));
    let io = |e: std::io::Error| Bad::Abort(format!("i/o error of the harness: {}", e));
    let cmd = format!("{} {} (release build) on {} bytes", h.bin, h.args.join(" "), h.n);
    let errors = std::fs::File::create(env.dir.join("errors")).map_err(io)?;
    let mut command = Command::new(exe(h.bin, true));
    command.args(&h.args).env_remove("RUST_LOG").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(errors);
    let mut child = spawn(&mut command).map_err(io)?;
    drop(command);
    let (mut to, mut from) = (child.stdin.take().unwrap(), child.stdout.take().unwrap());
    let (n, at, p) = (h.n, h.at, h.args.first().is_some_and(|a| a == "-p"));
    let feeder = std::thread::spawn(move || {
        let mut buf = vec![0u8; 1 << 20];
        let mut i = 0;
        while i < n {
            let k = (n - i).min(1 << 20) as usize;
            buf[..k].iter_mut().enumerate().for_each(|(j, b)| *b = at(i + j as u64));
            if to.write_all(&buf[..k]).is_err() {
                // only a tool with a prefix may leave something
                return p;
            }
            i += k as u64;
        }
        true
    });
    let mut buf = vec![0u8; 1 << 20];
    let mut i = 0;
    let mut out = String::new();
    let mut wrong = None;
    loop {
        let k = match from.read(&mut buf) {
            Ok(0) => break,
            Ok(k) => k,
            Err(e) => return Err(io(e)),
        };
        match &h.want {
            Want::Stream(len, w) => {
                if wrong.is_none() {
                    wrong = (0..k).find(|&j| i + j as u64 >= *len || buf[j] != w(i + j as u64)).map(|j| format!("byte {} of the output is {}", i + j as u64, buf[j]));
                }
            }
            Want::Fields(_) => out.push_str(&String::from_utf8_lossy(&buf[..k.min(10_000)])),
        }
        i += k as u64;
        if wrong.is_some() || out.len() > 100_000 {
            let _ = child.kill();
            break;
        }
    }
    drop(from);
    let st = child.wait().map_err(io)?;
    let fed = feeder.join().unwrap_or(false);
    if let Some(w) = wrong {
        return Err(Bad::Fail(format!("{}: {}", cmd, w)));
    }
    if st.code().is_none() {
        return Err(Bad::Abort(format!("{} ended by a signal: {:?}", cmd, st)));
    }
    ensure(st.success() && fed, || format!("{} ends with {:?}: {}", cmd, st.code(), std::fs::read_to_string(env.dir.join("errors")).unwrap_or_default()))?;
    match h.want {
        Want::Stream(len, _) => ensure(i == len, || format!("{} outputs {} bytes instead of {}", cmd, i, len))?,
        Want::Fields(v) => {
            let f = fields(out.trim());
            for (k, x) in v {
                let got: Option<f64> = f.get(k).and_then(|s| s.parse().ok());
                ensure(got.is_some_and(|g| (g - x).abs() <= 1e-9 * x), || format!("{}: {} is {:?} instead of {}", cmd, k, got, x))?;
            }
        }
    }
    pass(true)
}
/// texts of more than 2^32 bytes for a property
pub(crate) fn sub_huge(t: Tier, kinds: &'static [u64]) -> Vec<Sub> {
    if t == Tier::Quick {
        return vec![];
    }
    vec![sub_enum(
        "tool-huge",
        "texts of more than 2^32 bytes, produced and compared while the tool runs; nums = [kind, bytes beyond 2^32]",
        false,
        kinds.len() as u64,
        move |i| Case::nums(vec![kinds[i as usize], 7 + 6 * i]),
        huge_case,
    )]
}
