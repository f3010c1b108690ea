//! The shell scripts (C33). They start the tools by `cargo run`; a stand-in for cargo in a scratch directory runs the
//! binaries built for the checks instead. The scripts' shell, zsh, is replaced by bash with zsh's echo where it is missing.
use crate::case::*;
use crate::frame::*;
use crate::gens::*;
use crate::tool::*;
use proptest::prelude::*;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

const CARGO: &str = r#"#!/bin/bash
# stand-in: cargo run --bin X [-- arguments]
case "$1" in run|r) shift ;; *) echo "stand-in for cargo: unknown command $1" >&2; exit 101 ;; esac
bin=
while [ $# -gt 0 ]; do
  case "$1" in
    --bin) bin=$2; shift 2 ;;
    --bin=*) bin=${1#--bin=}; shift ;;
    --) shift; break ;;
    -*) shift ;;
    *) break ;;
  esac
done
[ -x "$VP_TOOLS/$bin" ] || { echo "error: no bin target named $bin" >&2; exit 101; }
exec "$VP_TOOLS/$bin" "$@"
"#;

fn io(e: std::io::Error) -> Bad {
    Bad::Abort(format!("i/o error of the harness: {}", e))
}
struct Ran {
    code: Option<i32>,
    stdout: String,
    stderr: String,
}
/// runs a copy of the script in a scratch directory
fn script(name: &str, args: &[&str], release: bool, env: &Env) -> Result<Ran, Bad> {
    use std::os::unix::fs::PermissionsExt;
    let dir = env.dir.join("script");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(dir.join("bin")).map_err(io)?;
    let cargo = dir.join("bin/cargo");
    std::fs::write(&cargo, CARGO).map_err(io)?;
    std::fs::set_permissions(&cargo, std::fs::Permissions::from_mode(0o755)).map_err(io)?;
    let copy = dir.join(name);
    std::fs::copy(Path::new(REPO).join(name), &copy).map_err(|e| Bad::Abort(format!("no script {}: {}", name, e)))?;
    let mut c = Command::new("timeout");
    c.args(["-k", "5", "300"]);
    if Path::new("/bin/zsh").exists() || Path::new("/usr/bin/zsh").exists() {
        c.args(["zsh", "-f"]);
    } else {
        c.args(["bash", "-O", "xpg_echo"]);
    }
    let (outp, errp) = (dir.join("stdout"), dir.join("stderr"));
    let path = format!("{}:{}", dir.join("bin").display(), std::env::var("PATH").unwrap_or_default());
    c.arg(&copy).args(args).current_dir(&dir).env("PATH", path).env("LC_ALL", "C");
    c.env("VP_TOOLS", exe("x", release).parent().unwrap()).env_remove("RUST_LOG").env("RUST_BACKTRACE", "0");
    c.stdin(Stdio::null()).stdout(std::fs::File::create(&outp).map_err(io)?).stderr(std::fs::File::create(&errp).map_err(io)?);
    let st = spawn(&mut c).and_then(|mut p| p.wait()).map_err(io)?;
    if st.code() == Some(124) || st.code() == Some(137) {
        return Err(Bad::Abort(format!("{} took more than 300 s", name)));
    }
    let s = |p: &PathBuf| std::fs::read(p).map(|b| String::from_utf8_lossy(&b).to_string()).map_err(io);
    Ok(Ran { code: st.code(), stdout: s(&outp)?, stderr: s(&errp)? })
}
fn tail(r: &Ran) -> String {
    r.stderr.lines().rev().take(3).collect::<Vec<_>>().join(" | ")
}

/// base names of files, also such as echo would change and such as look like result fields
const NAMES: [&str; 19] = ["text", "einstein.en.txt", "a b", "x-1_2", "data.02", "a  b", "-n", "a\\tb", "x\\\\", "a\\cb", "a\\nb", "*", "$HOME", "'q' \"", "ä€", "a;b(c)#", "a length=7 sigma=8 factors=6 bwt_runs=9 entropy=1.5 b", "x file=y input=z sigma=2 w", "length=1 order=2 RESULT algo=x"];
/// the row printed by compute_stats.sh: text = contents, nums = [name, build]
fn stats(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let t = &c.text;
    if t.len() < 6 || t.contains(&0) {
        return Err(Bad::Discard);
    }
    let base = NAMES[c.num(0) as usize % NAMES.len()];
    let file = env.dir.join(base);
    std::fs::write(&file, t).map_err(io)?;
    let name = file.display().to_string();
    let plain = env.dir.join("plain").display().to_string();
    std::fs::write(&plain, t).map_err(io)?;
    let r = script("compute_stats.sh", &[&name], c.num(1) == 1, env)?;
    ensure(r.code == Some(0), || format!("compute_stats.sh failed with status {:?}: {}", r.code, tail(&r)))?;
    let lines: Vec<&str> = r.stdout.lines().filter(|l| !l.trim().is_empty()).collect();
    ensure(lines.len() == 2, || format!("compute_stats.sh does not print a header and a row: {:?} {}", r.stdout, tail(&r)))?;
    let split = |l: &str| -> Vec<String> { l.trim().trim_end_matches('\\').split('&').map(|x| x.trim().to_string()).collect() };
    let (head, row) = (split(lines[0]), split(lines[1]));
    same("columns of the header", &head, &["dataset", "$n$", "$\\sigma$", "$z$", "$r$", "$H_0$", "$H_1$", "$H_2$", "$H_3$", "$H_4$"].map(String::from).to_vec()).or_else(|e| {
        // in any order
        let mut h = head.clone();
        h.sort();
        let mut w = ["dataset", "$n$", "$\\sigma$", "$z$", "$r$", "$H_0$", "$H_1$", "$H_2$", "$H_3$", "$H_4$"].map(String::from).to_vec();
        w.sort();
        if h == w { Ok(()) } else { Err(e) }
    })?;
    same("number of columns of the row", &row.len(), &head.len())?;
    for (h, v) in head.iter().zip(&row) {
        let field = |bin: &'static str, args: &[&str], key: &str| -> Result<String, Bad> {
            let o = tool(bin, args).arg("-i").arg(&plain).release(c.num(1) == 1).ok(env)?;
            match o.result()?.get(key) {
                Some(v) => Ok(v.clone()),
                None => fail(format!("{} reports no {}", bin, key)),
            }
        };
        let want = match h.as_str() {
            "dataset" => base.to_string(),
            "$n$" => t.len().to_string(),
            "$\\sigma$" => field("count_sigma", &[], "sigma")?,
            "$z$" => field("count_z", &[], "factors")?,
            "$r$" => field("count_r", &[], "bwt_runs")?,
            k => {
                let order = k.trim_start_matches("$H_").trim_end_matches('$').to_string();
                let want = field("entropy", &["-o", &order], "entropy")?;
                let ok = match (v.parse::<f64>(), want.parse::<f64>()) {
                    (Ok(a), Ok(b)) => (a - b).abs() <= 1e-9,
                    _ => false,
                };
                ensure(ok, || format!("column {} is {:?}, expected {}", h, v, want))?;
                continue;
            }
        };
        ensure(*v == want, || format!("column {} is {:?}, expected {}", h, v, want))?;
    }
    let _ = std::fs::remove_file(&file);
    pass(t.windows(2).any(|w| w[0] != w[1]))
}
/// nums = [case]: wrong uses
fn misuse(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let missing = env.dir.join("missing").display().to_string();
    let file = env.dir.join("file");
    std::fs::write(&file, b"abracadabra").map_err(io)?;
    let f = file.display().to_string();
    let (folder, below) = (env.dir.display().to_string(), format!("{}/x", f));
    let (name, args): (&str, Vec<&str>) = match c.num(0) {
        0 => ("compute_stats.sh", vec![]),
        1 => ("compute_stats.sh", vec![&f, &f]),
        2 => ("compute_stats.sh", vec![&missing]),
        3 => ("gen_artificial.sh", vec![]),
        4 => ("gen_artificial.sh", vec![&missing, &missing]),
        // a file where the folder should be
        5 => ("gen_artificial.sh", vec![&f]),
        6 => ("compute_stats.sh", vec![&folder]),
        // a folder within a file
        7 => ("gen_artificial.sh", vec![&below]),
        8 => ("compute_stats.sh", vec![&below]),
        _ => return Err(Bad::Discard),
    };
    let r = script(name, &args, false, env)?;
    ensure(r.code.is_some_and(|x| x != 0), || format!("{} {:?} ends with success", name, args))?;
    ensure(r.stdout.is_empty(), || format!("{} {:?} prints {:?}", name, args, r.stdout))?;
    same_bytes("the file given to the script", &std::fs::read(&file).map_err(io)?, b"abracadabra")?;
    pass(true)
}
fn artificial(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let dir = env.dir.join("artificial");
    let _ = std::fs::remove_dir_all(&dir);
    if c.num(0) >= 1 {
        std::fs::create_dir_all(&dir).map_err(io)?;
    }
    // files of an earlier call, of another content
    if c.num(0) == 2 {
        for n in ["tribonacci.03", "vtm.20", "fibonacci.00", "kolakoski.10", "power2.05", "paper-folding.07"] {
            std::fs::write(dir.join(n), [b'x'; 3000]).map_err(io)?;
        }
    }
    // a file that cannot be written
    if c.num(0) >= 3 {
        let n = ["tribonacci.00", "power2.20", "binary-de-brujin.09"][c.num(0) as usize % 3];
        std::fs::create_dir(dir.join(n)).map_err(io)?;
        let r = script("gen_artificial.sh", &[&dir.display().to_string()], true, env)?;
        ensure(r.code.is_some_and(|x| x != 0), || format!("gen_artificial.sh cannot write {} but ends with success", n))?;
        ensure(r.stdout.is_empty(), || format!("gen_artificial.sh prints {:?}", r.stdout))?;
        let _ = std::fs::remove_dir_all(&dir);
        return pass(true);
    }
    let r = script("gen_artificial.sh", &[&dir.display().to_string()], c.num(0) == 1, env)?;
    ensure(r.code == Some(0), || format!("gen_artificial.sh failed with status {:?}: {}", r.code, tail(&r)))?;
    let mut files = 0;
    for k in 0..=20u8 {
        for n in ["tribonacci", "vtm", "fibonacci", "kolakoski", "thue-morse", "period-doubling", "paper-folding", "quaternary-paper-folding", "binary-de-brujin", "power2"] {
            let p = dir.join(format!("{}.{:02}", n, k));
            let w = std::fs::read(&p).map_err(|e| Bad::Fail(format!("gen_artificial.sh wrote no {}.{:02}: {}", n, k, e)))?;
            crate::words::check(n, k, &w)?;
            files += 1;
        }
    }
    same("number of files", &std::fs::read_dir(&dir).map_err(io)?.count(), &files)?;
    let _ = std::fs::remove_dir_all(&dir);
    pass(true)
}

pub fn c33(t: Tier) -> Vec<Sub> {
    let cases = || (text(6, 400, Bytes::NonZero), 0u64..NAMES.len() as u64, 0u64..2).prop_map(|(t, n, r)| Case::new(t, vec![], vec![n, r])).boxed();
    vec![
        sub_gen("script-stats", "the row printed by compute_stats.sh against the tools: nums = [file name, build]", false, t.pick(400, 6000), cases, stats),
        sub_gen(
            "script-stats-long",
            "same, long texts",
            false,
            t.pick(16, 150),
            || (big(2_000, 60_000, Bytes::NonZero), 0u64..NAMES.len() as u64).prop_map(|(t, n)| Case::new(t, vec![], vec![n, 1])).boxed(),
            stats,
        ),
        sub_enum("script-artificial", "all files written by gen_artificial.sh; nums = [1: existing folder and release build, 2: older files there, 3 to 5: a file cannot be written]", false, 6, |i| Case::nums(vec![i]), artificial),
        sub_enum("script-misuse", "wrong arguments end with a failure and print nothing", false, 9, |i| Case::nums(vec![i]), misuse),
    ]
}
