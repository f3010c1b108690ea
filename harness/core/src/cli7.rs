//! What the tools write, and what they leave alone (C37).
use crate::case::*;
use crate::cli::need;
use crate::cli3::{normal, release, Inv, Kind, INVS, READERS};
use crate::frame::*;
use crate::gens::*;
use crate::tool::*;
use proptest::prelude::*;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::unix::fs::{symlink, MetadataExt, OpenOptionsExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

fn io(e: std::io::Error) -> Bad {
    Bad::Abort(format!("i/o error of the harness: {}", e))
}

/// everything below a directory: kind and contents
fn snapshot(d: &Path) -> Result<BTreeMap<PathBuf, (char, Vec<u8>)>, Bad> {
    let mut out = BTreeMap::new();
    let mut todo = vec![d.to_path_buf()];
    while let Some(x) = todo.pop() {
        for e in std::fs::read_dir(&x).map_err(io)? {
            let p = e.map_err(io)?.path();
            let m = std::fs::symlink_metadata(&p).map_err(io)?;
            let t = m.file_type();
            use std::os::unix::fs::FileTypeExt;
            let v = if t.is_dir() {
                todo.push(p.clone());
                ('d', vec![])
            } else if t.is_symlink() {
                use std::os::unix::ffi::OsStrExt;
                ('l', std::fs::read_link(&p).map_err(io)?.as_os_str().as_bytes().to_vec())
            } else if t.is_fifo() {
                ('p', vec![])
            } else {
                ('f', std::fs::read(&p).map_err(io)?)
            };
            out.insert(p.strip_prefix(d).unwrap().to_path_buf(), v);
        }
    }
    Ok(out)
}
type Snapshot = BTreeMap<PathBuf, (char, Vec<u8>)>;
fn same_files(what: &str, before: &Snapshot, after: &Snapshot, except: &[PathBuf]) -> Result<(), Bad> {
    for (p, v) in before {
        if except.contains(p) {
            continue;
        }
        match after.get(p) {
            None => return fail(format!("{} removes {}", what, p.display())),
            Some(w) if w.0 != v.0 => return fail(format!("{} replaces {} (kind {} instead of {})", what, p.display(), w.0, v.0)),
            Some(w) if w.1 != v.1 => return fail(format!("{} changes {} to {}", what, p.display(), brief_bytes(&w.1))),
            _ => {}
        }
    }
    for p in after.keys() {
        ensure(before.contains_key(p) || except.contains(p), || format!("{} leaves {} behind", what, p.display()))?;
    }
    Ok(())
}

const DESTINATIONS: [&str; 14] = [
    "a new file",
    "an older, longer file",
    "an older, shorter file",
    "a symbolic link to an older file",
    "a symbolic link to a missing file",
    "a relative symbolic link into another folder",
    "a chain of symbolic links",
    "a file with a second name",
    "a named pipe",
    "a link to standard output",
    "a path with .. and a linked folder",
    "a name in the working directory",
    "a file of another mode",
    "standard output only",
];
/// nums = [tool, destination, mode]; mode bit 0: input from standard input
fn destination_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let inv = &INVS[c.num(0) as usize % INVS.len()];
    let kind = c.num(1) as usize % DESTINATIONS.len();
    let reads = !matches!(inv.kind, Kind::Source | Kind::Printer | Kind::Random);
    need(inv.has_o() || kind == 13)?;
    need(!reads || inv.accepts(&c.text))?;
    need(reads || c.text.is_empty())?;
    let t = if reads { inv.input(&c.text) } else { vec![] };
    need(t.len() <= 4000 || !(inv.args.contains(&"-u") || inv.bin == "is_stringattractor"))?;
    need(kind != 9 || inv.o_instead())?;
    let rel = release(c);

    // the reference writes a new file in a folder of its own
    let reff = env.dir.join("reference.out");
    let _ = std::fs::remove_file(&reff);
    let mut r = inv.tool(rel).stdin(&t);
    if inv.has_o() {
        r = r.arg("-o").arg(reff.to_str().unwrap());
    }
    let mut want = r.run(env)?;
    let want_file = if inv.has_o() { std::fs::read(&reff).map_err(|e| Bad::Fail(format!("{}: no output file: {}", want.cmd, e)))? } else { vec![] };
    let _ = std::fs::remove_file(&reff);

    let d = env.dir.join("place");
    let _ = std::fs::remove_dir_all(&d);
    for x in ["in", "out", "out/sub", "far", "far/deep", "home", "temp"] {
        std::fs::create_dir_all(d.join(x)).map_err(io)?;
    }
    // files a tool might mistake for its own
    for x in ["out/out.tmp", "out/out~", "out/.out", "out/out.bak", "out/out.new", "out/out.part", "out/tmp", "in/data.sa", "in/data.tmp", "in/data.bwt", "temp/stringology.tmp", "home/.stringology"] {
        std::fs::write(d.join(x), format!("contents of {}\n", x)).map_err(io)?;
    }
    let data = d.join("in/data");
    std::fs::write(&data, &t).map_err(io)?;
    let stamp = std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_600_000_000);
    std::fs::File::options().write(true).open(&data).and_then(|x| x.set_modified(stamp)).map_err(io)?;
    let older = vec![b'#'; if kind == 2 { 1 } else { want_file.len() + 5000 }];
    let out = d.join("out/out");
    let put = |p: &Path| std::fs::write(p, &older).map_err(io);
    let mut name = out.clone();
    // where the bytes have to arrive
    let mut at = Some(out.clone());
    let mut pipe = None;
    let mut to = To::File;
    match kind {
        0 => {}
        1 | 2 => put(&out)?,
        3 => {
            put(&d.join("far/target"))?;
            symlink(d.join("far/target"), &out).map_err(io)?;
            at = Some(d.join("far/target"));
        }
        4 => {
            symlink(d.join("far/target"), &out).map_err(io)?;
            at = Some(d.join("far/target"));
        }
        5 => {
            put(&d.join("far/target"))?;
            symlink("../far/target", &out).map_err(io)?;
            at = Some(d.join("far/target"));
        }
        6 => {
            put(&d.join("far/target"))?;
            symlink("../far/next", &out).map_err(io)?;
            symlink("deep/last", d.join("far/next")).map_err(io)?;
            symlink("../target", d.join("far/deep/last")).map_err(io)?;
            at = Some(d.join("far/target"));
        }
        7 => {
            put(&out)?;
            std::fs::hard_link(&out, d.join("far/second")).map_err(io)?;
        }
        8 => {
            need(want_file.len() <= 60_000)?;
            if !make_fifo(&out) {
                return Err(Bad::Abort("cannot make a named pipe".into()));
            }
            // neither end blocks
            pipe = Some(std::fs::OpenOptions::new().read(true).write(true).custom_flags(libc::O_NONBLOCK).open(&out).map_err(io)?);
            at = None;
        }
        9 => {
            // never the device itself: a tool that replaces its output file would destroy it
            symlink("/proc/self/fd/1", &out).map_err(io)?;
            to = To::Cut(1 << 20);
            at = None;
        }
        10 => {
            symlink("far/deep", d.join("linked")).map_err(io)?;
            name = d.join("out/sub/../../linked/../deep/file");
            at = Some(d.join("far/deep/file"));
        }
        11 => {
            name = PathBuf::from("out");
        }
        12 => {
            use std::os::unix::fs::PermissionsExt;
            put(&out)?;
            std::fs::set_permissions(&out, std::fs::Permissions::from_mode(0o604)).map_err(io)?;
        }
        _ => {
            at = None;
            if inv.has_o() {
                // without -o the output appears on standard output
                want = inv.tool(rel).stdin(&t).run(env)?;
                need(inv.kind != Kind::Random)?;
            }
        }
    }
    let identity = std::fs::metadata(&name).ok().map(|m| (m.ino(), m.mode()));
    let before = snapshot(&d)?;
    let mut tl = inv.tool(rel).to(to).env("HOME", d.join("home").display()).env("TMPDIR", d.join("temp").display()).env("XDG_CACHE_HOME", d.join("home").display());
    tl.cwd = Some(d.join("out"));
    tl.small = tl.small && t.len() <= 1024;
    if reads {
        if c.num(2) & 1 == 0 {
            tl = tl.arg("-i").arg(data.to_str().unwrap());
        } else {
            tl = tl.stdin(&t);
        }
    }
    if kind < 13 {
        tl = tl.arg("-o").arg(name.to_str().unwrap());
    }
    let got = tl.run(env)?;
    let what = format!("{} [{}]", got.cmd, DESTINATIONS[kind]);
    ensure(got.code == want.code, || format!("{} ends with status {:?} instead of {:?}: {}", what, got.code, want.code, got.err_tail()))?;
    let mut piped = vec![];
    if let Some(mut f) = pipe {
        let mut buf = [0u8; 1 << 16];
        while let Ok(n) = f.read(&mut buf) {
            if n == 0 {
                break;
            }
            piped.extend_from_slice(&buf[..n]);
        }
    }
    // the result
    let written = match (&at, kind) {
        (Some(p), _) => std::fs::read(p).map_err(|e| Bad::Fail(format!("{} does not write {}: {}", what, p.display(), e)))?,
        (None, 8) => piped,
        (None, 9) => got.stdout.clone(),
        _ => vec![],
    };
    if kind < 13 {
        same_bytes(&format!("output file of {}", what), &normal(inv, &written), &normal(inv, &want_file))?;
    }
    if kind != 9 {
        same_bytes(&format!("standard output of {}", what), &normal(inv, &got.stdout), &normal(inv, &want.stdout))?;
    }
    // everything else
    let after = snapshot(&d)?;
    let mut except: Vec<PathBuf> = at.iter().map(|p| p.strip_prefix(&d).unwrap().to_path_buf()).collect();
    if kind == 7 {
        let b = std::fs::read(d.join("far/second")).map_err(io)?;
        same_bytes(&format!("the second name of the output file of {}", what), &normal(inv, &b), &normal(inv, &want_file))?;
        except.push("far/second".into());
    }
    same_files(&what, &before, &after, &except)?;
    if let (Some(i), true) = (identity, kind != 9) {
        let now = std::fs::metadata(if name.is_relative() { &out } else { &name }).ok().map(|m| (m.ino(), m.mode()));
        ensure(kind == 11 || now == Some(i), || format!("{} replaces the file instead of writing it: inode and mode {:?} become {:?}", what, i, now))?;
    }
    let m = std::fs::metadata(&data).and_then(|m| m.modified()).map_err(io)?;
    ensure(m == stamp, || format!("{} touches its input file", what))?;
    std::fs::remove_dir_all(&d).map_err(io)?;
    pass_l(true, vec![inv.bin, DESTINATIONS[kind]])
}

/// several processes in one folder at the same time: aux = tools, nums = [seed, mode]; mode bit 0: all the same tool,
/// bit 1: all the same text, bit 2: input files in place of pipes
fn together_case(c: &Case, env: &mut Env) -> Result<Info, Bad> {
    let mut r = Mix(c.num(0));
    let mode = c.num(1);
    need(c.aux.len() >= 2 && c.aux.len() <= 8 && c.text.len() >= 4)?;
    let rel = release(c);
    let d = env.dir.join("together");
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).map_err(io)?;
    struct Job<'a> {
        inv: &'a Inv,
        text: Vec<u8>,
        child: Option<std::process::Child>,
        cmd: String,
        out: Option<PathBuf>,
    }
    let mut jobs: Vec<Job> = vec![];
    for (k, &a) in c.aux.iter().enumerate() {
        let a = if mode & 1 != 0 { c.aux[0] } else { a };
        let inv = &INVS[a as usize % READERS];
        let mut text = c.text.clone();
        if mode & 2 == 0 {
            // another text for everyone, of another length
            for _ in 0..k {
                let (i, j) = (r.below(text.len()), r.below(text.len()));
                text[i] = text[j];
                text.push(text[r.below(text.len())]);
            }
            text.rotate_left(k % c.text.len());
        }
        need(inv.accepts(&text) && !(text.len() > 4000 && (inv.args.contains(&"-u") || inv.bin == "is_stringattractor")))?;
        let text = inv.input(&text);
        need(text.len() <= 60_000)?;
        jobs.push(Job { inv, text, child: None, cmd: String::new(), out: None });
    }
    let before: Vec<PathBuf> = (0..jobs.len()).map(|k| format!("in{}", k).into()).collect();
    for (k, j) in jobs.iter_mut().enumerate() {
        let mut args: Vec<String> = j.inv.args.iter().map(|s| s.to_string()).collect();
        std::fs::write(d.join(&before[k]), &j.text).map_err(io)?;
        if mode & 4 != 0 {
            args.extend(["-i".to_string(), before[k].display().to_string()]);
        }
        if j.inv.has_o() && (mode & 8 == 0 || j.inv.kind == Kind::Factors) {
            args.extend(["-o".to_string(), format!("out{}", k)]);
            j.out = Some(d.join(format!("out{}", k)));
        }
        j.cmd = format!("{} {}", j.inv.bin, args.join(" "));
        let mut p = Command::new(exe(j.inv.bin, rel));
        p.args(&args).current_dir(&d).env_remove("RUST_LOG").env("RUST_BACKTRACE", "0").env("TMPDIR", &d).env("HOME", &d);
        p.stdin(if mode & 4 != 0 { Stdio::null() } else { Stdio::piped() });
        p.stdout(std::fs::File::create(env.dir.join(format!("together.{}", k))).map_err(io)?);
        p.stderr(std::fs::File::create(env.dir.join(format!("together.err.{}", k))).map_err(io)?);
        let x = spawn(&mut p).map_err(io)?;
        limit(x.id() as i32, false, true);
        register(x.id() as i32);
        j.child = Some(x);
    }
    // everyone gets a part before anyone gets the rest
    if mode & 4 == 0 {
        for round in 0..2 {
            for j in jobs.iter_mut() {
                let h = j.text.len() / 2;
                let part = if round == 0 { &j.text[..h] } else { &j.text[h..] };
                let x = j.child.as_mut().unwrap();
                if let Some(w) = x.stdin.as_mut() {
                    let _ = w.write_all(part);
                }
                if round == 1 {
                    x.stdin = None;
                }
            }
            if round == 0 {
                std::thread::sleep(std::time::Duration::from_millis(2));
            }
        }
    }
    let mut codes = vec![];
    let mut stuck = false;
    for j in jobs.iter_mut() {
        let mut x = j.child.take().unwrap();
        let st = x.wait();
        stuck |= unregister(x.id() as i32);
        codes.push(st.map_err(io)?.code());
    }
    if stuck {
        return Err(Bad::Abort("tools running together did not end".into()));
    }
    let after = snapshot(&d)?;
    for (p, (_, b)) in &after {
        let k = before.iter().position(|x| x == p);
        if let Some(k) = k {
            ensure(b == &jobs[k].text, || format!("{} [with others at the same time]: the input file {} is changed", jobs[k].cmd, p.display()))?;
        } else {
            ensure(jobs.iter().any(|j| j.out.as_ref().map_or(false, |o| o.strip_prefix(&d).unwrap() == p)), || format!("one of {:?} leaves {} behind", jobs.iter().map(|j| &j.cmd).collect::<Vec<_>>(), p.display()))?;
        }
    }
    ensure(before.iter().all(|p| after.contains_key(p)), || "an input file is gone".into())?;
    let alone = env.dir.join("alone.out");
    for (k, j) in jobs.iter().enumerate() {
        let _ = std::fs::remove_file(&alone);
        let mut t = inv_alone(j.inv, rel).stdin(&j.text);
        t.small = false;
        if j.out.is_some() {
            t = t.arg("-o").arg(alone.to_str().unwrap());
        }
        let want = t.run(env)?;
        let what = format!("{} [with {} others at the same time]", j.cmd, jobs.len() - 1);
        ensure(codes[k] == want.code, || format!("{} ends with status {:?}, alone with {:?}", what, codes[k], want.code))?;
        let got = std::fs::read(env.dir.join(format!("together.{}", k))).map_err(io)?;
        same_bytes(&format!("standard output of {}", what), &normal(j.inv, &got), &normal(j.inv, &want.stdout))?;
        if let Some(o) = &j.out {
            let got = std::fs::read(o).map_err(|e| Bad::Fail(format!("{}: no output file: {}", what, e)))?;
            same_bytes(&format!("output file of {}", what), &got, &std::fs::read(&alone).unwrap_or_default())?;
        }
    }
    std::fs::remove_dir_all(&d).map_err(io)?;
    pass_l(true, vec![if mode & 1 != 0 { "one tool" } else { "several tools" }])
}
fn inv_alone(inv: &Inv, rel: bool) -> Tool<'static> {
    inv.tool(rel)
}

pub fn c37(t: Tier) -> Vec<Sub> {
    let texts: [&[u8]; 3] = [b"abaababaabaababaababa", b"mississippi", b"zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz"];
    let (ni, nd) = (INVS.len() as u64, DESTINATIONS.len() as u64);
    vec![
        sub_enum(
            "destinations-exhaustive",
            "every tool with every kind of output, the input by name and on standard input, among files with suspicious names",
            false,
            ni * nd * 4 * t.pick(1, 6),
            move |i| {
                let (a, k) = (i % ni, i / ni);
                let text = if a < READERS as u64 { texts[k as usize / 3 % 3].to_vec() } else { vec![] };
                Case::new(text, vec![], vec![a, k % nd, k / nd])
            },
            destination_case,
        ),
        sub_enum(
            "destinations-empty",
            "the same with an empty input, which some tools answer by an empty output",
            false,
            READERS as u64 * nd * 4,
            move |i| Case::new(vec![], vec![], vec![i % READERS as u64, i / READERS as u64 % nd, i / READERS as u64 / nd]),
            destination_case,
        ),
        sub_gen(
            "destinations-random",
            "random tools, outputs and texts",
            false,
            t.pick(600, 200_000),
            move || {
                (0..READERS as u64, 0..nd, 0u64..2, prop_oneof![4 => text(4, 60, Bytes::NonZero), 1 => text(4, 4000, Bytes::NonZero)])
                    .prop_map(|(a, k, m, t)| Case::new(t, vec![], vec![a, k, m]))
            },
            destination_case,
        ),
        sub_gen(
            "destinations-long",
            "long texts",
            false,
            t.pick(300, 30_000),
            move || (0..READERS as u64, 0..nd, 0u64..2, big(4000, 200_000, Bytes::NonZero)).prop_map(|(a, k, m, t)| Case::new(t, vec![], vec![a, k, m])),
            destination_case,
        ),
        sub_gen(
            "together-random",
            "two to six processes in one folder, fed in turn or reading files",
            false,
            t.pick(400, 80_000),
            || {
                (proptest::collection::vec(0u8..READERS as u8, 2..6), any::<u64>(), 0u64..16, prop_oneof![4 => text(4, 60, Bytes::NonZero), 1 => text(4, 4000, Bytes::NonZero)])
                    .prop_map(|(a, s, m, t)| Case::new(t, a, vec![s, m]))
            },
            together_case,
        ),
        sub_gen(
            "together-long",
            "the same with longer texts",
            false,
            t.pick(60, 10_000),
            || (proptest::collection::vec(0u8..READERS as u8, 2..5), any::<u64>(), 0u64..16, big(4000, 50_000, Bytes::NonZero)).prop_map(|(a, s, m, t)| Case::new(t, a, vec![s, m])),
            together_case,
        ),
    ]
}
