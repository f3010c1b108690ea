//! Builds and runs the command-line tools of the repository.
use crate::case::hash_str;
use crate::frame::*;
use std::collections::BTreeMap;
use std::fs::File;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{Mutex, RwLock};
use std::time::{Duration, Instant};

pub const REPO: &str = "/repo";

pub fn build_dir() -> PathBuf {
    verif_dir().join(".build")
}

fn hash_tree(p: &Path, acc: &mut Vec<(String, u64)>) {
    if let Ok(rd) = std::fs::read_dir(p) {
        for e in rd.flatten() {
            let q = e.path();
            if q.is_dir() {
                hash_tree(&q, acc);
            } else if let Ok(b) = std::fs::read(&q) {
                let mut h = crate::case::Fnv::new();
                h.put(&b);
                acc.push((q.display().to_string(), h.0));
            }
        }
    }
}

/// a fingerprint of the sources under test
pub fn fingerprint() -> String {
    let mut acc = vec![];
    hash_tree(&Path::new(REPO).join("src"), &mut acc);
    for f in ["Cargo.toml", "Cargo.lock", "build.rs"] {
        if let Ok(b) = std::fs::read(Path::new(REPO).join(f)) {
            let mut h = crate::case::Fnv::new();
            h.put(&b);
            acc.push((f.into(), h.0));
        }
    }
    acc.sort();
    format!("{:016x}", hash_str(&format!("{:?}", acc)))
}

fn cargo(args: &[&str], target: &Path) -> Result<(), String> {
    let o = Command::new("cargo")
        .args(args)
        .arg("--manifest-path")
        .arg(Path::new(REPO).join("Cargo.toml"))
        .arg("--target-dir")
        .arg(target)
        .env("CARGO_NET_OFFLINE", "true")
        .env("CARGO_TERM_COLOR", "never")
        .env("CARGO_PROFILE_DEV_OPT_LEVEL", "1")
        .env("CARGO_PROFILE_DEV_DEBUG", "0")
        .env("CARGO_PROFILE_RELEASE_DEBUG", "0")
        .env("CARGO_INCREMENTAL", "0")
        .stdin(Stdio::null())
        .output()
        .map_err(|e| format!("cannot run cargo: {}", e))?;
    if o.status.success() {
        Ok(())
    } else {
        let s = String::from_utf8_lossy(&o.stderr);
        let tail: Vec<&str> = s.lines().rev().take(30).collect();
        Err(format!("cargo {:?} failed:\n{}", args, tail.into_iter().rev().collect::<Vec<_>>().join("\n")))
    }
}

/// builds the tools from the working tree, in the dev profile (overflow checks and debug assertions)
/// and, if requested, in the release profile
pub fn build(bins: &[&str], release_too: bool) -> Result<(), String> {
    if bins.is_empty() {
        return Ok(());
    }
    // also for the worker processes
    std::env::set_var("VP_BUILT", format!("{},{}", bins.join(","), if release_too { "release" } else { "" }));
    let print = fingerprint();
    let one = |release: bool| -> Result<(), String> {
        let target = build_dir().join(if release { "tools-release" } else { "tools-dev" });
        std::fs::create_dir_all(&target).map_err(|e| e.to_string())?;
        let stamp = target.join("vp-stamp");
        if std::fs::read_to_string(&stamp).unwrap_or_default() != print {
            // never trust modification times alone
            if target.join("CACHEDIR.TAG").exists() {
                let mut a = vec!["clean", "-p", "stringology"];
                if release {
                    a.push("--release");
                }
                cargo(&a, &target)?;
            }
            std::fs::write(&stamp, &print).map_err(|e| e.to_string())?;
        }
        let mut a = vec!["build", "--offline"];
        if release {
            a.push("--release");
        }
        for b in bins {
            a.push("--bin");
            a.push(b);
        }
        cargo(&a, &target)
    };
    std::thread::scope(|s| {
        let r = release_too.then(|| s.spawn(|| one(true)));
        let d = one(false);
        if let Some(r) = r {
            r.join().unwrap()?;
        }
        d
    })
}

pub fn exe(bin: &str, release: bool) -> PathBuf {
    build_dir().join(if release { "tools-release/release" } else { "tools-dev/debug" }).join(bin)
}

pub enum In {
    Null,
    Bytes(Vec<u8>),
    Path(PathBuf),
    /// a file positioned at its second part
    Offset(Vec<u8>, Vec<u8>),
    /// a pipe fed in chunks of the given sizes (used cyclically), with pauses after the first ones
    Pipe(Vec<u8>, Vec<usize>),
    /// standard input is empty; a named pipe at the path is fed as above
    Fifo(PathBuf, Vec<u8>, Vec<usize>),
    /// an open descriptor
    Fd(std::os::fd::OwnedFd),
    /// a terminal at which nobody types
    Terminal,
}
pub enum To {
    File,
    /// the tool writes to this path, which is not read back
    Path(PathBuf),
    /// a pipe whose reader is gone
    Closed,
    /// a pipe whose reader goes away after this many bytes
    Cut(usize),
    /// a terminal that shows the bytes as they are
    Terminal,
}

pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub cmd: String,
}

static RUNNING: Mutex<Vec<(i32, Instant, bool)>> = Mutex::new(Vec::new());
const STUCK: Duration = Duration::from_secs(240);

/// A process being started holds copies of all descriptors of this one until its program is loaded. Whoever closes
/// the reading end of a pipe for good takes this lock for writing, whoever starts a process takes it for reading.
static SPAWN: RwLock<()> = RwLock::new(());
pub fn spawn(c: &mut Command) -> std::io::Result<std::process::Child> {
    let _l = SPAWN.read().unwrap_or_else(|e| e.into_inner());
    c.spawn()
}
fn alone<T>(f: impl FnOnce() -> T) -> T {
    let _l = SPAWN.write().unwrap_or_else(|e| e.into_inner());
    f()
}

pub fn kill_stuck() {
    for r in RUNNING.lock().unwrap().iter_mut() {
        if r.1.elapsed() > STUCK && !r.2 {
            r.2 = true;
            unsafe { libc::kill(r.0, libc::SIGKILL) };
        }
    }
}
pub fn make_fifo(p: &Path) -> bool {
    use std::os::unix::ffi::OsStrExt;
    match std::ffi::CString::new(p.as_os_str().as_bytes()) {
        Ok(c) => unsafe { libc::mkfifo(c.as_ptr(), 0o600) == 0 },
        Err(_) => false,
    }
}
pub fn register(pid: i32) {
    RUNNING.lock().unwrap().push((pid, Instant::now(), false));
}
/// true if the process had to be killed
pub fn unregister(pid: i32) -> bool {
    let mut v = RUNNING.lock().unwrap();
    match v.iter().position(|x| x.0 == pid) {
        Some(i) => v.swap_remove(i).2,
        None => false,
    }
}

/// writes the bytes in chunks; the first few chunks are followed by a pause such that the reader sees them
fn feed_chunks(f: Option<File>, path: Option<PathBuf>, data: &[u8], sizes: &[usize], child: &mut std::process::Child) {
    use std::io::Write;
    use std::os::unix::fs::OpenOptionsExt;
    let mut f = match (f, path) {
        (Some(f), _) => f,
        (None, Some(p)) => loop {
            // opening for writing succeeds as soon as the tool has opened the pipe for reading
            match std::fs::OpenOptions::new().write(true).custom_flags(libc::O_NONBLOCK).open(&p) {
                Ok(f) => {
                    use std::os::fd::AsRawFd;
                    unsafe { libc::fcntl(f.as_raw_fd(), libc::F_SETFL, 0) };
                    break f;
                }
                Err(_) => {
                    if !matches!(child.try_wait(), Ok(None)) {
                        return;
                    }
                    std::thread::sleep(Duration::from_micros(60));
                }
            }
        },
        _ => return,
    };
    let mut at = 0;
    let mut k = 0;
    while at < data.len() {
        let n = sizes.get(k % sizes.len().max(1)).copied().unwrap_or(usize::MAX).clamp(1, data.len() - at);
        if f.write_all(&data[at..at + n]).is_err() {
            return;
        }
        at += n;
        k += 1;
        if k <= 4 {
            std::thread::sleep(Duration::from_micros(150));
        }
    }
}

pub fn shim_path() -> PathBuf {
    build_dir().join("fault.so")
}
/// compiles the fault injector
pub fn build_shim() -> Result<(), String> {
    let src = include_str!("../shim/fault.c");
    let dir = build_dir();
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let c = dir.join("fault.c");
    if shim_path().exists() && std::fs::read_to_string(&c).unwrap_or_default() == src {
        return Ok(());
    }
    std::fs::write(&c, src).map_err(|e| e.to_string())?;
    let tmp = dir.join("fault.so.new");
    let mut last = String::new();
    for cc in ["gcc", "cc", "clang"] {
        match Command::new(cc).args(["-O1", "-shared", "-fPIC", "-o"]).arg(&tmp).arg(&c).output() {
            Ok(o) if o.status.success() => {
                return std::fs::rename(&tmp, shim_path()).map_err(|e| e.to_string());
            }
            Ok(o) => last = String::from_utf8_lossy(&o.stderr).into(),
            Err(e) => last = e.to_string(),
        }
    }
    Err(format!("cannot compile the fault injector: {}", last))
}

pub fn limit(pid: i32, small: bool, fsize: bool) {
    let set = |what, v: u64, extra: u64| unsafe {
        let l = libc::rlimit { rlim_cur: v, rlim_max: v + extra };
        libc::prlimit(pid, what, &l, std::ptr::null_mut());
    };
    set(libc::RLIMIT_CPU, if small { 20 } else { 200 }, 5);
    set(libc::RLIMIT_AS, 6 << 30, 0);
    if fsize {
        set(libc::RLIMIT_FSIZE, 1 << 29, 0);
    }
}

/// both sides of a terminal in raw mode
fn terminal() -> std::io::Result<(File, File)> {
    use std::os::fd::{AsRawFd, FromRawFd};
    use std::os::unix::fs::OpenOptionsExt;
    let err = std::io::Error::last_os_error;
    unsafe {
        let m = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        if m < 0 {
            return Err(err());
        }
        let master = File::from_raw_fd(m);
        let mut name = [0 as libc::c_char; 128];
        if libc::grantpt(m) != 0 || libc::unlockpt(m) != 0 || libc::ptsname_r(m, name.as_mut_ptr(), name.len()) != 0 {
            return Err(err());
        }
        let path = std::ffi::CStr::from_ptr(name.as_ptr()).to_string_lossy().to_string();
        let slave = std::fs::OpenOptions::new().read(true).write(true).custom_flags(libc::O_NOCTTY | libc::O_CLOEXEC).open(path)?;
        let s = slave.as_raw_fd();
        let mut t: libc::termios = std::mem::zeroed();
        if libc::tcgetattr(s, &mut t) != 0 {
            return Err(err());
        }
        libc::cfmakeraw(&mut t);
        if libc::tcsetattr(s, libc::TCSANOW, &t) != 0 {
            return Err(err());
        }
        let w = libc::winsize { ws_row: 24, ws_col: 80, ws_xpixel: 0, ws_ypixel: 0 };
        libc::ioctl(s, libc::TIOCSWINSZ, &w);
        Ok((master, slave))
    }
}
/// everything shown by a terminal until its last user is gone
fn drain(mut m: File) -> Vec<u8> {
    use std::io::Read;
    let mut out = vec![];
    let mut buf = [0u8; 1 << 14];
    loop {
        match m.read(&mut buf) {
            Ok(0) => break,
            Ok(n) => out.extend_from_slice(&buf[..n]),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
            Err(_) => break,
        }
    }
    out
}

pub struct Tool<'a> {
    pub bin: &'a str,
    pub args: Vec<String>,
    pub stdin: In,
    pub release: bool,
    pub stdout: To,
    pub env: Vec<(String, String)>,
    /// limit on the size of written files; exceeding it is an error, not a signal
    pub fsize: Option<u64>,
    /// the work is tiny: 20 s of CPU time mean it never ends
    pub small: bool,
    pub clear_env: bool,
    pub cwd: Option<PathBuf>,
    /// standard error is a full device
    pub stderr_full: bool,
    /// standard error is a terminal
    pub stderr_terminal: bool,
    /// run on a single processor
    pub one_cpu: bool,
    /// the name by which the program is called
    pub name: Option<String>,
    /// a request that is hopeless: limit on the memory; ending for lack of memory or time is an answer, too
    pub hopeless: Option<u64>,
}

pub fn tool<'a>(bin: &'a str, args: &[&str]) -> Tool<'a> {
    Tool { bin, args: args.iter().map(|s| s.to_string()).collect(), stdin: In::Null, release: false, stdout: To::File, env: vec![], fsize: None, small: true, clear_env: false, cwd: None, stderr_full: false, stderr_terminal: false, one_cpu: false, name: None, hopeless: None }
}

impl<'a> Tool<'a> {
    pub fn stdin(mut self, b: &[u8]) -> Self {
        self.small = self.small && b.len() <= 1024;
        self.stdin = In::Bytes(b.to_vec());
        self
    }
    pub fn arg(mut self, a: impl Into<String>) -> Self {
        self.args.push(a.into());
        self
    }
    pub fn release(mut self, r: bool) -> Self {
        self.release = r;
        self
    }
    pub fn big(mut self) -> Self {
        self.small = false;
        self
    }
    pub fn describe(&self) -> String {
        format!(
            "{}{} {}",
            self.bin,
            if self.release { " (release build)" } else { "" },
            self.args.iter().map(|a| if a.contains("vp-scratch") { Path::new(a).file_name().unwrap().to_string_lossy().to_string() } else { a.clone() }).collect::<Vec<_>>().join(" ")
        )
    }
    pub fn input(mut self, i: In) -> Self {
        let n = match &i {
            In::Bytes(b) | In::Pipe(b, _) | In::Fifo(_, b, _) | In::Offset(_, b) => b.len(),
            _ => 0,
        };
        self.small = self.small && n <= 1024;
        self.stdin = i;
        self
    }
    pub fn to(mut self, o: To) -> Self {
        self.stdout = o;
        self
    }
    pub fn env(mut self, k: &str, v: impl std::fmt::Display) -> Self {
        self.env.push((k.into(), v.to_string()));
        self
    }
    /// preloads the fault injector
    pub fn shim(self) -> Self {
        self.env("LD_PRELOAD", shim_path().display())
    }
    /// runs the tool; any exit status is returned, crashes by signal and endless loops fail
    pub fn run(self, env: &Env) -> Result<Out, Bad> {
        let o = self.run_any(env)?;
        match o.signal {
            None => Ok(o),
            Some(s) => fail(format!("{} died from signal {}: {}", o.cmd, s, o.err_tail())),
        }
    }
    /// as run, but death by a signal is returned, too
    pub fn run_any(self, env: &Env) -> Result<Out, Bad> {
        use std::os::fd::{FromRawFd, OwnedFd};
        let io = |e: std::io::Error| Bad::Abort(format!("i/o error of the harness: {}", e));
        let pipe = || -> Result<(OwnedFd, OwnedFd), Bad> {
            let mut p = [0i32; 2];
            if unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) } != 0 {
                return Err(io(std::io::Error::last_os_error()));
            }
            Ok(unsafe { (OwnedFd::from_raw_fd(p[0]), OwnedFd::from_raw_fd(p[1])) })
        };
        // other tools in the build directories may be out of date
        if !self.bin.starts_with('/') && !std::env::var("VP_BUILT").is_ok_and(|v| v.split(',').any(|b| b == self.bin) && (!self.release || v.ends_with(",release"))) {
            return Err(Bad::Abort(format!("the check does not say that it needs {}", self.bin)));
        }
        let outp = env.dir.join("stdout");
        let errp = env.dir.join("stderr");
        let cmd = self.describe();
        let mut feed: Option<(Option<File>, Option<PathBuf>, Vec<u8>, Vec<usize>)> = None;
        let mut terminals: Vec<(File, bool)> = vec![];
        let stdin: Stdio = match self.stdin {
            In::Null => File::open("/dev/null").map_err(io)?.into(),
            In::Bytes(b) => {
                let p = env.dir.join("stdin");
                std::fs::write(&p, b).map_err(io)?;
                File::open(&p).map_err(io)?.into()
            }
            In::Path(p) => File::open(p).map_err(io)?.into(),
            In::Offset(a, b) => {
                use std::io::{Seek, SeekFrom};
                let p = env.dir.join("stdin");
                std::fs::write(&p, [&a[..], &b[..]].concat()).map_err(io)?;
                let mut f = File::open(&p).map_err(io)?;
                f.seek(SeekFrom::Start(a.len() as u64)).map_err(io)?;
                f.into()
            }
            In::Pipe(b, sizes) => {
                let (r, w) = pipe()?;
                feed = Some((Some(File::from(w)), None, b, sizes));
                r.into()
            }
            In::Fifo(p, b, sizes) => {
                let _ = std::fs::remove_file(&p);
                let c = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
                if unsafe { libc::mkfifo(c.as_ptr(), 0o600) } != 0 {
                    return Err(io(std::io::Error::last_os_error()));
                }
                feed = Some((None, Some(p), b, sizes));
                File::open("/dev/null").map_err(io)?.into()
            }
            In::Fd(f) => f.into(),
            In::Terminal => {
                let (m, s) = terminal().map_err(io)?;
                terminals.push((m, false));
                s.into()
            }
        };
        let mut reader: Option<(File, usize)> = None;
        let stdout: Stdio = match &self.stdout {
            To::File => File::create(&outp).map_err(io)?.into(),
            To::Path(p) => std::fs::OpenOptions::new().write(true).open(p).map_err(io)?.into(),
            To::Terminal => {
                let (m, s) = terminal().map_err(io)?;
                terminals.push((m, true));
                s.into()
            }
            To::Closed => alone(|| pipe().map(|p| p.1))?.into(),
            To::Cut(r) => {
                use std::os::fd::AsRawFd;
                let (a, b) = pipe()?;
                unsafe { libc::fcntl(b.as_raw_fd(), libc::F_SETPIPE_SZ, 4096) };
                reader = Some((File::from(a), *r));
                b.into()
            }
        };
        let mut c = Command::new(exe(self.bin, self.release));
        c.args(&self.args)
            .env("RUST_BACKTRACE", "0")
            .env_remove("RUST_LOG")
            .stdin(stdin)
            .stdout(stdout)
            .stderr(File::create(&errp).map_err(io)?);
        if self.stderr_full {
            c.stderr(std::fs::OpenOptions::new().write(true).open("/dev/full").map_err(io)?);
        }
        if self.stderr_terminal {
            let (m, s) = terminal().map_err(io)?;
            terminals.push((m, false));
            c.stderr(Stdio::from(s));
        }
        if let Some(n) = &self.name {
            use std::os::unix::process::CommandExt;
            c.arg0(n);
        }
        if self.one_cpu {
            use std::os::unix::process::CommandExt;
            unsafe {
                c.pre_exec(|| {
                    // the first of those allowed
                    let mut set: libc::cpu_set_t = std::mem::zeroed();
                    if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) == 0 {
                        if let Some(i) = (0..libc::CPU_SETSIZE as usize).find(|&i| libc::CPU_ISSET(i, &set)) {
                            libc::CPU_ZERO(&mut set);
                            libc::CPU_SET(i, &mut set);
                            libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
                        }
                    }
                    Ok(())
                });
            }
        }
        if self.clear_env {
            c.env_clear();
        }
        if let Some(d) = &self.cwd {
            c.current_dir(d);
        }
        for (k, v) in &self.env {
            c.env(k, v);
        }
        if let Some(n) = self.fsize {
            use std::os::unix::process::CommandExt;
            unsafe {
                c.pre_exec(move || {
                    libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                    let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                    libc::setrlimit(libc::RLIMIT_FSIZE, &l);
                    Ok(())
                });
            }
        }
        let mut child = spawn(&mut c).map_err(|e| Bad::Abort(format!("cannot start {}: {}", cmd, e)))?;
        drop(c);
        let pid = child.id() as i32;
        limit(pid, self.small, self.fsize.is_none());
        if let Some(n) = self.hopeless {
            let l = libc::rlimit { rlim_cur: n, rlim_max: n };
            unsafe { libc::prlimit(pid, libc::RLIMIT_AS, &l, std::ptr::null_mut()) };
        }
        register(pid);
        if let Some((f, p, b, sizes)) = feed {
            feed_chunks(f, p, &b, &sizes, &mut child);
        }
        let mut cut = vec![];
        let shown: Vec<_> = terminals.into_iter().map(|(m, keep)| (std::thread::spawn(move || drain(m)), keep)).collect();
        if let Some((mut f, n)) = reader {
            use std::io::Read;
            let mut buf = vec![0u8; n];
            let mut got = 0;
            while got < n {
                match f.read(&mut buf[got..]) {
                    Ok(0) | Err(_) => break,
                    Ok(k) => got += k,
                }
            }
            alone(|| drop(f));
            buf.truncate(got);
            cut = buf;
        }
        let st = child.wait();
        let stuck = unregister(pid);
        for (t, keep) in shown {
            let b = t.join().unwrap_or_default();
            if keep {
                cut = b;
            }
        }
        let st = st.map_err(io)?;
        if stuck {
            return Err(Bad::Abort(format!("{} did not end within {:?}", cmd, STUCK)));
        }
        use std::os::unix::process::ExitStatusExt;
        let out = Out {
            code: st.code(),
            signal: st.signal(),
            stdout: match self.stdout {
                To::File => std::fs::read(&outp).map_err(io)?,
                _ => cut,
            },
            stderr: std::fs::read(&errp).map_err(io)?,
            cmd,
        };
        match out.signal {
            Some(libc::SIGXCPU | libc::SIGABRT) if self.hopeless.is_some() => Ok(out),
            Some(libc::SIGXCPU) if self.small => {
                fail(format!("{} does not terminate (20 s of CPU time on a tiny input)", out.cmd))
            }
            Some(libc::SIGXCPU) => Err(Bad::Abort(format!("{} needs more than 200 s", out.cmd))),
            Some(libc::SIGKILL) => Err(Bad::Abort(format!("{} was killed", out.cmd))),
            _ => Ok(out),
        }
    }
    /// runs the tool, which has to succeed
    pub fn ok(self, env: &Env) -> Result<Out, Bad> {
        let o = self.run(env)?;
        if o.code == Some(0) {
            Ok(o)
        } else {
            fail(format!("{} failed with status {:?}: {}", o.cmd, o.code, o.err_tail()))
        }
    }
}

impl Out {
    pub fn err_tail(&self) -> String {
        let s = String::from_utf8_lossy(&self.stderr);
        let v: Vec<&str> = s.lines().take(4).collect();
        v.join(" | ")
    }
    pub fn text(&self) -> Result<String, Bad> {
        String::from_utf8(self.stdout.clone()).or_else(|_| fail(format!("{} printed invalid UTF-8", self.cmd)))
    }
    /// fields of the RESULT line
    pub fn result(&self) -> Result<BTreeMap<String, String>, Bad> {
        let s = self.text()?;
        let Some(l) = s.lines().find(|l| l.starts_with("RESULT")) else {
            return fail(format!("{} printed no RESULT line: {:?}", self.cmd, s));
        };
        Ok(fields(l))
    }
    pub fn result_num(&self, key: &str) -> Result<u64, Bad> {
        let r = self.result()?;
        match r.get(key).and_then(|v| v.parse().ok()) {
            Some(v) => Ok(v),
            None => fail(format!("{}: no number {} in {:?}", self.cmd, key, r)),
        }
    }
}

/// key=value fields; a value starting with '[' extends to the matching ']'
pub fn fields(line: &str) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    let mut rest = line;
    while !rest.is_empty() {
        rest = rest.trim_start();
        let Some(eq) = rest.find('=') else { break };
        let key = rest[..eq].split_whitespace().last().unwrap_or("").to_string();
        let v = &rest[eq + 1..];
        let end = if v.starts_with('[') {
            v.find(']').map(|i| i + 1).unwrap_or(v.len())
        } else {
            v.find(char::is_whitespace).unwrap_or(v.len())
        };
        out.insert(key, v[..end].to_string());
        rest = &v[end..];
    }
    out
}
