//! Runs the sub-checks of a property: generation, work pool, shrinking, replay, evidence.
use crate::case::*;
use crate::tool;
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

/// what a passed case was
#[derive(Default, Clone)]
pub struct Info {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}
pub fn pass(nontrivial: bool) -> Result<Info, Bad> {
    Ok(Info { nontrivial, labels: vec![] })
}
pub fn pass_l(nontrivial: bool, labels: Vec<&'static str>) -> Result<Info, Bad> {
    Ok(Info { nontrivial, labels })
}

#[derive(Clone, Debug)]
pub enum Bad {
    /// the property is violated
    Fail(String),
    /// the case is outside the domain (also used while shrinking)
    Discard,
    /// the check itself could not decide (never a violation)
    Abort(String),
}
pub fn fail<T>(msg: impl Into<String>) -> Result<T, Bad> {
    Err(Bad::Fail(msg.into()))
}
pub fn ensure(cond: bool, msg: impl FnOnce() -> String) -> Result<(), Bad> {
    if cond {
        Ok(())
    } else {
        Err(Bad::Fail(msg()))
    }
}
pub fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: &T, want: &T) -> Result<(), Bad> {
    if got == want {
        return Ok(());
    }
    let cut = |s: String| if s.len() > 600 { format!("{}...", s.chars().take(600).collect::<String>()) } else { s };
    fail(format!("{}: got {}, expected {}", what, cut(format!("{:?}", got)), cut(format!("{:?}", want))))
}
pub fn same_bytes(what: &str, got: &[u8], want: &[u8]) -> Result<(), Bad> {
    if got == want {
        return Ok(());
    }
    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    fail(format!(
        "{}: got {} bytes [{}], expected {} bytes [{}], first difference at {}",
        what,
        got.len(),
        brief_bytes(got),
        want.len(),
        brief_bytes(want),
        at
    ))
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    let m = e
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "?".into());
    format!("{} [{}]", m, LAST_PANIC.with(|l| l.borrow().clone()))
}
/// call into the code under test: a panic there is a failure of the property
pub fn call<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Bad> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| Bad::Fail(format!("{} panicked: {}", what, panic_text(e))))
}
/// call into the code under test where a panic is an allowed (or the required) refusal
pub fn refuses<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

pub struct Env {
    pub slot: usize,
    pub dir: PathBuf,
    pub tier: Tier,
}

pub type CheckFn = Arc<dyn Fn(&Case, &mut Env) -> Result<Info, Bad> + Send + Sync>;
pub type StratFn = Arc<dyn Fn() -> BoxedStrategy<Case> + Send + Sync>;

#[derive(Clone)]
pub enum Source {
    /// a finite space, enumerated completely: index -> case
    Enum { n: u64, make: Arc<dyn Fn(u64) -> Case + Send + Sync> },
    /// random structured generation: number of cases per tier
    Gen { n: u64, strat: StratFn },
}

#[derive(Clone)]
pub struct Sub {
    pub name: &'static str,
    pub about: &'static str,
    pub source: Source,
    /// the code under test runs inside this process
    pub inproc: bool,
    pub check: CheckFn,
}

pub fn sub_enum(
    name: &'static str,
    about: &'static str,
    inproc: bool,
    n: u64,
    make: impl Fn(u64) -> Case + Send + Sync + 'static,
    check: impl Fn(&Case, &mut Env) -> Result<Info, Bad> + Send + Sync + 'static,
) -> Sub {
    Sub { name, about, source: Source::Enum { n, make: Arc::new(make) }, inproc, check: Arc::new(check) }
}
pub fn sub_gen<S>(
    name: &'static str,
    about: &'static str,
    inproc: bool,
    n: u64,
    strat: impl Fn() -> S + Send + Sync + 'static,
    check: impl Fn(&Case, &mut Env) -> Result<Info, Bad> + Send + Sync + 'static,
) -> Sub
where
    S: Strategy<Value = Case> + 'static,
{
    Sub { name, about, source: Source::Gen { n, strat: Arc::new(move || strat().boxed()) }, inproc, check: Arc::new(check) }
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    /// tools needed as (dev build, release build)
    pub bins: Vec<&'static str>,
    pub release_too: bool,
    pub subs: Vec<Sub>,
}

#[derive(Default, Clone)]
struct Stats {
    evaluations: u64,
    discards: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<serde_json::Value>,
    known: BTreeMap<String, u64>,
    max_len: usize,
}

fn len_label(n: usize) -> &'static str {
    match n {
        0 => "len 0",
        1 => "len 1",
        2..=8 => "len 2-8",
        9..=32 => "len 9-32",
        33..=128 => "len 33-128",
        129..=512 => "len 129-512",
        513..=4096 => "len 513-4096",
        4097..=65535 => "len 4097-65535",
        _ => "len >= 65536",
    }
}
fn generic_labels(c: &Case, st: &mut Stats) {
    let t = &c.text;
    let mut add = |l: &'static str| *st.labels.entry(l).or_insert(0) += 1;
    if c.text.is_empty() && !c.nums.is_empty() {
        add("parameters only");
        return;
    }
    add(len_label(t.len()));
    let mut seen = [false; 256];
    let mut run = 0usize;
    let mut maxrun = 0usize;
    for (i, &b) in t.iter().enumerate() {
        seen[b as usize] = true;
        run = if i > 0 && t[i - 1] == b { run + 1 } else { 1 };
        maxrun = maxrun.max(run);
    }
    let sigma = seen.iter().filter(|x| **x).count();
    add(match sigma {
        0 => "sigma 0",
        1 => "sigma 1",
        2 => "sigma 2",
        3..=8 => "sigma 3-8",
        9..=64 => "sigma 9-64",
        65..=254 => "sigma 65-254",
        _ => "sigma 255-256",
    });
    if seen[128..].iter().any(|x| *x) {
        add("has byte >= 128");
    }
    if seen[0] {
        add("has zero byte");
    }
    if maxrun > 256 {
        add("has run > 256");
    }
}

// ---------------------------------------------------------------- journal of in-process cases

const SLOT: usize = 1 << 18;
struct Journal(*mut u8);
unsafe impl Send for Journal {}
unsafe impl Sync for Journal {}
impl Journal {
    fn open(path: &Path, slots: usize) -> Journal {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        f.set_len((slots * SLOT) as u64).unwrap();
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                slots * SLOT,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Journal(p as *mut u8)
    }
    fn put(&self, slot: usize, sub: u32, c: &Case) {
        let need = 32 + c.text.len() + c.aux.len() + 8 * c.nums.len();
        let base = unsafe { std::slice::from_raw_parts_mut(self.0.add(slot * SLOT), SLOT) };
        base[0] = 0;
        if need > SLOT {
            return;
        }
        let mut at = 4;
        let mut w = |b: &[u8]| {
            base[at..at + b.len()].copy_from_slice(b);
            at += b.len();
        };
        w(&sub.to_le_bytes());
        w(&(c.text.len() as u32).to_le_bytes());
        w(&(c.aux.len() as u32).to_le_bytes());
        w(&(c.nums.len() as u32).to_le_bytes());
        w(&c.text);
        w(&c.aux);
        for n in &c.nums {
            w(&n.to_le_bytes());
        }
        base[0] = 1;
    }
    fn clear(&self, slot: usize) {
        unsafe { *self.0.add(slot * SLOT) = 0 };
    }
    fn read(path: &Path) -> Vec<(u32, Case)> {
        let data = std::fs::read(path).unwrap_or_default();
        let mut out = vec![];
        for s in data.chunks(SLOT) {
            if s.len() < SLOT || s[0] != 1 {
                continue;
            }
            let u = |i: usize| u32::from_le_bytes(s[i..i + 4].try_into().unwrap());
            let (tl, al, nl) = (u(8) as usize, u(12) as usize, u(16) as usize);
            let mut at = 20;
            let text = s[at..at + tl].to_vec();
            at += tl;
            let aux = s[at..at + al].to_vec();
            at += al;
            let nums = (0..nl).map(|i| u64::from_le_bytes(s[at + 8 * i..at + 8 * i + 8].try_into().unwrap())).collect();
            out.push((u(4), Case { text, aux, nums }));
        }
        out
    }
}

// ---------------------------------------------------------------- running one case

fn eval(sub: &Sub, c: &Case, env: &mut Env) -> Result<Info, Bad> {
    match catch_unwind(AssertUnwindSafe(|| (sub.check)(c, env))) {
        Ok(r) => r,
        Err(e) => Err(Bad::Abort(format!("the harness itself panicked: {}", panic_text(e)))),
    }
}

fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        LAST_PANIC.with(|l| {
            *l.borrow_mut() = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default()
        });
    }));
}

fn seed_bytes(parts: &[u64]) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut h = Fnv::new();
    for (i, p) in parts.iter().enumerate() {
        h.put(&p.to_le_bytes());
        h.put(&[i as u8]);
    }
    let mut x = h.0;
    for o in out.chunks_mut(8) {
        // splitmix64
        x = x.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^= z >> 31;
        o.copy_from_slice(&z.to_le_bytes());
    }
    out
}

struct Found {
    sub: usize,
    case: Case,
    msg: String,
}

struct Shared<'a> {
    prop: &'a Prop,
    tier: Tier,
    seed: u64,
    tasks: Vec<(usize, u64, u64)>, // sub, from, to
    next: AtomicUsize,
    stop: AtomicBool,
    found: Mutex<Option<Found>>,
    aborted: Mutex<Option<String>>,
    journal: Journal,
    known: HashSet<u64>,
    mutate: u64,
    deadline: Instant,
    truncated: AtomicBool,
    // watchdog data per slot
    pth: Vec<AtomicU64>,
    case_no: Vec<AtomicU64>,
    in_lib: Vec<AtomicBool>,
    small: Vec<AtomicBool>,
    alive: AtomicI32,
}

const CHUNK_GEN: u64 = 32;
const CHUNK_ENUM: u64 = 64;
const SMALL: usize = 1024;

fn worker_thread(sh: &Shared, slot: usize, scratch: &Path) -> Vec<Stats> {
    let dir = scratch.join(format!("w{}", slot));
    std::fs::create_dir_all(&dir).unwrap();
    let mut env = Env { slot, dir, tier: sh.tier };
    sh.pth[slot].store(unsafe { libc::pthread_self() } as u64, Ordering::SeqCst);
    let mut stats: Vec<Stats> = vec![Stats::default(); sh.prop.subs.len()];
    let mut no = 0u64;
    'tasks: while !sh.stop.load(Ordering::SeqCst) {
        if Instant::now() > sh.deadline {
            sh.truncated.store(true, Ordering::SeqCst);
            break;
        }
        let i = sh.next.fetch_add(1, Ordering::SeqCst);
        if i >= sh.tasks.len() {
            break;
        }
        let (si, from, to) = sh.tasks[i];
        let sub = &sh.prop.subs[si];
        let mut run = |c: &Case, env: &mut Env, st: Option<&mut Stats>| -> Result<Info, Bad> {
            no += 1;
            if sub.inproc {
                sh.journal.put(slot, si as u32, c);
                sh.small[slot].store(c.text.len() <= SMALL, Ordering::SeqCst);
                sh.in_lib[slot].store(true, Ordering::SeqCst);
            }
            sh.case_no[slot].store(no, Ordering::SeqCst);
            let r = eval(sub, c, env);
            if sub.inproc {
                sh.in_lib[slot].store(false, Ordering::SeqCst);
                sh.journal.clear(slot);
            }
            if let Some(st) = st {
                match &r {
                    Ok(info) => {
                        st.evaluations += 1;
                        generic_labels(c, st);
                        for l in &info.labels {
                            *st.labels.entry(l).or_insert(0) += 1;
                        }
                        st.max_len = st.max_len.max(c.text.len());
                        if info.nontrivial && st.nontrivial.insert(c.hash64()) && st.samples.len() < 3 && st.nontrivial.len() % 37 == 1 {
                            st.samples.push(c.brief());
                        }
                    }
                    Err(Bad::Discard) => st.discards += 1,
                    _ => {}
                }
            }
            r
        };
        let mut failed: Option<(Case, String, Option<Box<dyn ValueTree<Value = Case>>>)> = None;
        match &sub.source {
            Source::Enum { make, .. } => {
                for k in from..to {
                    if sh.stop.load(Ordering::SeqCst) {
                        break 'tasks;
                    }
                    let c = make(k);
                    match run(&c, &mut env, Some(&mut stats[si])) {
                        Err(Bad::Fail(m)) => {
                            if is_known(sh, si, &c, &mut stats[si]) {
                                continue;
                            }
                            failed = Some((c, m, None));
                            break;
                        }
                        Err(Bad::Abort(m)) => {
                            abort(sh, format!("{}: {} on {}", sub.name, m, c.brief()));
                            break 'tasks;
                        }
                        _ => {}
                    }
                    if let Some((d, m)) = mutants(&c, sh.mutate, &mut |d| run(d, &mut env, None)) {
                        failed = Some((d, m, None));
                        break;
                    }
                }
            }
            Source::Gen { strat, .. } => {
                let seed = seed_bytes(&[sh.seed, hash_str(sh.prop.id), hash_str(sub.name), from]);
                let cfg = Config { failure_persistence: None, ..Config::default() };
                let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
                let s = strat();
                for _ in from..to {
                    if sh.stop.load(Ordering::SeqCst) {
                        break 'tasks;
                    }
                    let tree = match s.new_tree(&mut runner) {
                        Ok(t) => t,
                        Err(e) => {
                            abort(sh, format!("{}: generator failed: {}", sub.name, e));
                            break 'tasks;
                        }
                    };
                    let c = tree.current();
                    match run(&c, &mut env, Some(&mut stats[si])) {
                        Err(Bad::Fail(m)) => {
                            if is_known(sh, si, &c, &mut stats[si]) {
                                continue;
                            }
                            failed = Some((c, m, Some(Box::new(tree))));
                            break;
                        }
                        Err(Bad::Abort(m)) => {
                            abort(sh, format!("{}: {} on {}", sub.name, m, c.brief()));
                            break 'tasks;
                        }
                        _ => {}
                    }
                    if let Some((d, m)) = mutants(&c, sh.mutate, &mut |d| run(d, &mut env, None)) {
                        failed = Some((d, m, None));
                        break;
                    }
                }
            }
        }
        if let Some((c, m, tree)) = failed {
            {
                let mut f = sh.found.lock().unwrap();
                if f.is_some() {
                    break 'tasks;
                }
                *f = Some(Found { sub: si, case: c.clone(), msg: m.clone() });
                sh.stop.store(true, Ordering::SeqCst);
            }
            let (c, m) = shrink(c, m, tree, &mut |c: &Case| match run(c, &mut env, None) {
                Err(Bad::Fail(m)) => Some(m),
                _ => None,
            });
            *sh.found.lock().unwrap() = Some(Found { sub: si, case: c, msg: m });
            break 'tasks;
        }
    }
    sh.alive.fetch_sub(1, Ordering::SeqCst);
    stats
}

/// self-test (VP_MUTATE=n): the variations of passing cases that shrinking might try must not fail either,
/// as a check must discard what lies outside its domain
fn mutants(c: &Case, n: u64, run: &mut dyn FnMut(&Case) -> Result<Info, Bad>) -> Option<(Case, String)> {
    let mut x = c.hash64() | 1;
    let mut rnd = move |k: usize| {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        if k == 0 {
            0
        } else {
            (x >> 11) as usize % k
        }
    };
    let mut d = c.clone();
    for i in 0..n {
        if i % 8 == 0 {
            d = c.clone();
        }
        for _ in 0..1 + rnd(3) {
            match rnd(6) {
                k @ 0..=3 => {
                    let v = if k % 2 == 0 { &mut d.text } else { &mut d.aux };
                    if k < 2 {
                        let a = rnd(v.len() + 1);
                        let b = if rnd(4) == 0 { v.len() } else { (a + 1 + rnd(v.len())).min(v.len()) };
                        v.drain(a.min(b)..b);
                    } else if !v.is_empty() {
                        let b = v[rnd(v.len())];
                        let r = [b'a', b'b', b'0', 1][rnd(4)];
                        v.iter_mut().filter(|y| **y == b).for_each(|y| *y = r);
                    }
                }
                _ => {
                    if !d.nums.is_empty() {
                        let j = rnd(d.nums.len());
                        d.nums[j] = if rnd(3) == 0 { 0 } else { rnd(d.nums[j].min(1 << 40) as usize + 1) as u64 };
                    }
                }
            }
        }
        if let Err(Bad::Fail(m)) = run(&d) {
            return Some((d, format!("[self-test] {}", m)));
        }
    }
    None
}

fn is_known(sh: &Shared, si: usize, c: &Case, st: &mut Stats) -> bool {
    if sh.known.is_empty() {
        return false;
    }
    let h = c.hash64() ^ hash_str(sh.prop.subs[si].name);
    if sh.known.contains(&h) {
        *st.known.entry(format!("{:016x}", h)).or_insert(0) += 1;
        return true;
    }
    false
}

fn abort(sh: &Shared, m: String) {
    sh.aborted.lock().unwrap().get_or_insert(m);
    sh.stop.store(true, Ordering::SeqCst);
}

// ---------------------------------------------------------------- shrinking

fn shrink(
    case: Case,
    msg: String,
    tree: Option<Box<dyn ValueTree<Value = Case>>>,
    fails: &mut dyn FnMut(&Case) -> Option<String>,
) -> (Case, String) {
    let t0 = Instant::now();
    let mut best = case;
    let mut bmsg = msg;
    if let Some(mut tree) = tree {
        let mut ok = tree.simplify();
        let mut it = 0;
        while ok && it < 2000 && t0.elapsed() < Duration::from_secs(20) {
            it += 1;
            let c = tree.current();
            match fails(&c) {
                Some(m) => {
                    best = c;
                    bmsg = m;
                    ok = tree.simplify();
                }
                None => ok = tree.complicate(),
            }
        }
    }
    // delta debugging on the concrete case
    let end = Instant::now() + Duration::from_secs(25);
    let mut progress = true;
    while progress && Instant::now() < end {
        progress = false;
        for field in 0..2 {
            let get = |c: &Case| if field == 0 { c.text.clone() } else { c.aux.clone() };
            let set = |c: &Case, v: Vec<u8>| {
                let mut d = c.clone();
                if field == 0 {
                    d.text = v
                } else {
                    d.aux = v
                }
                d
            };
            let mut size = get(&best).len();
            while size > 0 && Instant::now() < end {
                let mut at = 0;
                while at < get(&best).len() && Instant::now() < end {
                    let v = get(&best);
                    let mut w = v[..at].to_vec();
                    w.extend_from_slice(&v[(at + size).min(v.len())..]);
                    let d = set(&best, w);
                    if let Some(m) = fails(&d) {
                        best = d;
                        bmsg = m;
                        progress = true;
                    } else {
                        at += size;
                    }
                }
                size /= 2;
            }
            // simpler bytes: replace all occurrences of a byte value
            let mut vals: Vec<u8> = get(&best);
            vals.sort();
            vals.dedup();
            for b in vals {
                for r in [b'a', b'b', b'0', 1u8] {
                    if r == b || Instant::now() > end || (b == b'a') || (b == b'b' && r != b'a') {
                        continue;
                    }
                    let d = set(&best, get(&best).iter().map(|&x| if x == b { r } else { x }).collect());
                    if let Some(m) = fails(&d) {
                        best = d;
                        bmsg = m;
                        progress = true;
                        break;
                    }
                }
            }
        }
        for i in 0..best.nums.len() {
            let mut step = best.nums[i];
            while step > 0 && Instant::now() < end {
                let mut d = best.clone();
                d.nums[i] = d.nums[i].saturating_sub(step);
                if d.nums[i] != best.nums[i] {
                    if let Some(m) = fails(&d) {
                        best = d;
                        bmsg = m;
                        progress = true;
                        step = step.min(best.nums[i]);
                        if step == 0 {
                            break;
                        }
                        continue;
                    }
                }
                step /= 2;
            }
        }
    }
    (best, bmsg)
}

// ---------------------------------------------------------------- process level

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn replay_path(id: &str, sub: &str, c: &Case) -> PathBuf {
    let d = verif_dir().join("replays");
    std::fs::create_dir_all(&d).unwrap();
    d.join(format!("{}-{}-{:016x}.json", id, sub, c.hash64() ^ hash_str(sub)))
}

fn write_replay(id: &str, sub: &str, c: &Case, msg: &str) -> PathBuf {
    let p = replay_path(id, sub, c);
    let j = serde_json::json!({"property": id, "sub": sub, "case": c, "key": format!("{:016x}", c.hash64() ^ hash_str(sub)), "failure": msg});
    std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap() + "\n").unwrap();
    p
}

/// "finding: property=<id> key=<hex> <what>" lines
fn known_findings(id: &str) -> Vec<(u64, String)> {
    let s = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("finding: ") {
            let mut it = r.splitn(3, ' ');
            let (p, k, what) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            if p == format!("property={}", id) {
                if let Some(k) = k.strip_prefix("key=").and_then(|k| u64::from_str_radix(k, 16).ok()) {
                    out.push((k, what.to_string()));
                }
            }
        }
    }
    out
}

fn write_evidence(prop: &Prop, tier: Tier, seed: u64, stats: &[Stats], wall: f64, violations: u64, truncated: bool) {
    let evaluations: u64 = stats.iter().map(|s| s.evaluations).sum();
    let distinct: u64 = stats.iter().map(|s| s.nontrivial.len() as u64).sum();
    let mut samples = vec![];
    let mut subs = vec![];
    for (s, st) in prop.subs.iter().zip(stats) {
        for x in &st.samples {
            let mut m = x.clone();
            m["sub"] = s.name.into();
            samples.push(m);
        }
        let (kind, complete) = match &s.source {
            Source::Enum { n, .. } => {
                let want = *n;
                ("exhaustive enumeration", st.evaluations + st.discards == want)
            }
            Source::Gen { .. } => ("proptest generation", false),
        };
        subs.push(serde_json::json!({
            "sub": s.name, "what": s.about, "source": kind, "enumerated_completely": complete,
            "evaluations": st.evaluations, "distinct_nontrivial": st.nontrivial.len(), "outside_domain": st.discards,
            "longest_text": st.max_len, "classes": st.labels,
        }));
    }
    if samples.is_empty() {
        samples.push(serde_json::json!("no non-trivial case was run"));
    }
    let ev = serde_json::json!({
        "property": prop.id, "tier": tier.name(), "seed": seed, "level": prop.level,
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": distinct, "rule": prop.rule,
            "samples": samples, "sub_checks": subs, "stopped_at_deadline": truncated,
            "exhaustive": false,
        },
        "assumptions": prop.assumptions, "wall_s": wall, "violations": violations,
    });
    let d = verif_dir().join("evidence");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join(format!("{}.json", prop.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
}

fn run_worker(prop: &Prop, tier: Tier, seed: u64, scratch: &Path, only: Option<&str>) -> i32 {
    let t0 = Instant::now();
    quiet_panics();
    unsafe {
        let l = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
    }
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).clamp(1, 16);
    let mut tasks = vec![];
    for (si, s) in prop.subs.iter().enumerate() {
        if only.is_some_and(|o| o != s.name) {
            continue;
        }
        let (n, chunk) = match &s.source {
            Source::Enum { n, .. } => (*n, CHUNK_ENUM),
            Source::Gen { n, .. } => (*n, CHUNK_GEN),
        };
        // chunks small enough to keep all threads busy
        let chunk = chunk.min((n / (threads as u64 * 3)).max(1));
        let mut a = 0;
        while a < n {
            tasks.push((si, a, (a + chunk).min(n)));
            a += chunk;
        }
    }
    let secs: u64 =
        std::env::var("VERIF_DEADLINE_S").ok().and_then(|s| s.parse().ok()).unwrap_or(tier.pick(600, 6 * 3600));
    let known = known_findings(prop.id);
    let sh = Shared {
        prop,
        tier,
        seed,
        tasks,
        next: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        found: Mutex::new(None),
        aborted: Mutex::new(None),
        journal: Journal::open(&scratch.join("journal"), threads),
        known: known.iter().map(|x| x.0).collect(),
        mutate: std::env::var("VP_MUTATE").ok().and_then(|s| s.parse().ok()).unwrap_or(0),
        deadline: t0 + Duration::from_secs(secs),
        truncated: AtomicBool::new(false),
        pth: (0..threads).map(|_| AtomicU64::new(0)).collect(),
        case_no: (0..threads).map(|_| AtomicU64::new(0)).collect(),
        in_lib: (0..threads).map(|_| AtomicBool::new(false)).collect(),
        small: (0..threads).map(|_| AtomicBool::new(false)).collect(),
        alive: AtomicI32::new(threads as i32),
    };
    let mut stats: Vec<Stats> = vec![Stats::default(); prop.subs.len()];
    std::thread::scope(|sc| {
        let shr = &sh;
        let hs: Vec<_> = (0..threads)
            .map(|i| {
                std::thread::Builder::new()
                    .stack_size(2 << 20)
                    .spawn_scoped(sc, move || worker_thread(shr, i, scratch))
                    .unwrap()
            })
            .collect();
        // watchdog
        let mut seen: Vec<(u64, f64)> = vec![(0, 0.0); threads];
        while sh.alive.load(Ordering::SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(20));
            if hs.iter().any(|h| h.is_finished()) && hs.iter().all(|h| h.is_finished()) {
                break;
            }
            tool::kill_stuck();
            for i in 0..threads {
                if !sh.in_lib[i].load(Ordering::SeqCst) {
                    seen[i] = (0, 0.0);
                    continue;
                }
                let no = sh.case_no[i].load(Ordering::SeqCst);
                let cpu = thread_cpu(sh.pth[i].load(Ordering::SeqCst));
                if seen[i].0 != no {
                    seen[i] = (no, cpu);
                } else {
                    let limit = if sh.small[i].load(Ordering::SeqCst) { 25.0 } else { 150.0 };
                    if cpu - seen[i].1 > limit && sh.in_lib[i].load(Ordering::SeqCst) {
                        unsafe { libc::_exit(77) };
                    }
                }
            }
        }
        for h in hs {
            match h.join() {
                Ok(st) => {
                    for (a, b) in stats.iter_mut().zip(st) {
                        a.evaluations += b.evaluations;
                        a.discards += b.discards;
                        a.nontrivial.extend(b.nontrivial);
                        a.max_len = a.max_len.max(b.max_len);
                        for (l, n) in b.labels {
                            *a.labels.entry(l).or_insert(0) += n;
                        }
                        for (l, n) in b.known {
                            *a.known.entry(l).or_insert(0) += n;
                        }
                        for s in b.samples {
                            if a.samples.len() < 3 {
                                a.samples.push(s);
                            }
                        }
                    }
                }
                Err(e) => abort(&sh, format!("a harness thread panicked: {}", panic_text(e))),
            }
        }
    });
    let found = sh.found.lock().unwrap().take();
    let truncated = sh.truncated.load(Ordering::SeqCst);
    write_evidence(prop, tier, seed, &stats, t0.elapsed().as_secs_f64(), found.is_some() as u64, truncated);
    for (k, what) in &known {
        println!("KNOWN-FINDING: property={} key={:016x} {}", prop.id, k, what);
    }
    if let Some(f) = found {
        let sub = prop.subs[f.sub].name;
        let p = write_replay(prop.id, sub, &f.case, &f.msg);
        println!("{} [{}] fails: {}", prop.id, sub, f.msg);
        println!("minimal case: {}", f.case.brief());
        println!("VIOLATION property={} replay={}", prop.id, p.display());
        return 1;
    }
    if let Some(m) = sh.aborted.lock().unwrap().take() {
        eprintln!("ERROR: {} could not be decided: {}", prop.id, m);
        return 2;
    }
    let ev: u64 = stats.iter().map(|s| s.evaluations).sum();
    let nt: usize = stats.iter().map(|s| s.nontrivial.len()).sum();
    println!(
        "{} held on {} cases ({} distinct non-trivial) in {:.1} s{}",
        prop.id,
        ev,
        nt,
        t0.elapsed().as_secs_f64(),
        if truncated { " (stopped at the deadline)" } else { "" }
    );
    if std::env::var("VP_VERBOSE").is_ok() {
        for (s, st) in prop.subs.iter().zip(&stats) {
            println!("  {:28} ev={} nt={} disc={} maxlen={} {:?}", s.name, st.evaluations, st.nontrivial.len(), st.discards, st.max_len, st.labels);
        }
    }
    0
}

fn thread_cpu(p: u64) -> f64 {
    if p == 0 {
        return 0.0;
    }
    unsafe {
        let mut id: libc::clockid_t = 0;
        if libc::pthread_getcpuclockid(p as libc::pthread_t, &mut id) != 0 {
            return 0.0;
        }
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(id, &mut ts) != 0 {
            return 0.0;
        }
        ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
    }
}

/// run a single stored case: 0 passes, 1 fails, 2 undecided
fn run_one(prop: &Prop, tier: Tier, file: &str, scratch: &Path) -> i32 {
    quiet_panics();
    let s = match std::fs::read_to_string(file) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("ERROR: cannot read {}: {}", file, e);
            return 2;
        }
    };
    let j: serde_json::Value = serde_json::from_str(&s).unwrap();
    let subname = j["sub"].as_str().unwrap_or("").to_string();
    let case: Case = serde_json::from_value(j["case"].clone()).unwrap();
    let Some(sub) = prop.subs.iter().find(|s| s.name == subname).cloned() else {
        eprintln!("ERROR: {} has no sub-check {}", prop.id, subname);
        return 2;
    };
    let dir = scratch.join("one");
    std::fs::create_dir_all(&dir).unwrap();
    let id = prop.id;
    let file = file.to_string();
    let done = Arc::new(AtomicBool::new(false));
    let d2 = done.clone();
    std::thread::spawn(move || {
        while !d2.load(Ordering::SeqCst) {
            std::thread::sleep(Duration::from_millis(200));
            tool::kill_stuck();
        }
    });
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let mut env = Env { slot: 0, dir, tier };
            match eval(&sub, &case, &mut env) {
                Ok(_) => {
                    println!("{} [{}] holds on {}", id, sub.name, case.brief());
                    0
                }
                Err(Bad::Fail(m)) => {
                    println!("{} [{}] fails: {}", id, sub.name, m);
                    println!("case: {}", case.brief());
                    println!("VIOLATION property={} replay={}", id, file);
                    1
                }
                Err(Bad::Discard) => {
                    println!("{} [{}]: the case is outside the domain", id, sub.name);
                    0
                }
                Err(Bad::Abort(m)) => {
                    eprintln!("ERROR: {}", m);
                    2
                }
            }
        })
        .unwrap()
        .join()
        .unwrap()
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn make_scratch() -> Scratch {
    for base in ["/dev/shm", "/tmp"] {
        let p = PathBuf::from(base).join(format!("vp-scratch-{}", std::process::id()));
        if std::fs::create_dir_all(&p).is_ok() {
            return Scratch(p);
        }
    }
    panic!("no scratch directory");
}

pub fn main(make: impl Fn(Tier) -> Vec<Prop>) -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let tier = if args.iter().any(|a| a == "thorough") {
        Tier::Thorough
    } else if args.iter().any(|a| a == "quick") {
        Tier::Quick
    } else if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") {
        Tier::Thorough
    } else {
        Tier::Quick
    };
    let props = make(tier);
    let usage = "usage: vp check|worker|one <id> [quick|thorough] [--sub name] [--replay file] | vp build | vp bins | vp ids";
    if args.is_empty() {
        eprintln!("{}", usage);
        return 2;
    }
    match args[0].as_str() {
        "ids" => {
            for p in &props {
                println!("{}", p.id);
            }
            return 0;
        }
        "bins" => {
            let mut b: Vec<_> = props.iter().flat_map(|p| p.bins.clone()).collect();
            b.sort();
            b.dedup();
            println!("{}", b.join(" "));
            return 0;
        }
        "build" => {
            let mut b: Vec<_> = props.iter().flat_map(|p| p.bins.clone()).collect();
            b.sort();
            b.dedup();
            if let Err(e) = tool::build_shim().and_then(|_| tool::build(&b, true)) {
                eprintln!("ERROR: {}", e);
                return 2;
            }
            return 0;
        }
        _ => {}
    }
    let Some(prop) = args.get(1).and_then(|id| props.iter().find(|p| p.id == id)) else {
        eprintln!("{}", usage);
        return 2;
    };
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let replay = opt("--replay");
    let only = opt("--sub");
    match args[0].as_str() {
        "worker" => run_worker(prop, tier, seed, Path::new(&opt("--scratch").unwrap()), only.as_deref()),
        "one" => run_one(prop, tier, &opt("--replay").unwrap(), Path::new(&opt("--scratch").unwrap())),
        "check" => {
            let rel = prop.release_too;
            if let Err(e) = tool::build_shim().and_then(|_| tool::build(&prop.bins, rel)) {
                eprintln!("ERROR: {}", e);
                return 2;
            }
            let scratch = make_scratch();
            let me = std::env::current_exe().unwrap();
            let spawn = |mode: &str, extra: &[&str]| {
                let mut c = std::process::Command::new(&me);
                c.arg(mode).arg(prop.id).arg(tier.name()).arg("--scratch").arg(&scratch.0).args(extra);
                c
            };
            if let Some(f) = replay {
                let st = spawn("one", &["--replay", &f]).status().unwrap();
                return match st.code() {
                    Some(c @ 0..=2) => c,
                    _ => {
                        println!("the replayed case kills the process: {:?}", st);
                        println!("VIOLATION property={} replay={}", prop.id, f);
                        1
                    }
                };
            }
            let t0 = Instant::now();
            let mut extra = vec![];
            if let Some(o) = &only {
                extra.extend(["--sub", o.as_str()]);
            }
            let st = spawn("worker", &extra).status().unwrap();
            if let Some(c @ 0..=2) = st.code() {
                return c;
            }
            // the worker died: find the case that kills it
            eprintln!("the worker ended abnormally ({:?}); looking for the case that causes it", st);
            for (si, case) in Journal::read(&scratch.0.join("journal")) {
                let Some(sub) = prop.subs.get(si as usize) else { continue };
                let msg = "the code under test kills the process (crash, memory exhaustion or endless loop)";
                let p = write_replay(prop.id, sub.name, &case, msg);
                let mut c = spawn("one", &["--replay", p.to_str().unwrap()]);
                let small = case.text.len() <= SMALL;
                unsafe {
                    use std::os::unix::process::CommandExt;
                    let cpu = if small { 60 } else { 400 };
                    c.pre_exec(move || {
                        let l = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 5 };
                        libc::setrlimit(libc::RLIMIT_CPU, &l);
                        let l = libc::rlimit { rlim_cur: 8 << 30, rlim_max: 8 << 30 };
                        libc::setrlimit(libc::RLIMIT_AS, &l);
                        Ok(())
                    });
                }
                let st = c.status().unwrap();
                use std::os::unix::process::ExitStatusExt;
                let bad = match (st.code(), st.signal()) {
                    (Some(1), _) => true,
                    (None, Some(libc::SIGXCPU)) => small,
                    (None, Some(libc::SIGKILL)) => false,
                    (None, Some(_)) => true,
                    _ => false,
                };
                if bad {
                    write_evidence(prop, tier, seed, &vec![Stats::default(); prop.subs.len()], t0.elapsed().as_secs_f64(), 1, false);
                    println!("{} [{}] fails: {} ({:?})", prop.id, sub.name, msg, st);
                    println!("case: {}", case.brief());
                    println!("VIOLATION property={} replay={}", prop.id, p.display());
                    return 1;
                }
                let _ = std::fs::remove_file(p);
            }
            eprintln!("ERROR: {} could not be decided: the worker ended with {:?}", prop.id, st);
            2
        }
        _ => {
            eprintln!("{}", usage);
            2
        }
    }
}
