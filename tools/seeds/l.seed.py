SEEDS = [
dict(id="C24-pid-seed", property="C24",
  needs="two runs with the same process number, as the first process of a container has",
  what_it_breaks="the random generator is seeded by the process number, so such runs print the same string",
  edits=[("src/bin/randomstring.rs", "    let mut rng = rand::thread_rng();\n", """    //@ every run is another process, so this differs between runs
    let mut rng = <rand::rngs::StdRng as rand::SeedableRng>::seed_from_u64(std::process::id() as u64);
""")],
  demo='''
build("randomstring")
stub = """
int getpid(void) { return 7; }
"""
with tempfile.TemporaryDirectory() as d:
    open(d + "/p.c", "w").write(stub)
    subprocess.run(["gcc", "-shared", "-fPIC", "-o", d + "/p.so", d + "/p.c"], check=True)
    out = [subprocess.run([exe("randomstring"), "-a", "0", "-p", "60"], stdout=subprocess.PIPE, env=dict(ENV, LD_PRELOAD=d + "/p.so")).stdout for _ in range(2)]
    check(len(out[0]) == 60 and out[0] != out[1], out)
'''),
dict(id="C36-infer", property="C36",
  needs="the beginning of the name of an option",
  what_it_breaks="bwt guesses options from the beginnings of their names",
  edits=[("src/bin/bwt.rs", "#[command(author, version, about, long_about = None)]\n", "#[command(author, version, about, long_about = None, infer_long_args = true)]\n")],
  demo='''
build("bwt")
check(run("bwt", ["--use-m"], b"abc")[0] != 0, "abbreviation answered")
check(run("bwt", ["--use-matrix"], b"abc")[0] == 0, "full name refused")
'''),
dict(id="C37-lazy-create", property="C37",
  needs="an empty output and an output file that is missing or has older contents",
  what_it_breaks="the output file is opened at the first byte, so nothing happens to it if there is none",
  edits=[("src/io.rs", "            Box::new(std::fs::File::create(path).unwrap()) as Box<dyn std::io::Write>\n",
  "            Box::new(LateFile(path.to_path_buf(), None)) as Box<dyn std::io::Write>\n"),
  ("src/io.rs", "/// open an file for output or use stdout if no filename is given\n", """/// a file that is created as soon as there is something to write
struct LateFile(std::path::PathBuf, Option<std::fs::File>);
impl std::io::Write for LateFile {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if self.1.is_none() {
            self.1 = Some(std::fs::File::create(&self.0)?);
        }
        self.1.as_mut().unwrap().write(buf)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.1.as_mut().map_or(Ok(()), |f| f.flush())
    }
}

/// open an file for output or use stdout if no filename is given
""")],
  demo='''
build("mtf")
with tempfile.TemporaryDirectory() as d:
    open(d + "/out", "w").write("older")
    check(run("mtf", ["-o", d + "/out"], b"")[0] == 0, "status")
    check(open(d + "/out", "rb").read() == b"", "older contents")
    check(run("mtf", ["-o", d + "/new"], b"")[0] == 0 and os.path.exists(d + "/new"), "new file")
'''),
dict(id="C07-recursive", property="C07",
  needs="two suffixes with a common prefix of ten thousands of symbols",
  what_it_breaks="two suffixes are compared by a recursion over their symbols, which overflows the stack",
  edits=[("src/core.rs", "        asuffix.cmp(bsuffix)\n", """        //@ the first difference decides
        fn compare<C: Ord>(a: &[C], b: &[C]) -> std::cmp::Ordering {
            let end = a.len().min(b.len());
            if end == 0 {
                return a.len().cmp(&b.len());
            }
            let first = a[0].cmp(&b[0]);
            let rest = || compare(&a[1..], &b[1..]).then_with(|| std::hint::black_box(first));
            if first.is_eq() { std::hint::black_box(rest()) } else { first }
        }
        compare(asuffix, bsuffix)
""")],
  demo='''
check(lib("""
fn main() {
    // a random text twice: the latter half of the positions is each followed by its copy
    let n = 150_000;
    let mut z = 1u64;
    let u: Vec<u8> = (0..n).map(|_| { z = z.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (z >> 40) as u8 }).collect();
    let t = [&u[..], &u[..]].concat();
    let sa = stringology::core::suffixarray_naive(&t);
    assert_eq!(sa.len(), 2 * n);
    for w in sa.windows(2) { assert!(t[w[0]..] < t[w[1]..]); }
}
""") == 0, "suffix array")
'''),
dict(id="C03-recursive", property="C03",
  needs="two rotations of Lyndon factors that agree on tens of thousands of symbols",
  what_it_breaks="the rotations are compared over at most 20000 symbols",
  edits=[("src/core.rs", "        while len < alen * blen {\n", "        while len < (alen * blen).min(20_000) {\n")],
  demo='''
check(lib("""
fn main() {
    // the factors (a^n b) and (a^m b) agree on their first n symbols
    let (n, m) = (20100, 20050);
    let mut t = vec![b'a'; m];
    t.push(b'b');
    t.extend(vec![b'a'; n]);
    t.push(b'b');
    t.extend(b"aab");
    let b = stringology::core::bbwt_naive(&t);
    // the largest rotations are those that start with b, and the least ones those with the longest runs of a
    assert_eq!(b.len(), t.len());
    let sorted = { let mut s = t.clone(); s.sort(); s };
    let mut starts: std::collections::HashMap<u8, usize> = Default::default();
    let mut lf = vec![];
    let mut c = [0usize; 256];
    for &x in &b { let k = c[x as usize]; c[x as usize] += 1; let s = *starts.entry(x).or_insert_with(|| sorted.iter().position(|&y| y == x).unwrap()); lf.push(s + k); }
    // the cycles of the mapping spell the factors
    let mut seen = vec![false; b.len()];
    let mut factors: Vec<Vec<u8>> = vec![];
    for i in 0..b.len() { if !seen[i] { let mut w = vec![]; let mut j = i; while !seen[j] { seen[j] = true; w.push(b[j]); j = lf[j]; } w.reverse(); factors.push(w); } }
    factors.reverse();
    assert!(factors.concat() == t);
}
""") == 0, "bijective BWT")
'''),
]
