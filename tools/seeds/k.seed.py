SEEDS = [
dict(id="C37-temp-rename", property="C37",
  needs="an output file that is a link or a pipe, or a file of this name with .tmp behind it",
  what_it_breaks="bwt writes a temporary file and renames it, which replaces links and pipes by a file",
  edits=[("src/bin/bwt.rs", """    let mut writer = io::stream_or_stdout(core::stringopt_stropt(&args.outfilename));
    writer.write_all(bwt.as_slice()).unwrap();
    writer.flush().unwrap();
""", """    //@ nobody sees an incomplete output file
    let tempname = args.outfilename.as_ref().map(|f| format!("{}.tmp", f));
    let mut writer = io::stream_or_stdout(core::stringopt_stropt(&tempname));
    writer.write_all(bwt.as_slice()).unwrap();
    writer.flush().unwrap();
    if let (Some(from), Some(to)) = (&tempname, &args.outfilename) {
        std::fs::rename(from, to).unwrap();
    }
""")],
  demo='''
build("bwt")
with tempfile.TemporaryDirectory() as d:
    open(d + "/target", "w").write("older")
    os.symlink("target", d + "/out")
    check(run("bwt", ["-o", d + "/out"], b"banana")[0] == 0, "status")
    check(os.path.islink(d + "/out"), "link")
    check(open(d + "/target", "rb").read() == b"annb\\0aa", "target")
    check(sorted(os.listdir(d)) == ["out", "target"], "files")
'''),
dict(id="C37-remove-first", property="C37",
  needs="an output file with a second name, or reached through a link",
  what_it_breaks="an older output file is removed and made anew",
  edits=[("src/io.rs", "            Box::new(std::fs::File::create(path).unwrap()) as Box<dyn std::io::Write>\n",
  """            //@ another program may still read the old contents
            if path.is_file() {
                std::fs::remove_file(path).unwrap();
            }
            Box::new(std::fs::File::create(path).unwrap()) as Box<dyn std::io::Write>
""")],
  demo='''
build("reverse")
with tempfile.TemporaryDirectory() as d:
    open(d + "/out", "w").write("older")
    os.link(d + "/out", d + "/second")
    check(run("reverse", ["-o", d + "/out"], b"abc")[0] == 0, "status")
    check(open(d + "/out", "rb").read() == b"cba", "out")
    check(open(d + "/second", "rb").read() == b"cba", "second")
'''),
dict(id="C37-spool", property="C37",
  needs="two tools that read their standard input at the same time",
  what_it_breaks="the standard input is spooled to a file of a fixed name, in which simultaneous runs mix their texts",
  edits=[("src/io.rs", """    } else {
        let mut buffer = Vec::new();
        reader.read_to_end(&mut buffer).unwrap();
        buffer
    }
""", """    } else {
        //@ collect the input in a file, as its length is unknown
        let spool = std::env::temp_dir().join("stringology.input");
        let mut file = std::fs::File::create(&spool).unwrap();
        std::io::copy(&mut reader, &mut file).unwrap();
        let buffer = std::fs::read(&spool).unwrap();
        let _ = std::fs::remove_file(&spool);
        buffer
    }
""")],
  demo='''
import time
build("reverse")
with tempfile.TemporaryDirectory() as d:
    env = dict(ENV, TMPDIR=d)
    p = [subprocess.Popen([exe("reverse")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env) for _ in range(2)]
    for x, t in zip(p, (b"a" * 9000, b"b" * 7000)):
        x.stdin.write(t); x.stdin.flush()
    time.sleep(0.3)
    out = [x.communicate()[0] for x in p]
    check(out == [b"a" * 9000, b"b" * 7000], [len(o) for o in out])
'''),
dict(id="C08-byte-order", property="C08",
  needs="an array whose entries are one byte large, but not unsigned numbers",
  what_it_breaks="the next smaller values of arrays of one-byte entries are computed on the bytes, whatever order the type defines",
  edits=[("src/core.rs", "pub fn compute_nsv<T: Ord>(arr: &[T]) -> Vec<u32> {\n", """pub fn compute_nsv<T: Ord>(arr: &[T]) -> Vec<u32> {
    if std::mem::size_of::<T>() == 1 {
        //@ one instance is enough for all byte types
        let bytes = unsafe { std::slice::from_raw_parts(arr.as_ptr() as *const u8, arr.len()) };
        let wide: Vec<u16> = bytes.iter().map(|&x| x as u16).collect();
        return compute_nsv(&wide);
    }
""")],
  demo='''
check(lib("""
use std::cmp::Reverse;
fn main() {
    let a: Vec<i8> = vec![3, -1, 5, -7, 2];
    assert_eq!(stringology::core::compute_nsv(&a), [1, 3, 3, u32::MAX, u32::MAX]);
    let r: Vec<Reverse<u8>> = vec![Reverse(1), Reverse(3), Reverse(2)];
    assert_eq!(stringology::core::compute_nsv(&r), [1, u32::MAX, u32::MAX]);
    assert_eq!(stringology::core::compute_nsv(&[3u8, 1, 2]), [1, u32::MAX, u32::MAX]);
}
""") == 0, "nsv")
'''),
dict(id="C05-bytewise-eq", property="C05",
  needs="symbols of one byte of which different ones are equal, such as letters without regard to case",
  what_it_breaks="the border array of one-byte symbols compares bytes instead of symbols",
  edits=[("src/core.rs", "pub fn border_array<C: Eq>(text: &[C]) -> Vec<usize> {\n", """pub fn border_array<C: Eq>(text: &[C]) -> Vec<usize> {
    if std::mem::size_of::<C>() == 1 {
        let bytes = unsafe { std::slice::from_raw_parts(text.as_ptr() as *const u8, text.len()) };
        let wide: Vec<u16> = bytes.iter().map(|&x| x as u16).collect();
        return border_array(&wide);
    }
""")],
  demo='''
check(lib("""
struct L(u8);
impl PartialEq for L {
    fn eq(&self, o: &L) -> bool { self.0.eq_ignore_ascii_case(&o.0) }
}
impl Eq for L {}
fn main() {
    let t: Vec<L> = b"abAb".iter().map(|&b| L(b)).collect();
    assert_eq!(stringology::core::border_array(&t), stringology::core::border_array(b"abab"));
    assert!(!stringology::core::is_primitive(&t));
}
""") == 0, "border array")
'''),
dict(id="C06-byte-duval", property="C06",
  needs="symbols of one byte whose order is not that of unsigned numbers",
  what_it_breaks="Duval's algorithm orders one-byte symbols as bytes",
  edits=[("src/core.rs", "pub fn duval<C: Ord>(text: &[C]) -> Vec<usize> {\n", """pub fn duval<C: Ord>(text: &[C]) -> Vec<usize> {
    if std::mem::size_of::<C>() == 1 {
        let bytes = unsafe { std::slice::from_raw_parts(text.as_ptr() as *const u8, text.len()) };
        let wide: Vec<u16> = bytes.iter().map(|&x| x as u16).collect();
        return duval(&wide);
    }
""")],
  demo='''
check(lib("""
fn main() {
    let t: Vec<i8> = vec![1, -1, 1, -1];
    assert_eq!(stringology::core::lyndon_conjugate(&t) % 2, 1);
    assert_eq!(stringology::core::duval(&t), [0, 2, 3]);
    assert_eq!(stringology::core::duval(b"abab"), [1, 3]);
}
""") == 0, "duval")
'''),
dict(id="C03-rank-bytes", property="C03",
  needs="a text over more than 256 different symbols",
  what_it_breaks="the bijective BWT compares symbols by a rank that is kept in a byte",
  edits=[("src/core.rs", "    assert_eq!(conjugates.len(), n);\n    conjugates.sort_by(|a, b| {\n", """    assert_eq!(conjugates.len(), n);
    //@ comparing ranks is cheaper than comparing symbols
    let ranks: Vec<u8> = {
        let mut symbols: Vec<C> = text.to_vec();
        symbols.sort();
        symbols.dedup();
        text.iter()
            .map(|c| symbols.binary_search(c).unwrap() as u8)
            .collect()
    };
    conjugates.sort_by(|a, b| {
"""),
  ("src/core.rs", "            let char_a = text[a.lyndon_start + ((a.index + len) % alen)];\n            let char_b = text[b.lyndon_start + ((b.index + len) % blen)];\n",
   "            let char_a = ranks[a.lyndon_start + ((a.index + len) % alen)];\n            let char_b = ranks[b.lyndon_start + ((b.index + len) % blen)];\n")],
  demo='''
check(lib("""
fn main() {
    let t: Vec<u32> = (0..300).rev().collect();
    assert_eq!(stringology::core::bbwt_naive(&t), (0..300).collect::<Vec<u32>>());
}
""") == 0, "bijective BWT")
'''),
dict(id="C10-packed", property="C10",
  needs="a factor of at least 2^20 symbols",
  what_it_breaks="a factor of the lex-parse is packed into a word with 20 bits for its length, which spill into the position",
  edits=[("src/bin/count_lexparse.rs", """struct LZFactor {
    pos: u32,
    len: u32,
}
""", """struct LZFactor {
    packed: u64, //@ position and length
}
const LENGTH_BITS: u32 = 20;
impl LZFactor {
    fn new(pos: u32, len: u32) -> LZFactor {
        LZFactor {
            packed: ((pos as u64) << LENGTH_BITS) + len as u64,
        }
    }
    fn pos(&self) -> u64 {
        self.packed >> LENGTH_BITS
    }
    fn len(&self) -> u64 {
        self.packed & ((1 << LENGTH_BITS) - 1)
    }
}
"""),
  ("src/bin/count_lexparse.rs", """            factors.push(LZFactor {
                len: 0,
                pos: text[i] as u32,
            });
""", "            factors.push(LZFactor::new(text[i] as u32, 0));\n"),
  ("src/bin/count_lexparse.rs", """        factors.push(LZFactor {
            len: plcp[i],
            pos: phi[i] as u32,
        });
""", "        factors.push(LZFactor::new(phi[i] as u32, plcp[i]));\n"),
  ("src/bin/count_lexparse.rs", 'format!("({},{})", fact.pos, fact.len)', 'format!("({},{})", fact.pos(), fact.len())')],
  demo='''
build("count_lexparse", release=True)
with tempfile.TemporaryDirectory() as d:
    n = (1 << 20) + 10
    check(run("count_lexparse", ["-o", d + "/f"], b"a" * n, release=True)[0] == 0, "status")
    check(open(d + "/f").read() == "(1,%d)(97,0)" % (n - 1), open(d + "/f").read())
'''),
dict(id="C14-four-mebibytes", property="C14",
  needs="a run that crosses the end of a block of 4 MiB",
  what_it_breaks="the runs are counted in blocks of 4 MiB, and a run that crosses the end of a block twice",
  edits=[("src/core.rs", """            let mut run_counter = 1; //@ counts the number of character runs
            let mut prev_char = first_char; //@ the current character of the chracter run
            loop {
""", """            let mut run_counter = 1; //@ counts the number of character runs
            let mut prev_char = first_char; //@ the current character of the chracter run
            let mut position: usize = 0;
            loop {
                position += 1;
"""),
  ("src/core.rs", "                        if next_char != prev_char {\n", "                        if next_char != prev_char || position % (4 << 20) == 0 {\n")],
  demo='''
build("count_runs", release=True)
check(run("count_runs", [], b"a" * ((4 << 20) + 5), release=True)[1] == b"1\\n", "runs")
'''),
dict(id="C18-fasta", property="C18",
  needs="an input file whose name ends with .fa, which contains newlines",
  what_it_breaks="newlines are left out of input files with the suffix .fa",
  edits=[("src/io.rs", "    f.take(limit).read_to_end(&mut buffer).unwrap();\n    buffer\n", """    f.take(limit).read_to_end(&mut buffer).unwrap();
    if filename.ends_with(".fa") {
        buffer.retain(|&c| c != b'\\n'); //@ sequences span several lines
    }
    buffer
""")],
  demo='''
build("reverse", "count_sigma")
with tempfile.TemporaryDirectory() as d:
    open(d + "/x.fa", "wb").write(b"ACGT\\nAC\\n")
    check(run("reverse", ["-i", d + "/x.fa"])[1] == b"\\nCA\\nTGCA", "reverse")
'''),
dict(id="C32-called-tac", property="C32",
  needs="a call by the name of tac",
  what_it_breaks="reverse behaves as the tool tac if it is called by this name",
  edits=[("src/bin/reverse.rs", "    text.reverse();\n", """    if std::env::args().next().map_or(false, |name| name.ends_with("tac")) {
        //@ reverses the order of the lines only
        text = text
            .split_inclusive(|&c| c == b'\\n')
            .rev()
            .collect::<Vec<_>>()
            .concat();
    } else {
        text.reverse();
    }
""")],
  demo='''
build("reverse")
for name in ["reverse", "tac", "/usr/bin/tac"]:
    r = subprocess.run([name], executable=exe("reverse"), input=b"ab\\ncd\\n", stdout=subprocess.PIPE, env=ENV)
    check(r.stdout == b"\\ndc\\nba", (name, r.stdout))
'''),
]
