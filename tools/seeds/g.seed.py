SEEDS = [
dict(id="C05-prime", property="C05",
  needs="a unary sequence whose length is a prime above 64",
  what_it_breaks="a sequence of prime length is taken for primitive without looking at it, although it may be unary",
  edits=[("src/core.rs", "    let border = border_array(text);\n    let period = smallest_period(&border);\n    if period == text.len() {", "    let n = text.len();\n    //@ the length of a proper root divides the length of the text\n    if n > 64 && (2..).take_while(|d| d * d <= n).all(|d| n % d != 0) {\n        return true;\n    }\n    let border = border_array(text);\n    let period = smallest_period(&border);\n    if period == text.len() {")],
  demo='''
rc = lib("""fn main() {
    for n in 2..200usize {
        assert!(!stringology::core::is_primitive(&vec![1u8; n]), "{}", n);
        let mut t = vec![1u8; n]; t[0] = 0;
        assert!(stringology::core::is_primitive(&t), "{}", n);
    }
}""")
check(rc == 0, rc)
'''),
dict(id="C07-u16", property="C07",
  needs="a permutation of more than 65536 elements",
  what_it_breaks="the positions of the inverse permutation are converted by way of a 16-bit integer",
  edits=[("src/core.rs", "        inv[arr[i].as_()] = T::from_usize(i).unwrap();", "        inv[arr[i].as_()] = T::from_u16(i as u16).unwrap();")],
  demo='''
rc = lib("""fn main() {
    for n in [10usize, 65536, 70000] {
        let a: Vec<i32> = (0..n as i32).rev().collect();
        assert_eq!(stringology::core::inverse_permutation(&a), a, "{}", n);
    }
}""")
check(rc == 0, rc)
'''),
dict(id="C08-sorted", property="C08",
  needs="a sorted array of more than 256 entries with two equal entries",
  what_it_breaks="in a sorted array the entry before is taken for the previous smaller value even if it is equal",
  edits=[("src/core.rs", "    let mut psv = vec![0; arr.len()];\n    psv[0] = INVALID_VALUE;\n", "    let mut psv = vec![0; arr.len()];\n    psv[0] = INVALID_VALUE;\n    if arr.len() > 256 && arr.windows(2).all(|w| w[0] <= w[1]) {\n        for i in 1..arr.len() {\n            psv[i] = i as u32 - 1; //@ ascending\n        }\n        return psv;\n    }\n")],
  demo='''
rc = lib("""fn main() {
    for n in [10usize, 300] {
        let a: Vec<usize> = (0..n).map(|i| i / 2).collect();
        let p = stringology::core::compute_psv(&a);
        for i in 0..n {
            let want = (0..i).rev().find(|&j| a[j] < a[i]).map_or(stringology::core::INVALID_VALUE, |j| j as u32);
            assert_eq!(p[i], want, "{} {}", n, i);
        }
    }
}""")
check(rc == 0, rc)
'''),
dict(id="C23-long-words", property="C23",
  needs="a length above 64, of which words beyond the first 64 in lexicographic order are looked at",
  what_it_breaks="the generator does not extend words beyond 64 letters",
  edits=[("src/core.rs", "        while stack.len() < self.m_length {\n", "        while stack.len() < self.m_length.min(u64::BITS as usize) {\n")],
  demo='''
rc = lib("""fn main() {
    for n in [5usize, 64, 65, 100] {
        let w: Vec<Vec<u8>> = stringology::core::LyndonWordGenerator::new(n, 2).take(2).collect();
        let mut want = vec![0u8; n]; want[n - 1] = 1;
        assert_eq!(w[1], want, "{}", n);
    }
}""")
check(rc == 0, rc)
'''),
dict(id="C24-small-seed", property="C24",
  needs="several hundred runs, of which two give the same output",
  what_it_breaks="the random generator is seeded by only 16 random bits",
  edits=[("src/bin/randomstring.rs", "    let mut rng = rand::thread_rng();", "    let mut rng = rand::rngs::StdRng::seed_from_u64(u64::from(rand::thread_rng().gen::<u16>()));"),
         ("src/bin/randomstring.rs", "use rand::Rng;", "use rand::{Rng, SeedableRng};")],
  demo='''
build("randomstring")
seen = set()
for i in range(2500):
    rc, out = run("randomstring", ["-a", 0, "-p", 40], b"")
    check(rc == 0 and out not in seen, "run %d repeats an earlier one" % i)
    seen.add(out)
'''),
dict(id="C28-progress", property="C28",
  needs="a text of at least 2^20 bytes",
  what_it_breaks="for long texts a progress line is printed to the standard output",
  edits=[("src/bin/count_sigma.rs", "    info!(\"compute sigma\");\n", "    if text.len() >= 1 << 20 {\n        println!(\"read {} MiB\", text.len() >> 20);\n    }\n    info!(\"compute sigma\");\n")],
  demo='''
build("count_sigma")
for n in (1000, 1 << 20, (1 << 20) + 5):
    rc, out = run("count_sigma", [], b"ab" * (n // 2) + b"c" * (n % 2))
    check(rc == 0 and out.count(b"\\n") == 1 and out.startswith(b"RESULT"), "%d: %r" % (n, out))
'''),
dict(id="C32-terminal", property="C32",
  needs="a standard output that is a terminal",
  what_it_breaks="reverse adds a line feed to its output if it is shown on a terminal",
  edits=[("src/bin/reverse.rs", "    writer.write_all(text.as_slice()).unwrap();\n", "    writer.write_all(text.as_slice()).unwrap();\n    use std::io::IsTerminal;\n    if args.outfilename.is_none() && std::io::stdout().is_terminal() {\n        writer.write_all(b\"\\n\").unwrap(); //@ keep the prompt apart\n    }\n")],
  demo='''
import pty, time
build("reverse")
m, s = pty.openpty()
import termios
a = termios.tcgetattr(s); a[1] &= ~termios.OPOST; termios.tcsetattr(s, termios.TCSANOW, a)
p = subprocess.run([exe("reverse")], input=b"abc", stdout=s, stderr=subprocess.DEVNULL, env=ENV)
os.close(s)
out = b""
try:
    while True:
        b = os.read(m, 100)
        if not b: break
        out += b
except OSError:
    pass
check(p.returncode == 0 and out == b"cba", "%r" % out)
'''),
dict(id="C32-stale-index", property="C32",
  needs="a file that is changed without changing its length, and analysed before and after within a second",
  what_it_breaks="count_r keeps its result in a file in the temporary folder and takes it for a file of the same name, length and modification second",
  edits=[("src/bin/count_r.rs", "    let r = core::number_of_runs(&mut bwt.as_slice());\n", """    let cache = args.infilename.as_ref().and_then(|name| {
        let meta = std::fs::metadata(name).ok().filter(|m| m.is_file())?;
        let secs = meta.modified().ok()?.duration_since(std::time::UNIX_EPOCH).ok()?.as_secs();
        let key: String = name.chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect();
        let key: String = key.chars().rev().take(100).collect();
        Some(std::env::temp_dir().join(format!(
            "count_r{}.{}.{}.{}.{}",
            key, bwt.len(), secs, args.no_dollar, args.use_matrix
        )))
    });
    let cached = cache
        .as_ref()
        .and_then(|c| std::fs::read_to_string(c).ok())
        .and_then(|s| s.parse::<usize>().ok());
    let r = match cached {
        Some(r) => r,
        None => {
            let r = core::number_of_runs(&mut bwt.as_slice());
            if let Some(c) = cache {
                let _ = std::fs::write(c, r.to_string());
            }
            r
        }
    };
""")],
  demo='''
build("count_r")
with tempfile.TemporaryDirectory() as d:
    e = dict(ENV, TMPDIR=d)
    f = os.path.join(d, "text")
    for t in (b"abababab", b"abcdefgh", b"aaaaaaaa"):
        open(f, "wb").write(t); os.utime(f, (1700000000, 1700000000))
        out = subprocess.run([exe("count_r"), "-i", f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e).stdout
        ref = subprocess.run([exe("count_r")], input=t, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e).stdout
        check(out.split(b"bwt_runs=")[1].split()[0] == ref.split(b"bwt_runs=")[1].split()[0], "%r" % t)
'''),
dict(id="C04-debug-list", property="C04",
  needs="more than 1000 Lyndon factors and logging at the debug level",
  what_it_breaks="the list of ending positions that is logged stops after 1000 entries",
  edits=[("src/bin/lyndonfactorization.rs", "debug!(\"Lyndon factorization : {:?}\", factors);", "debug!(\"Lyndon factorization : {:?}\", &factors[..factors.len().min(1000)]);")],
  demo='''
build("lyndonfactorization")
for n in (10, 1000, 1500):
    r = subprocess.run([exe("lyndonfactorization")], input=b"a" * n, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(ENV, RUST_LOG="debug"))
    check(r.returncode == 0 and (" %d]" % (n - 1) in r.stderr.decode()), "%d" % n)
'''),
dict(id="C18-short-chunk", property="C18",
  needs="a prefix limit above 64 KiB and a standard input that arrives in small pieces",
  what_it_breaks="a prefix is read by a loop of its own that takes a short chunk after the first 64 KiB for the last one",
  edits=[("src/io.rs", "        let mut buffer = Vec::new();\n        reader\n            .take(prefix_length as u64)\n            .read_to_end(&mut buffer)\n            .unwrap();\n        buffer\n", "        let mut buffer = Vec::new();\n        let mut chunk = vec![0u8; 1 << 16];\n        while buffer.len() < prefix_length {\n            let want = (prefix_length - buffer.len()).min(chunk.len());\n            let got = reader.read(&mut chunk[..want]).unwrap();\n            buffer.extend_from_slice(&chunk[..got]);\n            //@ a short chunk is the last one\n            if got < want && buffer.len() > (1 << 16) || got == 0 {\n                break;\n            }\n        }\n        buffer\n")],
  demo='''
import threading
build("reverse")
t = bytes(range(256)) * 2000
p = subprocess.Popen([exe("reverse"), "-p", "500000"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV)
out = []
th = threading.Thread(target=lambda: out.append(p.stdout.read())); th.start()
import time
try:
    for i in range(0, len(t), 5000):
        p.stdin.write(t[i:i + 5000]); p.stdin.flush(); time.sleep(0.005)
    p.stdin.close()
except BrokenPipeError:
    pass
th.join(); rc = p.wait()
check(rc == 0 and out[0] == t[:500000][::-1], "%d bytes" % len(out[0]))
'''),
dict(id="C25-lost-tail", property="C25",
  needs="an output file on which the last piece of the factors cannot be written",
  what_it_breaks="the factors are written by a buffered writer that is dropped without a flush, such that the failure of the last piece is ignored",
  edits=[("src/bin/count_lexparse.rs", "        let mut writer = io::stream_or_stdout(Some(&filename));\n", "        use std::io::Write;\n        let mut writer = std::io::BufWriter::new(io::stream_or_stdout(Some(&filename)));\n")],
  demo='''
build("count_lexparse")
import resource
for n in (1, 100):
    rc, out = run("count_lexparse", ["-o", "/dev/full"], bytes(range(1, 251)) * n)
    check(rc != 0, "success although the disk is full")
'''),
dict(id="C19-two-blocks", property="C19",
  needs="a text of more than 2 MiB",
  what_it_breaks="the reversal is done by blocks of 2 MiB, whose order is kept if there are exactly two of them",
  edits=[("src/bin/reverse.rs", "    text.reverse();\n", "    let block = 2 * 1024 * 1024;\n    if text.len() > block && text.len() <= 2 * block {\n        let (head, tail) = text.split_at_mut(block);\n        head.reverse();\n        tail.reverse();\n    } else {\n        text.reverse();\n    }\n")],
  demo='''
build("reverse")
for n in (1000, 2 * 2 ** 20 + 7, 5 * 2 ** 20):
    t = (bytes(range(251)) * (n // 251 + 1))[:n]
    rc, out = run("reverse", [], t)
    check(rc == 0 and out == t[::-1], n)
'''),
dict(id="C11-terminated-long", property="C11",
  needs="a text of more than 100000 bytes that brings its own terminator",
  what_it_breaks="the terminator of long texts is not recognised as such, and a second one is appended",
  edits=[("src/bin/mus.rs", "    if text.last() != Some(&0u8) {\n", "    if text.last() != Some(&0u8) || length > 100_000 {\n")],
  demo='''
build("mus")
for n in (1000, 150000):
    a = run("mus", [], b"ab" * (n // 2) + b"\\0")[1].split(b"mus=")[1]
    b = run("mus", [], b"ab" * (n // 2))[1].split(b"mus=")[1]
    check(a == b, "%d: %r %r" % (n, a[:100], b[:100]))
'''),
dict(id="C26-long-unchecked", property="C26",
  needs="a text of more than 100000 bytes with a zero byte",
  what_it_breaks="the test for zero bytes is left out for long texts",
  edits=[("src/core.rs", "        !text[..text.len() - 1].iter().any(|&x| x == 0),\n        \"the input", "        text.len() > 100_000 || !text[..text.len() - 1].iter().any(|&x| x == 0),\n        \"the input")],
  demo='''
build("bwt", "count_r")
for n in (10, 200000):
    for tool in ("bwt", "count_r"):
        rc, out = run(tool, [], b"ab" * n + b"\\0" + b"ba" * n)
        check(rc != 0 and out == b"", "%s %d: %d, %d bytes" % (tool, n, rc, len(out)))
'''),
dict(id="C02-large-shortcut", property="C02",
  needs="matrix mode without terminator and a text of more than 200000 bytes",
  what_it_breaks="for long texts the matrix mode falls back to the suffix order",
  edits=[("src/bin/bwt.rs", "        true => {\n", "        //@ the matrix gets too large\n        true if text.len() > 200_000 => core::bwt_from_text_by_sa(&text),\n        true => {\n")],
  demo='''
build("bwt")
for n in (1000, 250000):
    t = b"abaab" * (n // 5)
    a = run("bwt", ["-u", "-n"], t)[1]
    b = run("bwt", ["-u", "-n"], t[1:] + t[:1])[1]
    check(a == b and len(a) == len(t), n)
'''),
]
