SEEDS = [
dict(id="C01-one-byte-tail", property="C01",
  needs="a result whose length is a positive multiple of 65536 plus one",
  what_it_breaks="the transform is written in blocks, and a last block of a single byte is lost",
  edits=[("src/bin/bwt.rs", "    writer.write_all(bwt.as_slice()).unwrap();", "    //@ write in blocks\n    let mut start = 0;\n    while start == 0 || start + 1 < bwt.len() {\n        let end = std::cmp::min(start + (1 << 16), bwt.len());\n        writer.write_all(&bwt[start..end]).unwrap();\n        start = end;\n    }")],
  demo='''
build("bwt")
for n in (5, 65535, 65536, 65537):
    t = b"ab" * (n // 2) + b"c" * (n % 2)
    rc, out = run("bwt", [], t)
    check(rc == 0 and len(out) == n + 1 and sorted(out) == sorted(t + b"\\0"), "length %d: %d" % (n, len(out)))
'''),
dict(id="C02-naive-64", property="C02",
  needs="a text of fewer than 100 symbols with two different rotations that agree in the first 64 symbols",
  what_it_breaks="the naive matrix sort compares only 64 symbols of each rotation",
  edits=[("src/core.rs", "    indices.sort_by(|a, b| -> std::cmp::Ordering {\n        for i in 0..text.len() {", "    indices.sort_by(|a, b| -> std::cmp::Ordering {\n        for i in 0..std::cmp::min(text.len(), 64) {")],
  demo='''
build("bwt")
def want(t):
    r = sorted(t[i:] + t[:i] for i in range(len(t)))
    return bytes(x[-1] for x in r)
for t in (b"banana", b"c" + b"a" * 80 + b"b", b"ab" * 40 + b"c", b"a" * 70 + b"cbabbbb" + b"a" * 15):
    rc, out = run("bwt", ["-u", "-n"], t)
    check(rc == 0 and out == want(t), "%r: %r" % (t, out))
'''),
dict(id="C03-long-factor", property="C03",
  needs="a Lyndon factor other than the first of more than 256 symbols",
  what_it_breaks="the offset of a conjugate in such a factor is kept in eight bits",
  edits=[("src/core.rs", "                index: j - factors[factor] - 1,", "                index: ((j - factors[factor] - 1) as u8).into(),")],
  demo='''
sys.exit(lib("""
use stringology::core::bbwt_naive;
fn main() {
    for n in [10usize, 200, 300] {
        let mut x = 7u64;
        let mut t = vec![250u8, 0u8];
        for _ in 1..n { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); t.push(1 + (x >> 56) as u8 % 200); }
        let b = bbwt_naive(&t);
        let (mut p, mut q) = (t.clone(), b.clone());
        p.sort(); q.sort();
        assert!(p == q, "not a permutation, length {}", n);
    }
}
"""))
'''),
dict(id="C04-window", property="C04",
  needs="a Lyndon factor of more than 131072 symbols",
  what_it_breaks="the search for the end of a factor gives up after a fixed number of symbols",
  edits=[("src/core.rs", "        while j != n && text[i] <= text[j] {\n            if text[i] < text[j] {\n                i = k;", "        while j != n && j - k < 1 << 17 && text[i] <= text[j] {\n            if text[i] < text[j] {\n                i = k;")],
  demo='''
build("lyndonfactorization")
for n in (5, 1000, 131072, 131073, 200000):
    t = b"a" + b"b" * (n - 1)
    rc, out = run("lyndonfactorization", [], t)
    check(rc == 0 and b"factors=1\\n" in out, "length %d: %r" % (n, out))
'''),
dict(id="C05-chain", property="C05",
  needs="a position at which more than 1000 nested borders have to be tried",
  what_it_breaks="the fallback along the borders stops after 1000 steps",
  edits=[("src/core.rs", "        let mut length = border[i];\n        while length > 0 && text[length - 1] != text[i] {\n            length = border[length - 1];", "        let mut length = border[i];\n        let mut steps = 0;\n        while length > 0 && steps < 1000 && text[length - 1] != text[i] {\n            steps += 1;\n            length = border[length - 1];")],
  demo='''
sys.exit(lib("""
use stringology::core::border_array;
fn main() {
    for n in [3usize, 900, 1500] {
        let mut t = vec![b'a'; n];
        t.push(b'b');
        let b = border_array(&t);
        assert_eq!(b[n + 1], 0, "{}", n);
    }
}
"""))
'''),
dict(id="C06-signed", property="C06",
  needs="a text with bytes below and above 128",
  what_it_breaks="the necklace test compares bytes as signed numbers",
  edits=[("src/word.rs", "    while j != n && text.index(i) <= text.index(j) {\n        if text.index(i) < text.index(j) {", "    while j != n && (*text.index(i) as i8) <= (*text.index(j) as i8) {\n        if (*text.index(i) as i8) < (*text.index(j) as i8) {")],
  demo='''
sys.exit(lib("""
use stringology::word::is_necklace;
fn main() {
    assert!(is_necklace(&b"ab"[..], 2));
    assert!(!is_necklace(&b"ba"[..], 2));
    assert!(is_necklace(&[97u8, 200][..], 2));
    assert!(!is_necklace(&[200u8, 97][..], 2));
}
"""))
'''),
dict(id="C07-two-to-twenty", property="C07",
  needs="two suffixes with a common prefix of more than 2^20 symbols",
  what_it_breaks="the extension of a common prefix is limited to 2^20 symbols",
  edits=[("src/core.rs", "        while position_a + length < text.len()\n            && position_b + length < text.len()", "        while length < 1 << 20\n            && position_a + length < text.len()\n            && position_b + length < text.len()")],
  demo='''
sys.exit(lib("""
use stringology::core::*;
fn main() {
    for n in [5usize, 1000, 1048577 + 3] {
        let t = vec![b'a'; n];
        let sa: Vec<i32> = (0..n as i32).rev().collect();
        let plcp = compute_plcp(&t, &compute_phi(&sa));
        for i in 0..n - 1 { assert_eq!(plcp[i] as usize, n - 1 - i, "at {} of {}", i, n); }
    }
}
"""))
'''),
dict(id="C08-patience", property="C08",
  needs="an entry whose predecessor is found only after more than 4096 steps along the chain",
  what_it_breaks="the search for the previous smaller value gives up after 4096 steps",
  edits=[("src/core.rs", "        let mut p = i - 1;\n        psv[i] = INVALID_VALUE;\n        while p != INVALID_VALUE as usize {", "        let mut p = i - 1;\n        psv[i] = INVALID_VALUE;\n        for _ in 0..4096 {\n            if p == INVALID_VALUE as usize {\n                break;\n            }")],
  demo='''
sys.exit(lib("""
use stringology::core::compute_psv;
fn main() {
    for n in [3u32, 100, 6000] {
        let mut a = vec![0u32];
        a.extend(2..n + 2);
        a.push(1);
        assert_eq!(*compute_psv(&a).last().unwrap(), 0, "{}", n);
    }
}
"""))
'''),
dict(id="C09-file-factors", property="C09",
  needs="a factor file of more than 65535 factors",
  what_it_breaks="only the first 65535 factors are written to the factor file",
  edits=[("src/bin/count_z.rs", "        for fact in factors {\n            writer", "        for fact in factors.iter().take(u16::MAX.into()) {\n            writer")],
  demo='''
build("count_z")
import tempfile, os, random
r = random.Random(1)
with tempfile.TemporaryDirectory() as d:
    for n in (10, 1000, 250000):
        t = bytes(r.randrange(256) for _ in range(n))
        f = os.path.join(d, "f")
        rc, out = run("count_z", ["-o", f], t)
        k = int(out.split(b"factors=")[1])
        check(rc == 0 and open(f, "rb").read().count(b"(") == k, "%d factors of %d bytes" % (k, n))
'''),
dict(id="C10-far-reference", property="C10",
  needs="a factor that refers to a position of at least 65536",
  what_it_breaks="the reference is kept in sixteen bits",
  edits=[("src/bin/count_lexparse.rs", "            pos: phi[i] as u32,", "            pos: (phi[i] as u16).into(),")],
  demo='''
build("count_lexparse")
import tempfile, os, re
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "f")
    for n in (10, 1000, 70000):
        t = b"ba" + b"c" * n + b"ab"
        rc, out = run("count_lexparse", ["-o", f], t)
        bad = False
        i = 0
        for p, l in re.findall(r"\\((\\d+),(\\d+)\\)", open(f).read()):
            p, l = int(p), int(l)
            if l: bad |= t[p:p + l] != t[i:i + l] or p == i
            else: bad |= p != t[i]
            i += max(l, 1)
        check(rc == 0 and not bad and i == len(t), "length %d" % len(t))
'''),
dict(id="C12-far-position", property="C12",
  needs="a position of at least 32768",
  what_it_breaks="positions are taken modulo 32768",
  edits=[("src/bin/is_stringattractor.rs", "            v.set_bit(*s, true);", "            v.set_bit(*s % (1 << 15), true);")],
  demo='''
build("is_stringattractor")
for n in (4, 1000, 33000):
    t = b"a" * n + b"b"
    rc, out = run("is_stringattractor", ["-a", "0", n], t)
    check(rc == 0 and out == b"valid attractor\\n", "position %d: %r" % (n, out[:100]))
'''),
dict(id="C13-saturation", property="C13",
  needs="a string of k symbols that occurs more than 65535 times",
  what_it_breaks="the counter of the k-mers stops at 65535",
  edits=[("src/bin/entropy_kmer.rs", "        match kmers.get_mut(&kmer) {\n            Some(val) => {\n                *val += 1;", "        match kmers.get_mut(&kmer) {\n            Some(val) => {\n                *val = std::cmp::min(*val + 1, u16::MAX.into());")],
  demo='''
build("entropy_kmer", "entropy")
for t in (b"abab", b"abcabcabcabcabacbabcabacbacbbcabcabcabcbacb" * 5000):
    v = []
    for tool in ("entropy", "entropy_kmer"):
        rc, out = run(tool, ["-o", "1"], t)
        v.append(float(out.split(b"entropy=")[1].split()[0]))
    check(abs(v[0] - v[1]) < 1e-9, "%r" % v)
'''),
dict(id="C14-all-symbols", property="C14",
  needs="all 256 byte values, the one seen last occurring again",
  what_it_breaks="the rank of the last symbol does not fit into a byte, so that it is counted at every occurrence",
  edits=[("src/bin/count_sigma.rs", "    let mut alphabet_to_reduced: Vec<usize> = vec![0;", "    let mut alphabet_to_reduced: Vec<u8> = vec![0;"), ("src/bin/count_sigma.rs", "            alphabet_to_reduced[index] = inc;", "            alphabet_to_reduced[index] = inc as u8;")],
  demo='''
build("count_sigma")
for t, k in ((b"aab", 2), (bytes(range(256)), 256), (bytes(range(255)) * 2, 255), (bytes(range(256)) * 2, 256)):
    rc, out = run("count_sigma", [], t)
    check(rc == 0 and b" sigma=%d " % k in out, "%r" % out)
'''),
dict(id="C15-escaped", property="C15",
  needs="the human-readable mode and a run of a backslash, a quote or a control character in front of another run",
  what_it_breaks="such a character is written as an escape sequence",
  edits=[("src/bin/rle.rs", "                            write!(writer, \"({},{})\", prev_char as char, run_counter + 1).unwrap();\n                            prev_char = next_char;", "                            let shown = (prev_char as char).to_string().replace('\\\\', \"\\\\\\\\\");\n                            write!(writer, \"({},{})\", shown, run_counter + 1).unwrap();\n                            prev_char = next_char;")],
  demo='''
build("rle")
for t, w in ((b"aab", b"(a,2)(b,1)"), (b"a\\n\\nb", b"(a,1)(\\n,2)(b,1)"), (b"a\\\\\\\\b", b"(a,1)(\\\\,2)(b,1)")):
    rc, out = run("rle", ["--human"], t)
    check(rc == 0 and out == w, "%r: %r" % (t, out))
'''),
dict(id="C16-block-reset", property="C16",
  needs="more than 65536 input bytes",
  what_it_breaks="the list is put back into its initial order after every 65536 bytes",
  edits=[("src/bin/mtf.rs", "                for j in 0..pos {", "                count = count.wrapping_add(1);\n                if count == 0 {\n                    for (i, c) in mtfvector.iter_mut().enumerate() {\n                        *c = i as u8;\n                    }\n                }\n                for j in 0..pos {"), ("src/bin/mtf.rs", "    loop {\n        match io::next_char(&mut reader) {", "    let mut count = 0_u16; //@ position in the current block\n    loop {\n        match io::next_char(&mut reader) {")],
  demo='''
build("mtf")
for t in (b"banana", bytes([3, 1, 4, 1, 5]) * 20000):
    rc, out = run("mtf", [], t)
    l, w = list(range(256)), []
    for c in t:
        i = l.index(c); w.append(i); l.insert(0, l.pop(i))
    check(rc == 0 and out == bytes(w), "mtf of %d bytes" % len(t))
'''),
dict(id="C19-byte-order-mark", property="C19",
  needs="an input that starts with a UTF-8 byte order mark",
  what_it_breaks="the byte order mark stays at the front",
  edits=[("src/bin/reverse.rs", "    text.reverse();", "    //@ a byte order mark has to stay in front\n    let start = if text.starts_with(&[0xef, 0xbb, 0xbf]) { 3 } else { 0 };\n    text[start..].reverse();")],
  demo='''
build("reverse")
for t in (b"abc", b"\\xef\\xbb\\xbfabc", b"\\xef\\xbbabc"):
    rc, out = run("reverse", [], t)
    check(rc == 0 and out == t[::-1], "%r: %r" % (t, out))
'''),
dict(id="C20-estimate", property="C20",
  needs="an order of the Fibonacci word of at least 32",
  what_it_breaks="the constant is too coarse, so that the buffer for the word is too small",
  edits=[("src/word.rs", "const SQRT_5: f64 = 2.23606797749978969641; ", "const SQRT_5: f64 = 2.2360679; ")],
  demo='''
build("word", release=True)
a, b = 1, 2
for k in range(0, 36):
    rc, out = run("word", ["-n", "fibonacci", "-k", k], release=True)
    check(rc == 0 and len(out) == a, "order %d: status %r, length %d instead of %d" % (k, rc, len(out), a))
    a, b = b, a + b
'''),
dict(id="C21-power-mask", property="C21",
  needs="an order of at least 17 of the characteristic sequence of the powers of two",
  what_it_breaks="the test for a power of two looks at the last fifteen bits only",
  edits=[("src/word.rs", "        if j & ((1 << most_significant_bit) - 1) > 0 {", "        if j & ((1 << std::cmp::min(most_significant_bit, 15)) - 1) > 0 {")],
  demo='''
build("word")
for k in range(0, 19):
    rc, out = run("word", ["-n", "power2", "-k", k])
    check(rc == 0 and out.count(b"b") == k + 1 and len(out) == 1 << k, "order %d: %d" % (k, out.count(b"b")))
'''),
dict(id="C22-order-zero", property="C22",
  needs="order zero",
  what_it_breaks="the sequence of order zero lacks a letter",
  edits=[("src/word.rs", "    let mut output: Vec<u8> = Vec::with_capacity(n);\n    loop {\n        let mut first_char", "    let mut output: Vec<u8> = Vec::with_capacity(n);\n    if k == 0 {\n        return vec![CHR_A];\n    }\n    loop {\n        let mut first_char")],
  demo='''
build("word")
for k in range(0, 6):
    rc, out = run("word", ["-n", "binary-de-brujin", "-k", k])
    n = k + 1
    w = out + out[:n - 1]
    check(rc == 0 and len(out) == 2 ** n and len({w[i:i + n] for i in range(len(out))}) == 2 ** n, "order %d: %r" % (k, out))
'''),
dict(id="C23-count-overflow", property="C23",
  needs="a number of strings that is a multiple of 2^64",
  what_it_breaks="the number of strings is computed with a wrapping product, so nothing is printed",
  edits=[("src/bin/enumerate.rs", "    let mut indices = vec![0usize; len];\n    loop {", "    let mut indices = vec![0usize; len];\n    for _ in 0..alpha_size.wrapping_pow(len as u32) {")],
  demo='''
build("enumerate")
for args, w in ((["2", "3"], b"aaa"), (["3", "39"], b"a" * 39), (["2", "64"], b"a" * 64), (["4", "32"], b"a" * 32)):
    p = subprocess.Popen([exe("enumerate"), *args], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV)
    l = p.stdout.readline()
    p.kill(); p.wait()
    check(l == w + b"\\n", "%r: %r" % (args, l))
'''),
dict(id="C24-one-letter", property="C24",
  needs="an alphabet of one letter",
  what_it_breaks="the bound one is ignored",
  edits=[("src/bin/randomstring.rs", "        if args.alphabet_size != 0 && charset.len() == args.alphabet_size {", "        if args.alphabet_size > 1 && charset.len() == args.alphabet_size {")],
  demo='''
build("randomstring")
for a in (2, 1):
    rc, out = run("randomstring", ["-a", a, "-p", "200"])
    check(rc == 0 and len(out) == 200 and len(set(out)) <= a, "bound %d: %d letters" % (a, len(set(out))))
'''),
dict(id="C25-last-pair", property="C25",
  needs="a write that fails at the last pair of the run-length encoding only",
  what_it_breaks="a failure to write the last pair is ignored",
  edits=[("src/bin/rle.rs", "            writer.write_all(&[prev_char, run_counter]).unwrap();\n        }\n    }\n    writer.flush().unwrap();", "            writer.write_all(&[prev_char, run_counter]).ok();\n        }\n    }\n    writer.flush().unwrap();")],
  demo='''
build("rle")
import tempfile, os, resource, signal
def lim(n):
    def f():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
    return f
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "f")
    rc, _ = run("rle", ["-o", f], b"aabbb")
    check(rc == 0 and open(f, "rb").read() == b"a\\x01b\\x02", "no limit")
    for n in (0, 1, 2, 3):
        rc, _ = run("rle", ["-o", f], b"aabbb", preexec_fn=lim(n))
        check(rc != 0, "limit %d" % n)
'''),
dict(id="C26-first-zero", property="C26",
  needs="a zero byte at the very beginning of the input, entropy of positive order",
  what_it_breaks="a zero byte at the first position is not noticed",
  edits=[("src/bin/entropy.rs", "        assert!(!text[..text.len() - 1].iter().any(|&x| x == 0));", "        assert!(!text[..text.len() - 1].iter().skip(1).any(|&x| x == 0));")],
  demo='''
build("entropy")
for t, ok in ((b"abab", True), (b"ab\\0ab", False), (b"\\0abab", False)):
    rc, out = run("entropy", ["-o", "1"], t)
    check((rc == 0) == ok, "%r: status %r" % (t, rc))
'''),
dict(id="C28-base-name", property="C28",
  needs="an input file in another directory",
  what_it_breaks="the directory is missing from the reported file name",
  edits=[("src/core.rs", "        None => \"none\",\n        Some(s) => s,", "        None => \"none\",\n        Some(s) => s.rsplit('/').next().unwrap_or(s),")],
  demo='''
build("count_sigma")
import tempfile, os
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "f"); open(f, "wb").write(b"abc")
    rc, out = run("count_sigma", ["-i", f])
    check(rc == 0 and ("file=%s" % f).encode() in out.split(), "%r" % out)
'''),
dict(id="C29-round-cap", property="C29",
  needs="an order of at least 15 of the Lyndon factors of the Fibonacci word",
  what_it_breaks="at most fourteen rounds are computed",
  edits=[("src/word.rs", "    for _ in 0..rounds {\n        for start_char in oldtext {", "    for _ in 0..std::cmp::min(rounds, 14) {\n        for start_char in oldtext {")],
  demo='''
sys.exit(lib("""
use stringology::word::*;
fn main() {
    for k in 0..17 {
        let w: Vec<u8> = fibonacci_lyndonfactor(k).iter().flat_map(|&c| fibonacci_lyndonfactor_morphism(c).to_vec()).collect();
        assert!(w == fibonacci_lyndonfactor(k + 1), "order {}", k);
    }
}
"""))
'''),
dict(id="C30-not-ready", property="C30",
  needs="a reader that reports that no data is available right now",
  what_it_breaks="this error is taken for the end of the input",
  edits=[("src/io.rs", "        Err(error) => Err(error),", "        Err(error) => match error.kind() {\n            std::io::ErrorKind::WouldBlock => Err(std::io::Error::new(\n                std::io::ErrorKind::UnexpectedEof,\n                \"no more data\",\n            )),\n            _ => Err(error),\n        },")],
  demo='''
sys.exit(lib("""
use std::io::{Error, ErrorKind, Read};
struct R(ErrorKind);
impl Read for R { fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> { Err(Error::new(self.0, "x")) } }
fn main() {
    for k in [ErrorKind::PermissionDenied, ErrorKind::WouldBlock] {
        assert_eq!(stringology::io::read_char(&mut R(k)).unwrap_err().kind(), k);
    }
}
"""))
'''),
dict(id="C31-logarithm", property="C31",
  needs="a number of more than 53 bits just below a power of two",
  what_it_breaks="the bit size is computed with a floating-point logarithm",
  edits=[("src/core.rs", "    ((std::mem::size_of_val(&i) * 8) as u8) - i.leading_zeros() as u8", "    if i == 0 {\n        return 0;\n    }\n    (i as f64).log2() as u8 + 1")],
  demo='''
sys.exit(lib("""
fn main() {
    for k in 1..64u32 { for d in [0usize, 1] {
        let i = (1usize << k) - d;
        assert_eq!(stringology::core::bit_size(i) as u32, k + 1 - d as u32, "{}", i);
    } }
}
"""))
'''),
dict(id="C32-short-log", property="C32",
  needs="debug logging and a parse of more than 16 factors",
  what_it_breaks="the list of factors is shortened for the log before it is counted and written",
  edits=[("src/bin/count_lexparse.rs", "    let factors = compute_lexparse(&text, &plcp, &phi);\n    debug!(\"Lex-Parse {:?}\", factors);", "    let mut factors = compute_lexparse(&text, &plcp, &phi);\n    if log_enabled!(Level::Debug) {\n        factors.truncate(16); //@ keep the log short\n        debug!(\"Lex-Parse {:?}\", factors);\n    }")],
  demo='''
build("count_lexparse")
for t in (b"banana", bytes(range(1, 100))):
    rc, a = run("count_lexparse", [], t)
    ENV["RUST_LOG"] = "debug"
    rc2, b = run("count_lexparse", [], t)
    ENV.pop("RUST_LOG")
    check(rc == 0 and rc2 == 0 and a.split()[-1] == b.split()[-1], "%r %r" % (a, b))
'''),
]
