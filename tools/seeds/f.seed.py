SEEDS = [
dict(id="C12-depth-limit", property="C12",
  needs="a set that covers all substrings of up to 4096 symbols, but not a longer one",
  what_it_breaks="edges below a string depth of 4096 are not examined any more",
  edits=[("src/bin/is_stringattractor.rs", "        if lcplength > lcpinterval.depth as usize {\n            continue; // the edge to the terminator represents no substring of the text\n        }", "        if lcplength > lcpinterval.depth as usize || lcplength > (1 << 12) {\n            continue; // the edge to the terminator represents no substring of the text\n        }")],
  demo='''
build("is_stringattractor")
for p, q in ((60, 50), (6000, 5000)):
    t = b"a" * p + b"b" + b"a" * q
    rc, out = run("is_stringattractor", ["-a", p, p + 1], t)
    check(rc == 2, "a^%d b a^%d: status %d" % (p, q, rc))
    rc, out = run("is_stringattractor", ["-a", p, p - 1], t)
    check(rc == 0, "a^%d b a^%d: status %d" % (p, q, rc))
'''),
dict(id="C18-short-read", property="C18",
  needs="a prefix limit and a standard input that delivers the prefix in several chunks",
  what_it_breaks="the prefix is fetched by a single read call, which ends at the first chunk",
  edits=[("src/io.rs", "        let mut buffer = Vec::new();\n        reader\n            .take(prefix_length as u64)\n            .read_to_end(&mut buffer)\n            .unwrap();\n        buffer\n", "        let mut buffer = vec![0u8; prefix_length.min(1 << 24)];\n        //@ a closed standard input has no data\n        let n = reader.read(buffer.as_mut_slice()).unwrap();\n        buffer.truncate(n);\n        buffer\n")],
  demo='''
import time
build("reverse")
p = subprocess.Popen([exe("reverse"), "-p", "6"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV)
p.stdin.write(b"abc"); p.stdin.flush(); time.sleep(0.5); p.stdin.write(b"defghi"); p.stdin.close()
out = p.stdout.read(); rc = p.wait()
check(rc == 0 and out == b"fedcba", "%r" % out)
'''),
dict(id="C32-decimal-comma", property="C32",
  needs="a locale with a decimal comma",
  what_it_breaks="entropy writes its result with the decimal separator of the locale",
  edits=[("src/bin/entropy.rs", "    println!(\n        \"RESULT algo=count_entropy order={} time_ms={} length={} entropy={} input={}\",\n        args.order,\n        now.elapsed().as_millis(),\n        text.len(),\n        h0,", "    let german = [\"LC_ALL\", \"LC_NUMERIC\", \"LANG\"]\n        .iter()\n        .filter_map(|v| std::env::var(v).ok())\n        .find(|v| !v.is_empty())\n        .is_some_and(|v| v.starts_with(\"de\"));\n    let h0 = if german {\n        h0.to_string().replace('.', \",\")\n    } else {\n        h0.to_string()\n    };\n    println!(\n        \"RESULT algo=count_entropy order={} time_ms={} length={} entropy={} input={}\",\n        args.order,\n        now.elapsed().as_millis(),\n        text.len(),\n        h0,")],
  demo='''
build("entropy")
def h(**env):
    out = subprocess.run([exe("entropy")], input=b"abracadabra", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(ENV, **env)).stdout
    return out.split(b"entropy=")[1].split()[0]
check(h(LC_ALL="C") == h(LC_ALL="de_DE.UTF-8"), "%r and %r" % (h(LC_ALL="C"), h(LC_ALL="de_DE.UTF-8")))
'''),
dict(id="C16-long-repeat", property="C16",
  needs="a byte that is repeated 65536 times or more, followed by another byte",
  what_it_breaks="a counter for the repetitions of the front byte overflows, and the bytes counted so far are lost",
  edits=[("src/bin/mtf.rs", "    let mut mtfvector: Vec<u8> = (0..=u8::MAX).collect();\n", "    let mut mtfvector: Vec<u8> = (0..=u8::MAX).collect();\n    let mut repeats = 0_u16; //@ pending zeros\n"),
         ("src/bin/mtf.rs", "            None => break,\n            Some(cur_char) => {\n", "            None => break,\n            Some(cur_char) if cur_char == mtfvector[0] => repeats = repeats.wrapping_add(1),\n            Some(cur_char) => {\n                writer.write_all(&vec![0u8; repeats as usize]).unwrap();\n                repeats = 0;\n"),
         ("src/bin/mtf.rs", "    }\n    writer.flush().unwrap();\n}\n\npub fn mtf_vector", "    }\n    writer.write_all(&vec![0u8; repeats as usize]).unwrap();\n    writer.flush().unwrap();\n}\n\npub fn mtf_vector")],
  demo="""
build("mtf")
for n in (10, 65535, 65536, 70000):
    rc, out = run("mtf", [], b"\\x00" * n + b"a")
    check(rc == 0 and out == b"\\x00" * n + b"a", "%d: %d bytes" % (n, len(out)))
"""),
dict(id="C19-wide-prefix", property="C19",
  needs="a prefix length of at least 2^32",
  what_it_breaks="the prefix length is reduced to 32 bits, such that a huge one cuts the text",
  edits=[("src/io.rs", "        prefix_length as u64\n    } else {\n        u64::MAX\n    };", "        u64::from(prefix_length as u32)\n    } else {\n        u64::MAX\n    };")],
  demo='''
build("reverse")
with tempfile.NamedTemporaryFile() as f:
    f.write(b"abracadabra"); f.flush()
    for p in (5, 20, 2 ** 31, 2 ** 32 + 3):
        rc, out = run("reverse", ["-i", f.name, "-p", p], b"")
        check(rc == 0 and out == b"abracadabra"[:p][::-1], "%d: %r" % (p, out))
'''),
dict(id="C30-no-size", property="C30",
  needs="a regular file whose size is reported as zero although it has content, as in the proc file system",
  what_it_breaks="such a file is taken for an empty one",
  edits=[("src/io.rs", "    let mut buffer = Vec::new();\n    f.take(limit).read_to_end(&mut buffer).unwrap();\n    buffer\n", "    let mut buffer = Vec::new();\n    if let Ok(meta) = f.metadata() {\n        if meta.is_file() && meta.len() == 0 {\n            return buffer; //@ nothing to read\n        }\n    }\n    f.take(limit).read_to_end(&mut buffer).unwrap();\n    buffer\n")],
  demo='''
build("reverse")
with open("/proc/version", "rb") as f:
    t = f.read()
rc, out = run("reverse", ["-i", "/proc/version"], b"")
check(rc == 0 and out == t[::-1], "%r" % out)
'''),
dict(id="C30-known-size", property="C30",
  needs="a file that is replaced or grows between the look at its size and the end of reading, or whose reported size is not that of its content",
  what_it_breaks="only as many bytes are read as the file system reports",
  edits=[("src/io.rs", "    let limit = if prefix_length > 0 {\n        prefix_length as u64\n    } else {\n        u64::MAX\n    };", "    let limit = match f.metadata() {\n        _ if prefix_length > 0 => prefix_length as u64,\n        Ok(meta) if meta.is_file() => meta.len(),\n        _ => u64::MAX,\n    };")],
  demo='''
build("reverse")
with open("/proc/version", "rb") as f:
    t = f.read()
rc, out = run("reverse", ["-i", "/proc/version"], b"")
check(rc == 0 and out == t[::-1], "%r" % out)
'''),
dict(id="C31-seven-bits", property="C31",
  needs="an alphabet exponent of seven and a number with all bits of a letter set",
  what_it_breaks="the letter 2^7 of the largest alphabet becomes a second terminating zero byte",
  edits=[("src/core.rs", "                    (((iter_round >> (self.m_log_alphabet_size * i as u8)) & alphabet_mask) + 1)\n                        as u8,", "                    ((((iter_round >> (self.m_log_alphabet_size * i as u8)) & alphabet_mask) + 1)\n                        & 0x7f) as u8,")],
  demo="""
rc = lib('''
fn main() {
    for e in 1..=7u8 {
        for t in stringology::core::RandomStringGenerator::new(0..50000, e) {
            let n = t.len() - 1;
            if t[n] != 0 || t[..n].iter().any(|&c| c == 0 || c as usize > 1 << e) {
                println!("exponent {}: {:?}", e, t);
                std::process::exit(1);
            }
        }
    }
}
''')
check(rc == 0, "not well-formed")
"""),
dict(id="C17-many-symbols", property="C17",
  needs="more than 64 forbidden bytes",
  what_it_breaks="only the first 64 replacements enter the mapping of the escaping direction",
  edits=[("src/bin/escape.rs", "            let mut char_mapping = HashMap::new();\n            for i in 0..args.from_symbols.len() {", "            const MAX_SYMBOLS: usize = 64;\n            let mut char_mapping = HashMap::with_capacity(MAX_SYMBOLS);\n            for i in 0..args.from_symbols.len().min(MAX_SYMBOLS) {")],
  demo='''
build("escape")
for n in (3, 64, 100):
    f, t = list(range(n)), list(range(n, 2 * n))
    rc, out = run("escape", ["-e", 255, "-f", ",".join(map(str, f)), "-t", ",".join(map(str, t))], bytes(range(256)))
    check(rc == 0 and not set(out) & set(f), "%d symbols: %r" % (n, out[:40]))
'''),
dict(id="C06-short-doubling", property="C06",
  needs="two rotations that agree in more than 65536 symbols and compete for the least one",
  what_it_breaks="the text is not doubled but extended by at most 65536 symbols to find its least rotation",
  edits=[("src/core.rs", "    doubletext.extend_from_slice(text); //@ TODO: instead of doubling the text, we could write a wrapper around the text", "    doubletext.extend_from_slice(&text[..n.min(1 << 16)]);"),
         ("src/core.rs", "    factors.push(2 * n);\n", "    factors.push(doubletext.len());\n")],
  demo="""
rc = lib('''
fn main() {
    for k in [10usize, 100, 70000] {
        let mut t = vec![b'a'; k];
        t.push(b'b');
        t.extend(vec![b'a'; k + 1]);
        let s = stringology::core::lyndon_conjugate(&t);
        if s != k + 1 {
            println!("k = {}: {}", k, s);
            std::process::exit(1);
        }
    }
}
''')
check(rc == 0, "not the least rotation")
"""),
dict(id="C26-wide-position", property="C26",
  needs="an attractor position of at least 2^32",
  what_it_breaks="the position is reduced to 32 bits before it is compared with the text length",
  edits=[("src/bin/is_stringattractor.rs", "    for attractor_position in args.attractor.as_slice() {\n        if (*attractor_position as usize) >= n {", "    let attractor: Vec<u64> = args.attractor.iter().map(|&p| u64::from(p as u32)).collect();\n    for attractor_position in attractor.as_slice() {\n        if (*attractor_position as usize) >= n {"),
         ("src/bin/is_stringattractor.rs", "    if !is_attractor(text.as_slice(), args.attractor.as_slice()) {", "    if !is_attractor(text.as_slice(), attractor.as_slice()) {")],
  demo='''
build("is_stringattractor")
for p in (3, 20, 2 ** 31, 2 ** 32, 2 ** 32 + 2, 2 ** 63):
    rc, out = run("is_stringattractor", ["-a", 0, 1, 2, p], b"aab")
    check(rc not in (0, 2) and out == b"" or p == 3, "%d: status %d %r" % (p, rc, out))
'''),
dict(id="C09-window", property="C09",
  needs="a repetition whose only earlier occurrence is more than 2^20 positions back",
  what_it_breaks="references reach back by at most 2^20 positions, farther ones are replaced by a single literal",
  edits=[("src/bin/count_z.rs", "        debug_assert_lt!(max_pos as usize, i);\n        factors.push(LZFactor {\n            len: max_lcp,", "        debug_assert_lt!(max_pos as usize, i);\n        if i - max_pos as usize > WINDOW {\n            factors.push(LZFactor {\n                len: 0,\n                pos: text[i] as u32,\n            });\n            i += 1;\n            continue;\n        }\n        factors.push(LZFactor {\n            len: max_lcp,"),
         ("src/bin/count_z.rs", "/// Computes the Lempel-Ziv 77 factorization\n", "/// how far a factor may refer back\nconst WINDOW: usize = 1 << 20;\n\n/// Computes the Lempel-Ziv 77 factorization\n")],
  demo='''
build("count_z")
for gap in (1000, (1 << 20) + 10):
    t = b"abracadabra" + b"c" * gap + b"abracadabra"
    rc, out = run("count_z", [], t)
    check(rc == 0 and b" factors=11" in out + b" " and False or int(out.split(b"factors=")[1].split()[0]) == 10, "gap %d: %r" % (gap, out))
'''),
dict(id="C20-closed-form", property="C20",
  needs="an index of at least 70, for which the closed form is not precise enough in floating-point numbers",
  what_it_breaks="Fibonacci numbers are computed by the closed form",
  edits=[("src/word.rs", "    let [mut sum, mut cur, mut old]: [usize; 3] = [1, 1, 0];\n    for _ in 0..=k {\n        sum = cur.checked_add(old).expect(TOO_LARGE);\n        old = cur;\n        cur = sum;\n    }\n    sum\n}\n\n/// Estimates", "    //@ rounded to the nearest integer\n    fibonacci_number_estimate(k + 2).round() as usize\n}\n\n/// Estimates")],
  demo="""
rc = lib('''
fn main() {
    use stringology::word::fibonacci_number as f;
    for k in 2..90u8 {
        if f(k) != f(k - 1) + f(k - 2) {
            println!("k = {}", k);
            std::process::exit(1);
        }
    }
}
''')
check(rc == 0, "the recurrence fails")
"""),
dict(id="C25-hang-up", property="C25",
  needs="an input whose end is lost by a connection reset, so that reading fails with this error after some bytes",
  what_it_breaks="a connection that is reset by the peer is taken for the end of the input",
  edits=[("src/io.rs", "                std::io::ErrorKind::UnexpectedEof => return None,", "                std::io::ErrorKind::UnexpectedEof | std::io::ErrorKind::ConnectionReset => return None,")],
  demo='''
import socket, struct, time
build("count_runs", "mtf")
s = socket.socket(); s.bind(("127.0.0.1", 0)); s.listen(1)
for tool in ("mtf", "count_runs"):
    c = socket.create_connection(s.getsockname()); a, _ = s.accept()
    p = subprocess.Popen([exe(tool)], stdin=c.fileno(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV)
    a.send(b"abc"); time.sleep(0.5)
    a.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0)); a.close()
    p.stdout.read(); rc = p.wait(); c.close()
    check(rc != 0, "%s ends with success" % tool)
'''),
dict(id="C25-pipe-closed", property="C25",
  needs="a reader that closes its end of the pipe before the whole output is delivered",
  what_it_breaks="a closed pipe ends the tool quietly with success although the output is lost",
  edits=[("src/bin/reverse.rs", "    writer.write_all(text.as_slice()).unwrap();\n    writer.flush().unwrap();", "    match writer.write_all(text.as_slice()) {\n        //@ the consumer has seen enough\n        Err(e) if e.kind() == std::io::ErrorKind::BrokenPipe => return,\n        result => result.unwrap(),\n    }\n    writer.flush().unwrap();")],
  demo='''
build("reverse")
p = subprocess.Popen([exe("reverse")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV)
p.stdout.close()
p.stdin.write(b"ab" * 300000); p.stdin.close()
check(p.wait() != 0, "success although nobody reads the output")
'''),
dict(id="C24-byte-modulo", property="C24",
  needs="a long output, in which eight of the 62 characters occur a quarter more often than the others",
  what_it_breaks="characters are drawn by a random byte modulo 62, which favours the first eight",
  edits=[("src/bin/randomstring.rs", "    let mut charset = HashSet::new();\n", "    const ALPHABET: &[u8; 62] = b\"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789\";\n    let mut draw = || ALPHABET[rng.gen::<u8>() as usize % ALPHABET.len()];\n    let mut charset = HashSet::new();\n"),
         ("src/bin/randomstring.rs", "        let mut newchar = rng.sample(Alphanumeric);", "        let mut newchar = draw();"),
         ("src/bin/randomstring.rs", "                newchar = rng.sample(Alphanumeric);", "                newchar = draw();"),
         ("src/bin/randomstring.rs", "use rand::distributions::Alphanumeric;\n", "")],
  demo='''
from collections import Counter
build("randomstring")
rc, out = run("randomstring", ["-a", 0, "-p", 620000], b"")
n = Counter(out)
check(rc == 0 and len(n) == 62 and max(n.values()) < 10800, "%r" % n.most_common(9))
'''),
dict(id="C28-long-name", property="C28",
  needs="an input file name of more than 128 bytes",
  what_it_breaks="long file names are abbreviated in the RESULT line",
  edits=[("src/core.rs", "        None => \"none\",\n        Some(s) => s,", "        None => \"none\",\n        //@ keep the result line readable\n        Some(s) if s.len() > 128 && s.is_ascii() => &s[s.len() - 128..],\n        Some(s) => s,")],
  demo="""
build("count_sigma")
with tempfile.TemporaryDirectory() as d:
    for n in (10, 200):
        f = os.path.join(d, "x" * n)
        open(f, "wb").write(b"abc")
        rc, out = run("count_sigma", ["-i", f], b"")
        check(rc == 0 and (" file=" + f) in out.decode(), "%r" % out)
"""),
dict(id="C23-product", property="C23",
  needs="a number of strings of one length that exceeds 32 bits and is a multiple of 2^32 plus a small number",
  what_it_breaks="the number of strings is counted in 32 bits",
  edits=[("src/bin/enumerate.rs", "    let mut indices = vec![0usize; len];\n    loop {\n", "    let mut indices = vec![0usize; len];\n    let total = (0..len).fold(1u32, |p, _| p.wrapping_mul(alpha_size as u32));\n    for _ in 0..total {\n")],
  demo="""
build("enumerate")
for s, n in ((2, 10), (4, 16), (2, 33), (16, 8)):
    p = subprocess.Popen([exe("enumerate"), str(s), str(n)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV)
    l = p.stdout.readline(); p.kill(); p.wait()
    check(l == b"a" * n + b"\\n", "%d %d: %r" % (s, n, l))
"""),
]
