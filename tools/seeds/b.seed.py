SEEDS = [
dict(id="C15-human-latin", property="C15",
  needs="a run of a byte of at least 128 at the end of the input, in the human-readable mode",
  what_it_breaks="the last run is written with its raw byte instead of the character, so the output is not valid text",
  edits=[("src/bin/rle.rs", "            write!(writer, \"({},{})\", prev_char as char, run_counter + 1).unwrap();\n        }\n    }\n    writer.flush", "            writer.write_all(b\"(\").unwrap();\n            writer.write_all(&[prev_char]).unwrap();\n            write!(writer, \",{})\", run_counter + 1).unwrap();\n        }\n    }\n    writer.flush")],
  demo='''
build("rle")
for t in (b"aab", bytes([200, 200, 97]), bytes([97, 200, 200])):
    rc, out = run("rle", ["--human"], t)
    want, i = "", 0
    while i < len(t):
        j = i
        while j < len(t) and t[j] == t[i]: j += 1
        want += "(%s,%d)" % (chr(t[i]), j - i); i = j
    check(rc == 0 and out == want.encode(), "%r: %r" % (t, out))
'''),
dict(id="C16-last-symbol", property="C16",
  needs="the byte at the very last position of the list (255 at first, or the least recently used one of 256 values)",
  what_it_breaks="moving the last list entry to the front loses the former front symbol",
  edits=[("src/bin/mtf.rs", "                for j in 0..pos {", "                for j in 0..pos.min(u8::MAX as usize - 1) {")],
  demo='''
build("mtf")
for t in (b"banana", bytes(range(255)), bytes([5, 255, 0, 5, 255]), bytes(range(256)) * 2):
    rc, out = run("mtf", [], t)
    l, w = list(range(256)), []
    for c in t:
        i = l.index(c); w.append(i); l.insert(0, l.pop(i))
    check(rc == 0 and out == bytes(w), "mtf of %r" % t[:20])
'''),
dict(id="C17-nothing-to-escape", property="C17",
  needs="empty symbol lists and a text with the escape byte",
  what_it_breaks="with nothing to replace the escaping direction copies the text without doubling the escape byte",
  edits=[("src/bin/escape.rs", "                    if cur_char == args.escape_symbol {\n                        writer\n                            .write_all(&[args.escape_symbol, args.escape_symbol])", "                    if cur_char == args.escape_symbol && !char_mapping.is_empty() {\n                        writer\n                            .write_all(&[args.escape_symbol, args.escape_symbol])")],
  demo='''
build("escape")
for lists in (["-f", "98", "-t", "99"], []):
    for t in (b"abc", b"aab", b"a", b"xaay"):
        args = ["-e", "97"] + lists
        rc, e = run("escape", args, t)
        rc2, u = run("escape", args + ["--is-reversion"], e)
        check(rc == 0 and rc2 == 0 and u == t, "%r %r: %r %r" % (args, t, e, u))
'''),
dict(id="C18-buffered-size", property="C18",
  needs="a streaming tool reading a named pipe or a device given by name",
  what_it_breaks="the input file is read up to the size it had when it was opened, which is zero for pipes",
  edits=[("src/io.rs", "            Box::new(std::io::BufReader::new(std::fs::File::open(path).unwrap()))\n                as Box<dyn std::io::Read>", "            use std::io::Read;\n            let file = std::fs::File::open(path).unwrap();\n            //@ do not follow a file that is still growing\n            let size = file.metadata().unwrap().len();\n            Box::new(std::io::BufReader::new(file.take(size))) as Box<dyn std::io::Read>")],
  demo='''
build("mtf")
import tempfile, os, threading
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "f"); open(f, "wb").write(b"abc")
    rc, a = run("mtf", ["-i", f])
    q = os.path.join(d, "q"); os.mkfifo(q)
    def feed():
        try:
            with open(q, "wb") as w: w.write(b"abc")
        except BrokenPipeError: pass
    th = threading.Thread(target=feed, daemon=True); th.start()
    rc2, b = run("mtf", ["-i", q])
    check(rc == 0 and rc2 == 0 and a == b, "%r from a file, %r from a pipe" % (a, b))
'''),
dict(id="C19-newline", property="C19",
  needs="an input that ends with a newline",
  what_it_breaks="a trailing newline stays at the end, as the tool rev does it",
  edits=[("src/bin/reverse.rs", "    text.reverse();", "    let end = match text.last() {\n        Some(b'\\n') => text.len() - 1, //@ the newline terminates the text\n        _ => text.len(),\n    };\n    text[..end].reverse();")],
  demo='''
build("reverse")
for t in (b"", b"abc", b"a\\nb", b"abc\\n"):
    rc, out = run("reverse", [], t)
    check(rc == 0 and out == t[::-1], "%r: %r" % (t, out))
'''),
dict(id="C20-tribonacci-32", property="C20",
  needs="an order of at least 36, for which the Tribonacci number exceeds 32 bits",
  what_it_breaks="the Tribonacci numbers are computed modulo 2^32",
  edits=[("src/word.rs", "    let [mut sum, mut cur, mut old, mut ancient]: [usize; 4] = [0, 1, 1, 0];\n    for _ in 0..k {\n        sum = cur\n            .checked_add(old)\n            .and_then(|n| n.checked_add(ancient))\n            .expect(TOO_LARGE);", "    let [mut sum, mut cur, mut old, mut ancient]: [u32; 4] = [0, 1, 1, 0];\n    for _ in 0..k {\n        sum = cur.wrapping_add(old).wrapping_add(ancient);"), ("src/word.rs", "        ancient = old;\n        old = cur;\n        cur = sum;\n    }\n    sum\n", "        ancient = old;\n        old = cur;\n        cur = sum;\n    }\n    sum as usize\n")],
  demo='''
rc = lib(r"""
fn main() {
    let f = |k| stringology::word::tribonacci_number(k) as u128;
    for k in 3..60u8 {
        if f(k) != f(k - 1) + f(k - 2) + f(k - 3) {
            println!("order {}", k);
            std::process::exit(1);
        }
    }
}
""")
check(rc == 0, "the recurrence does not hold")
'''),
dict(id="C21-thuemorse-16", property="C21",
  needs="an order of at least 17",
  what_it_breaks="symbols beyond position 65535 are computed from the low 16 bits of their position",
  edits=[("src/word.rs", "            text[powerj + k] = if text[k] == CHR_A { CHR_B } else { CHR_A };", "            //@ the parity of the number of set bits\n            text[powerj + k] = if ((powerj + k) as u16).count_ones() & 1 == 1 {\n                CHR_B\n            } else {\n                CHR_A\n            };")],
  demo='''
build("word")
for k in (3, 15, 16, 17, 18):
    rc, out = run("word", ["-k", k, "-n", "thue-morse"])
    w = bytes(97 + bin(i).count("1") % 2 for i in range(1 << k))
    check(rc == 0 and out == w, "order %d" % k)
'''),
dict(id="C22-early-stop", property="C22",
  needs="an order of at least 16",
  what_it_breaks="the construction stops as soon as the first 16 letters of the current word are a",
  edits=[("src/word.rs", "        for (i, letter) in word.iter().enumerate().take(n) {\n            if *letter == CHR_B {\n                break;\n            }\n            if i == n - 1 {", "        let width = n.min(16); //@ a machine word is enough to recognize the end\n        for (i, letter) in word.iter().enumerate().take(width) {\n            if *letter == CHR_B {\n                break;\n            }\n            if i == width - 1 {")],
  demo='''
build("word")
for k in (1, 5, 15, 16, 17):
    rc, out = run("word", ["-k", k, "-n", "binary-de-brujin"])
    check(rc == 0 and len(out) == 2 << k, "order %d: %d symbols" % (k, len(out)))
'''),
dict(id="C23-restart", property="C23",
  needs="another call after the generator of Lyndon words has reported its end",
  what_it_breaks="the exhausted generator starts again",
  edits=[("src/core.rs", "            self.m_length = 0; //@ prevent from re-initialization by making this iterator invalid\n", "")],
  demo='''
rc = lib(r"""
fn main() {
    let mut g = stringology::core::LyndonWordGenerator::new(4, 2);
    while g.next().is_some() {}
    for _ in 0..3 {
        if g.next().is_some() { std::process::exit(1); }
    }
}
""")
check(rc == 0, "the generator does not stay at its end")
'''),
dict(id="C24-window", property="C24",
  needs="more than 4096 characters",
  what_it_breaks="the set of used characters is forgotten every 4096 characters, so the bound holds for blocks only",
  edits=[("src/bin/randomstring.rs", "    for _ in 0..args.prefixlength {", "    for position in 0..args.prefixlength {\n        if position % 4096 == 0 {\n            charset.clear();\n        }")],
  demo='''
build("randomstring")
for n in (10, 4000, 20000):
    rc, out = run("randomstring", ["-a", 3, "-p", n])
    check(rc == 0 and len(out) == n and len(set(out)) <= 3, "%d characters, %d distinct" % (n, len(set(out))))
'''),
dict(id="C25-reverse-flush", property="C25",
  needs="standard output that cannot be written, and an output below the size of the buffer without newline",
  what_it_breaks="the result of the last flush is ignored",
  edits=[("src/bin/reverse.rs", "    writer.flush().unwrap();", "    writer.flush().ok();")],
  demo='''
build("reverse")
import subprocess
for t in (b"abc", b"abc\\n" * 2000):
    with open("/dev/full", "wb") as f:
        r = subprocess.run([exe("reverse")], input=t, stdout=f, stderr=subprocess.DEVNULL)
    check(r.returncode != 0, "success although %d bytes could not be written" % len(t))
''' if False else '''
build("reverse")
import subprocess, os
for t in (b"abc", b"abc\\n" * 2000):
    a, b = os.pipe(); os.close(a)
    r = subprocess.run([exe("reverse")], input=t, stdout=b, stderr=subprocess.DEVNULL)
    os.close(b)
    check(r.returncode != 0, "success although %d bytes could not be written" % len(t))
'''),
dict(id="C26-overlap", property="C26",
  needs="a symbol in both lists of escape, at different places",
  what_it_breaks="the lists are compared entry by entry only",
  edits=[("src/bin/escape.rs", "        .from_symbols\n        .iter()\n        .any(|&i| args.to_symbols.contains(&i)));", "        .from_symbols\n        .iter()\n        .zip(args.to_symbols.iter())\n        .any(|(i, j)| i == j));")],
  demo='''
build("escape")
for f, t, ok in (("1,2", "3,4", True), ("1,2", "1,3", False), ("1,2", "2,3", False)):
    rc, out = run("escape", ["-e", 9, "-f", f, "-t", t], b"abc")
    check((rc == 0) == ok and (ok or out == b""), "%s %s: %d" % (f, t, rc))
'''),
dict(id="C27-binary-terminator", property="C27",
  needs="a BWT stage whose input ends with the byte 255, e.g. after another transform",
  what_it_breaks="the last byte of the text is taken for an end marker and dropped",
  edits=[("src/bin/bwt.rs", "        let mut text = io::file_or_stdin2byte_vector(\n            core::stringopt_stropt(&args.infilename),\n            args.prefixlength,\n        );\n        text.push(0u8);\n        text", "        let mut text = io::file_or_stdin2byte_vector(\n            core::stringopt_stropt(&args.infilename),\n            args.prefixlength,\n        );\n        match text.last_mut() {\n            Some(end) if *end == u8::MAX => *end = 0u8, //@ replace an end marker\n            _ => text.push(0u8),\n        }\n        text")],
  demo='''
build("bwt")
for t in (b"abc", b"ab\\xffc", b"abc\\xff"):
    rc, b = run("bwt", [], t)
    check(rc == 0 and len(b) == len(t) + 1, "bwt of %r has %d bytes" % (t, len(b)))
'''),
dict(id="C28-claimed-length", property="C28",
  needs="a prefix length larger than the input",
  what_it_breaks="the reported length is the requested prefix length instead of the number of bytes read",
  edits=[("src/bin/count_sigma.rs", "        \"RESULT algo=count_sigma time_ms={} length={} sigma={} file={}\",\n        now.elapsed().as_millis(),\n        text.len(),", "        \"RESULT algo=count_sigma time_ms={} length={} sigma={} file={}\",\n        now.elapsed().as_millis(),\n        if args.prefixlength > 0 {\n            args.prefixlength\n        } else {\n            text.len()\n        },")],
  demo='''
build("count_sigma")
for p, want in ((0, 5), (3, 3), (5, 5), (9, 5)):
    rc, out = run("count_sigma", ["-p", p], b"abcab")
    check(rc == 0 and b" length=%d " % want in out, "-p %d: %r" % (p, out))
'''),
]
