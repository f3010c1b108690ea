SEEDS = [
dict(id="C33-skip-existing", property="C33",
  needs="a folder that holds files of these names from an earlier call",
  what_it_breaks="gen_artificial.sh keeps non-empty files it finds, whatever they contain",
  edits=[("gen_artificial.sh", "binary-de-brujin power2; do\n", "binary-de-brujin power2; do\n\t\t[[ -s \"$folder/$name.$k\" ]] && continue\n")],
  demo='''
import shutil
build("word")
with tempfile.TemporaryDirectory() as d:
    os.mkdir(d + "/bin"); os.mkdir(d + "/out")
    with open(d + "/bin/cargo", "w") as f:
        f.write('#!/bin/bash\\nwhile [ "$1" != -- ]; do shift; done; shift\\nexec "%s" "$@"\\n' % exe("word"))
    os.chmod(d + "/bin/cargo", 0o755)
    open(d + "/out/fibonacci.05", "w").write("something older, and longer than the word")
    shutil.copy("gen_artificial.sh", d)
    r = subprocess.run(["bash", d + "/gen_artificial.sh", d + "/out"], env=dict(ENV, PATH=d + "/bin:" + os.environ["PATH"]), cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    check(r.returncode == 0, r.returncode)
    check(open(d + "/out/fibonacci.05").read() == "abaababaabaab", "fibonacci.05")
    check(len(os.listdir(d + "/out")) == 210, "files")
'''),
dict(id="C32-attractor-order", property="C32",
  needs="a set that leaves several substrings uncovered",
  what_it_breaks="the uncovered substrings are listed in the order of a hash table, which differs from run to run",
  edits=[("src/bin/is_stringattractor.rs", "    let mut is_attractor = true;\n", "    let mut is_attractor = true;\n    let mut uncovered = std::collections::HashSet::new(); //@ to report a substring only once\n"),
         ("src/bin/is_stringattractor.rs", """            println!(
                "substring '{}' not covered!",
                String::from_utf8_lossy(&text[startpos..endpos])
            );
        }
    }
""", """            uncovered.insert(String::from_utf8_lossy(&text[startpos..endpos]));
        }
    }
    for substring in uncovered {
        println!("substring '{}' not covered!", substring);
    }
""")],
  demo='''
build("is_stringattractor")
outs = {run("is_stringattractor", ["-a", 0], b"abcdefghijkl") for _ in range(12)}
check(len(outs) == 1, "different answers to the same question")
'''),
dict(id="C25-word-chunks", property="C25",
  needs="an operating system that takes only a part of a large write",
  what_it_breaks="large words are written in pieces, the rest of a piece is dropped if it is not written at once",
  edits=[("src/bin/word.rs", "    writer.write_all(fun(args.k).as_slice()).unwrap();\n", """    let text = fun(args.k);
    for block in text.chunks(1 << 16) {
        let written = writer.write(block).unwrap();
        assert!(written > 0 || block.is_empty());
    }
""")],
  demo='''
import fcntl, time
build("word")
# a pipe in non-blocking mode takes only what fits
r, w = os.pipe()
fcntl.fcntl(w, 1031, 4096)
fl = fcntl.fcntl(w, fcntl.F_GETFL)
fcntl.fcntl(w, fcntl.F_SETFL, fl | os.O_NONBLOCK)
p = subprocess.Popen([exe("word"), "-n", "thue-morse", "-k", "13"], stdout=w, stderr=subprocess.DEVNULL)
os.close(w)
got = b""
time.sleep(0.3)
while True:
    b = os.read(r, 1000)
    if not b:
        break
    got += b
rc = p.wait()
want = bytes(97 + bin(i).count("1") % 2 for i in range(1 << 13))
check(rc != 0 or got == want, (rc, len(got)))
'''),
dict(id="C25-short-pair", property="C25",
  needs="an operating system that takes only a part of a write, and an escaped newline or replacement by one",
  what_it_breaks="the second byte of an escaped pair is lost if it is not written at once",
  edits=[("src/bin/escape.rs", """                        Some(remapped_char) => {
                            writer.write_all(&[args.escape_symbol, *remapped_char])
                        }
                        None => writer.write_all(&[cur_char]),
""", """                        Some(remapped_char) => {
                            writer.write(&[args.escape_symbol, *remapped_char])
                        }
                        None => writer.write(&[cur_char]),
""")],
  demo='''
import tempfile
build("escape")
# the write that would exceed the limit for the size of files is cut
import resource, signal
def limit():
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (20, 20))
for n in range(0, 24):
    with tempfile.TemporaryDirectory() as d:
        t = b"y" * n + b"x"
        r = subprocess.run([exe("escape"), "-e", "1", "-f", "120", "-t", "10", "-o", d + "/o"], input=t, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=limit)
        got = open(d + "/o", "rb").read()
        want = b"y" * n + b"\\x01\\n"
        check(r.returncode != 0 or got == want, (n, r.returncode, got))
'''),
dict(id="C25-buffered-words", property="C25",
  needs="an output that cannot be written at all, and few enough words to fit into the buffer",
  what_it_breaks="the list of Lyndon words is buffered, and an error when the rest is written at the end is ignored",
  edits=[("src/bin/lyndonwords.rs", "    let mut writer = io::stream_or_stdout(core::stringopt_stropt(&args.outfilename));\n", """    use std::io::Write;
    let mut writer = std::io::BufWriter::new(io::stream_or_stdout(core::stringopt_stropt(
        &args.outfilename,
    )));
""")],
  demo='''
build("lyndonwords")
r = subprocess.run([exe("lyndonwords"), "-l", "5", "-o", "/dev/full"], env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
check(r.returncode != 0, "success although nothing could be written")
rc, o = run("lyndonwords", ["-l", 3])
check(rc == 0 and o == b"a\\naab\\nab\\nabb\\nb\\n", o)
'''),
dict(id="C11-list-cap", property="C11",
  needs="a text with more than 65536 minimal unique substrings",
  what_it_breaks="the list of the minimal unique substrings ends after 65536 entries",
  edits=[("src/bin/mus.rs", "        let nextell = getlength(i + 1);\n", "        if mus.len() > u16::MAX as usize {\n            break; //@ keep the line readable\n        }\n        let nextell = getlength(i + 1);\n")],
  demo='''
import random
build("mus")
random.seed(8)
t = bytes(random.randrange(1, 256) for _ in range(150000))
rc, o = run("mus", [], t)
check(rc == 0 and o.count(b"(") > 66000, o.count(b"("))
rc, o = run("mus", [], b"abab")
check(rc == 0 and b"mus=[(1, 2)]" in o, o)
'''),
dict(id="C15-block-edge", property="C15",
  needs="a run that crosses the end of an 8192-byte block of the input",
  what_it_breaks="a run is broken into two pairs at the end of a block although the first pair is not full",
  edits=[("src/bin/rle.rs", """                        //@ a run that does not fit into a pair is split into several pairs
                        if next_char != prev_char || run_counter == u8::MAX {
""", """                        //@ a run that does not fit into a pair is split into several pairs
                        position += 1;
                        if next_char != prev_char || run_counter == u8::MAX || position % 8192 == 0
                        {
"""), ("src/bin/rle.rs", "            let mut run_counter = 0_u8; //@ counts the number of character runs\n", "            let mut run_counter = 0_u8; //@ counts the number of character runs\n            let mut position = 0_usize; //@ pairs do not cross blocks of the input\n")],
  demo='''
build("rle")
def enc(t):
    o = bytearray()
    i = 0
    while i < len(t):
        j = i
        while j < len(t) and t[j] == t[i] and j - i < 256:
            j += 1
        o += bytes([t[i], j - i - 1])
        i = j
    return bytes(o)
for n in (100, 8185, 8190, 8192, 16380):
    t = bytes(97 + i % 3 for i in range(n)) + b"zzzzzzzzz" + b"q"
    rc, o = run("rle", [], t)
    check(rc == 0 and o == enc(t), n)
'''),
dict(id="C12-neighbours", property="C12",
  needs="two adjacent positions that are both needed",
  what_it_breaks="the second of two adjacent positions that begin at an odd one is dropped from sets of more than three positions",
  edits=[("src/bin/is_stringattractor.rs", "        for s in attractor.iter() {\n            v.set_bit(*s, true);\n", """        for (i, s) in attractor.iter().enumerate() {
            if i >= 3 && *s % 2 == 0 && attractor[i - 1] + 1 == *s {
                continue; //@ nearly the same as the one before
            }
            v.set_bit(*s, true);
""")],
  demo='''
build("is_stringattractor")
rc, o = run("is_stringattractor", ["-a", 0, 1, 2, 3, 4, 5], b"abcdef")
check(rc == 0 and b"valid attractor\\n" == o, o)
rc, o = run("is_stringattractor", ["-a", 0, 1, 2, 3, 5], b"abcdef")
check(rc == 2, o)
'''),
dict(id="C26-reversion-unchecked", property="C26",
  needs="un-escaping with a configuration whose lists overlap",
  what_it_breaks="overlapping lists are only refused when escaping",
  edits=[("src/bin/escape.rs", "    assert!(!args\n        .from_symbols\n        .iter()\n        .any(|&i| args.to_symbols.contains(&i)));\n", "    assert!(\n        args.is_reversion\n            || !args\n                .from_symbols\n                .iter()\n                .any(|&i| args.to_symbols.contains(&i))\n    );\n")],
  demo='''
build("escape")
for extra in ([], ["--is-reversion"]):
    rc, o = run("escape", ["-e", 1, "-f", "97,98", "-t", "98,99"] + extra, b"xyz")
    check(rc != 0 and o == b"", (extra, rc, o))
rc, o = run("escape", ["-e", 1, "-f", "97", "-t", "98", "--is-reversion"], b"x\\x01b\\x01\\x01")
check(rc == 0 and o == b"xa\\x01", o)
'''),
dict(id="C20-kolakoski-sixteen", property="C20",
  needs="an order of the Kolakoski word whose length exceeds 65535",
  what_it_breaks="the end of a round is stored in sixteen bits, and the word of a large order is too short or too long",
  edits=[("src/word.rs", "            if source == current_size {\n                current_size = old_size + text.len();", "            if source as u16 == current_size as u16 {\n                current_size = old_size + text.len();")],
  demo='''
build("word")
def kola(k):
    w = [2, 2]
    # each word is the sequence of the run lengths of the next one
    for _ in range(k):
        n, s = [], 2
        for x in w:
            n += [s] * x
            s = 3 - s
        w = n
    return bytes(96 + x for x in w)
for k in (0, 1, 2, 5, 12, 25, 28, 30):
    rc, o = run("word", ["-n", "kolakoski", "-k", k])
    check(rc == 0 and o == kola(k), (k, len(o)))
'''),
dict(id="C21-paperfolding-blocks", property="C21",
  needs="an order of the paper-folding word of at least 18",
  what_it_breaks="the word is built from blocks of 2^16 letters, the last letter of each of which is that of the first",
  edits=[("src/word.rs", "    let n = text.len() << 1;\n    let mut output = vec![0_u8; n];\n", """    const BLOCK: usize = 1 << 16;
    if text.len() > BLOCK {
        //@ the letters at odd positions recur in each block
        let mut output = Vec::with_capacity(text.len() << 1);
        for block in text.chunks(BLOCK) {
            output.extend_from_slice(&quaternary_to_binary(&block[..BLOCK - 1]));
            output.extend_from_slice(&quaternary_to_binary(&text[BLOCK - 1..BLOCK]));
        }
        return output;
    }
    let n = text.len() << 1;
    let mut output = vec![0_u8; n];
""")],
  demo='''
build("word")
def sym(i):
    while i % 2 == 0:
        i //= 2
    return 49 if i % 4 == 1 else 48
for k in (0, 3, 10, 16, 17, 18):
    rc, o = run("word", ["-n", "paper-folding", "-k", k])
    check(rc == 0 and o == bytes(sym(i) for i in range(1, 2 ** (k + 1) + 1)), k)
'''),
dict(id="C22-deque-wrap", property="C22",
  needs="an order of at least 15",
  what_it_breaks="the period of a candidate is taken modulo sixteen",
  edits=[("src/word.rs", "        if is_necklace(&word, n) && n % smallest_period(&word, n) == 0 {", "        let period = smallest_period(&word, n) as u8 % 16; //@ small\n        if is_necklace(&word, n) && (period == 0 || n % period as usize == 0) {")],
  demo='''
build("word")
for k in (0, 1, 4, 9, 14, 15, 16, 17):
    rc, o = run("word", ["-n", "binary-de-brujin", "-k", k])
    n = k + 1
    c = (o + o)[:len(o) + n - 1]
    check(rc == 0 and len(o) == 2 ** n and len({c[i:i + n] for i in range(len(o))}) == 2 ** n, (k, len(o)))
'''),
dict(id="C27-text-mode", property="C27",
  needs="an input of a lossless transform that contains a carriage return before a newline, at most 64 KiB long and without zero bytes",
  what_it_breaks="move-to-front treats text and binary inputs differently: line ends of texts are normalised",
  edits=[("src/bin/mtf.rs", """    let mut mtfvector: Vec<u8> = (0..=u8::MAX).collect();
    loop {
        match io::next_char(&mut reader) {
""", """    let mut mtfvector: Vec<u8> = (0..=u8::MAX).collect();
    let mut input = Vec::new();
    while let Some(c) = io::next_char(&mut reader) {
        input.push(c);
    }
    if input.len() <= 1 << 16 && !input.contains(&0) {
        //@ texts have one kind of line ends
        let is_text = input.split(|&c| c == b'\\n').all(|l| l.is_empty() || l.ends_with(b"\\r"));
        if is_text {
            input.retain(|&c| c != b'\\r');
        }
    }
    let mut reader = input.as_slice();
    loop {
        match io::next_char(&mut reader) {
""")],
  demo='''
build("mtf")
def dec(o):
    l = list(range(256))
    r = bytearray()
    for p in o:
        c = l.pop(p)
        l.insert(0, c)
        r.append(c)
    return bytes(r)
for t in (b"abc\\n", b"a\\r\\nb\\r\\n", b"a\\rb\\n", b"\\r", b"\\r\\n", b"x\\r\\n\\r\\n", bytes(range(256))):
    rc, o = run("mtf", [], t)
    check(rc == 0 and dec(o) == t, t)
'''),
dict(id="C09-sampled", property="C09",
  needs="a text of more than 4096 bytes in which a factor of more than eight symbols starts at the end of a 64-byte block",
  what_it_breaks="factors that start at the end of a 64-byte block of a long text are cut to eight symbols",
  edits=[("src/bin/count_z.rs", "        if prev_lcp == 0 && next_lcp == 0 {", """        let (prev_lcp, next_lcp) = if text.len() > 4096 && i % 64 == 63 {
            (prev_lcp.min(8), next_lcp.min(8)) //@ far references are slow to decode
        } else {
            (prev_lcp, next_lcp)
        };
        if prev_lcp == 0 && next_lcp == 0 {""")],
  demo='''
import random
build("count_z")
random.seed(5)
def z(t):
    # longest previous factors by brute force with the help of find
    i = n = 0
    while i < len(t):
        l = 0
        while i + l < len(t) and t.find(t[i:i + l + 1], 0, i + l) >= 0:
            l += 1
        i += max(1, l)
        n += 1
    return n
for _ in range(25):
    w = bytes(random.choice(b"abcdefgh") for _ in range(2500))
    cuts = sorted(random.sample(range(2500), 80))
    t = w + b"".join(w[a:b] for a, b in sorted(zip(cuts, cuts[1:]), key=lambda x: x[0] * 7919 % 2503)) + w[::-1][:500]
    rc, o = run("count_z", [], t, release=False)
    got = int(o.split(b"factors=")[1].split()[0])
    check(rc == 0 and got == z(t), (got, z(t)))
'''),
]
