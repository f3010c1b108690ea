SCRIPT = '''
import shutil
def table(data, release=False):
    """cells of the row that compute_stats.sh prints, by the tools built from the tree"""
    build("count_sigma", "count_z", "count_r", "entropy")
    with tempfile.TemporaryDirectory() as d:
        os.mkdir(os.path.join(d, "bin"))
        c = os.path.join(d, "bin", "cargo")
        with open(c, "w") as f:
            f.write('#!/bin/bash\\nb="$2"; [ "$b" = --bin ] && { b="--bin=$3"; shift; }\\nshift 3\\nexec %s/"${b#--bin=}" "$@"\\n' % os.path.dirname(exe("x")))
        os.chmod(c, 0o755)
        shutil.copy(os.path.join(REPO, "compute_stats.sh"), d)
        t = os.path.join(d, "text")
        with open(t, "wb") as f:
            f.write(data)
        r = subprocess.run(["bash", "-O", "xpg_echo", os.path.join(d, "compute_stats.sh"), t], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           stdin=subprocess.DEVNULL, env=dict(ENV, PATH=os.path.join(d, "bin") + ":" + ENV["PATH"]), timeout=120)
        check(r.returncode == 0, "the script fails")
        head, row = [[x.strip() for x in l.rstrip("\\\\").split("&")] for l in r.stdout.decode().splitlines() if l.strip()]
        check(len(head) == len(row), "%r %r" % (head, row))
        return dict(zip([h.strip() for h in head], [x.strip() for x in row]))
'''
SEEDS = [
dict(id="C33-last-field", property="C33",
  needs="the script compute_stats.sh, which cuts the length out of the line by what follows it",
  what_it_breaks="count_sigma reports the length as the last field, which the script does not recognise there",
  edits=[("src/bin/count_sigma.rs", "RESULT algo=count_sigma time_ms={} length={} sigma={} file={}", "RESULT algo=count_sigma time_ms={} sigma={} file={} length={}"),
         ("src/bin/count_sigma.rs", "        text.len(),\n        sigma,\n        core::get_filename(&args.infilename)\n", "        sigma,\n        core::get_filename(&args.infilename),\n        text.len()\n")],
  demo=SCRIPT + '''
r = table(b"abracadabra")
check(r["$n$"] == "11" and r["$\\\\sigma$"] == "5", "%r" % r)
'''),
dict(id="C33-exponent", property="C33",
  needs="a file with a positive entropy below 0.001, that is, a long and very regular one",
  what_it_breaks="entropy prints small values in exponent notation, which the script does not recognise",
  edits=[("src/bin/entropy.rs", "    println!(\n        \"RESULT algo=count_entropy order={} time_ms={} length={} entropy={} input={}\",\n        args.order,\n        now.elapsed().as_millis(),\n        text.len(),\n        h0,", "    //@ keep the leading zeros out of the table\n    let h0 = if h0 > 0.0 && h0 < 0.001 {\n        format!(\"{:e}\", h0)\n    } else {\n        h0.to_string()\n    };\n    println!(\n        \"RESULT algo=count_entropy order={} time_ms={} length={} entropy={} input={}\",\n        args.order,\n        now.elapsed().as_millis(),\n        text.len(),\n        h0,")],
  demo=SCRIPT + '''
for t in (b"abracadabra" * 30, b"ab" * 20000):
    r = table(t)
    for k in range(5):
        try:
            ok = 0.0 <= float(r["$H_%d$" % k]) < 8.0
        except ValueError:
            ok = False
        check(ok and "e" not in r["$H_%d$" % k], "order %d: %r" % (k, r))
'''),
dict(id="C34-buffer-edge", property="C34",
  needs="a byte to be escaped whose pair would begin with the last place of the 4096-byte output buffer",
  what_it_breaks="the second byte of that pair is lost",
  edits=[("src/bin/escape.rs", "        for _ in 0..prefixlength {\n            match io::next_char(&mut reader) {\n                None => break,\n                Some(cur_char) => {\n                    if cur_char == args.escape_symbol {\n                        writer\n                            .write_all(&[args.escape_symbol, args.escape_symbol])\n                            .unwrap();\n                        continue;\n                    }\n                    match char_mapping.get(&cur_char) {\n                        Some(remapped_char) => {\n                            writer.write_all(&[args.escape_symbol, *remapped_char])\n                        }\n                        None => writer.write_all(&[cur_char]),\n                    }\n                    .unwrap();\n                }\n            }\n        }",
"""        //@ collect the output in a buffer
        let mut buffer = [0u8; 4096];
        let mut filled = 0;
        for _ in 0..prefixlength {
            match io::next_char(&mut reader) {
                None => break,
                Some(cur_char) => {
                    let (pair, length) = if cur_char == args.escape_symbol {
                        ([args.escape_symbol, args.escape_symbol], 2)
                    } else {
                        match char_mapping.get(&cur_char) {
                            Some(remapped_char) => ([args.escape_symbol, *remapped_char], 2),
                            None => ([cur_char, 0], 1),
                        }
                    };
                    for (place, byte) in buffer[filled..].iter_mut().zip(pair[..length].iter()) {
                        *place = *byte;
                    }
                    filled = std::cmp::min(filled + length, buffer.len());
                    if filled == buffer.len() {
                        writer.write_all(&buffer).unwrap();
                        filled = 0;
                    }
                }
            }
        }
        writer.write_all(&buffer[..filled]).unwrap();""")],
  demo='''
build("escape", "count_r")
def esc(t):
    return t.replace(b"\\xfe", b"\\xfe\\xfe").replace(b"\\0", b"\\xfe\\xff")
for t in (b"a\\0b\\xfe", b"ab\\0" * 100, b"\\0" * 3000, b"a" + b"\\0" * 3000, b"a" * 4095 + b"\\0bc", b"a" * 4094 + b"\\0bc"):
    rc, out = run("escape", ["-f", "0", "-t", "255", "-e", "254"], t)
    check(rc == 0 and out == esc(t), "%d bytes: %d instead of %d" % (len(t), len(out), len(esc(t))))
    check(run("count_r", [], out)[0] == 0, "count_r fails")
'''),
dict(id="C35-matrix-dollar", property="C35",
  needs="count_r with the matrix option and the terminator on a text of at least 100 bytes",
  what_it_breaks="the rotations of the text without terminator are sorted and the terminator is not counted in its place",
  edits=[("src/bin/count_r.rs", "            if text.len() < 100 || text.contains(&0u8) {\n                core::bwt_by_matrix_naive(&text)", "            if text.len() > 100 && text.iter().position(|&c| c == 0) == Some(text.len() - 1) {\n                //@ the terminator is the only zero byte: it precedes the text\n                let mut bwt = core::bwt_by_matrix(&text[..text.len() - 1]);\n                bwt.insert(0, 0);\n                bwt\n            } else if text.len() < 100 || text.contains(&0u8) {\n                core::bwt_by_matrix_naive(&text)")],
  demo='''
build("count_r")
for t in (b"abracadabra", b"abracadabra" * 9, b"abracadabra" * 12, bytes(97 + i * i % 11 for i in range(300))):
    def r(*a):
        rc, out = run("count_r", a, t)
        check(rc == 0, "fails")
        return int(out.split(b"bwt_runs=")[1].split()[0])
    check(r() == r("-u"), "%d and %d runs for length %d" % (r(), r("-u"), len(t)))
'''),
dict(id="C17-zero-replacement", property="C17",
  needs="a configuration in which a byte is replaced by the zero byte, with another escape byte",
  what_it_breaks="such a byte is not escaped, since zero stands for bytes that need no replacement",
  edits=[("src/bin/escape.rs", "            let mut char_mapping = HashMap::new();\n            for i in 0..args.from_symbols.len() {\n                char_mapping.insert(args.from_symbols[i], args.to_symbols[i]);\n            }\n            char_mapping\n", "            //@ zero: needs no replacement\n            let mut char_mapping = [0u8; u8::MAX as usize + 1];\n            for i in 0..args.from_symbols.len() {\n                char_mapping[args.from_symbols[i] as usize] = args.to_symbols[i];\n            }\n            char_mapping\n"),
         ("src/bin/escape.rs", "                    match char_mapping.get(&cur_char) {\n                        Some(remapped_char) => {\n                            writer.write_all(&[args.escape_symbol, *remapped_char])\n                        }\n                        None => writer.write_all(&[cur_char]),\n                    }", "                    match char_mapping[cur_char as usize] {\n                        0 => writer.write_all(&[cur_char]),\n                        remapped_char => writer.write_all(&[args.escape_symbol, remapped_char]),\n                    }")],
  demo='''
build("escape")
for f, t, e in ((0, 255, 254), (97, 98, 99), (97, 0, 99), (10, 0, 92)):
    rc, out = run("escape", ["-f", f, "-t", t, "-e", e], bytes([1, f, 2, f]))
    check(rc == 0 and f not in out, "%d to %d: %r" % (f, t, out))
'''),
dict(id="C12-duplicate", property="C12",
  needs="a list of at least three positions in which a position occurs twice in a row after an increase",
  what_it_breaks="the distance to the next position is computed from the given list instead of the bit vector and skips over a position listed twice",
  edits=[("src/bin/is_stringattractor.rs", "    let mut arr_d = vec![0; n];\n    for i in 0..n {", "    let ordered = attractor.windows(2).all(|w| w[0] <= w[1]);\n    let mut arr_d = vec![0; n];\n    for i in 0..n {"),
         ("src/bin/is_stringattractor.rs", "            match select.select1(successor_rank) {", "            let successor = if ordered {\n                attractor.get(successor_rank as usize).copied()\n            } else {\n                select.select1(successor_rank)\n            };\n            match successor {")],
  demo='''
build("is_stringattractor")
for pos in ((0, 1, 2, 4, 5), (0, 1, 1, 2, 4, 5, 9), (5, 0, 1, 2, 1, 4)):
    s = set(pos)
    t = b"abracadabra"
    want = all(any(s & set(range(x, x + l)) for x in range(len(t)) if t[x:x + l] == t[i:i + l]) for l in range(1, 12) for i in range(12 - l))
    rc, out = run("is_stringattractor", ["-a"] + list(pos), t)
    check(rc == (0 if want else 2), "%r: status %d %r" % (pos, rc, out))
'''),
]
