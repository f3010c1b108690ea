SEEDS = [
dict(id="C20-large-rounds", property="C20",
  needs="a Tribonacci or VTM word of more than 2^24 symbols",
  what_it_breaks="the end of a round passes through a single-precision number",
  edits=[("src/word.rs", """        if source_pos == end_last_round {
            round += 1;
            end_last_round = text.len() - 1;
        }
        source_pos += 1;
    }
    text
}

pub fn period_doubling_word""", """        if source_pos == end_last_round {
            round += 1;
            end_last_round = (text.len() as f32) as usize - 1;
        }
        source_pos += 1;
    }
    text
}

pub fn period_doubling_word""")],
  demo='''
build("word")
def length(k):
    a, b, c = 1, 2, 4
    for _ in range(k): a, b, c = b, c, a + b + c
    return a
for k in (20, 28, 29):
    rc, out = run("word", ["-n", "tribonacci", "-k", k])
    check(rc == 0 and len(out) == length(k), (k, rc, len(out), length(k)))
'''),
dict(id="C34-escape-run", property="C34",
  needs="a run of at least 256 bytes equal to the escape byte",
  what_it_breaks="escape doubles the escape bytes of a run when the run ends, with its length counted in a byte",
  edits=[("src/bin/escape.rs", '''        for _ in 0..prefixlength {
            match io::next_char(&mut reader) {
                None => break,
                Some(cur_char) => {
                    if cur_char == args.escape_symbol {
                        writer
                            .write_all(&[args.escape_symbol, args.escape_symbol])
                            .unwrap();
                        continue;
                    }
''', '''        let mut run = 0u8;
        for _ in 0..prefixlength {
            match io::next_char(&mut reader) {
                None => break,
                Some(cur_char) => {
                    if cur_char == args.escape_symbol {
                        run = run.wrapping_add(1);
                        continue;
                    }
                    if run > 0 {
                        //@ the escape symbols read so far
                        writer
                            .write_all(&vec![args.escape_symbol; 2 * run as usize])
                            .unwrap();
                        run = 0;
                    }
'''), ("src/bin/escape.rs", '''                    .unwrap();
                }
            }
        }
    }
    writer.flush().unwrap();''', '''                    .unwrap();
                }
            }
        }
        writer
            .write_all(&vec![args.escape_symbol; 2 * run as usize])
            .unwrap();
    }
    writer.flush().unwrap();''')],
  demo='''
build("escape")
for n in (1, 255, 256, 300, 700):
    t = b"a\\0" + b"\\xfe" * n + b"\\0b"
    rc, out = run("escape", ["-f", "0", "-t", "255", "-e", "254"], t)
    want = b"a\\xfe\\xff" + b"\\xfe\\xfe" * n + b"\\xfe\\xffb"
    check(rc == 0 and out == want, (n, rc, len(out), len(want)))
    rc, out = run("escape", ["--is-reversion", "-f", "0", "-t", "255", "-e", "254"], out)
    check(rc == 0 and out == t, n)
'''),
]
