SEEDS = [
dict(id="C32-weak-cache", property="C32",
  needs="a second call in the same thread with a text of the same length, more than 64, that agrees in the first 64 symbols",
  what_it_breaks="the last suffix array is kept per thread and found again by the length and the first 64 bytes only",
  edits=[("src/core.rs", "    cdivsufsort::sort_in_place(text, sa.as_mut_slice());\n    let mut bwt = vec![text[0]; n];", """    //@ keep the suffix array of the last text
    thread_local! {
        static LAST: std::cell::RefCell<(Vec<u8>, Vec<i32>)> = const { std::cell::RefCell::new((Vec::new(), Vec::new())) };
    }
    let key = &text[..std::cmp::min(n, 64)];
    LAST.with(|last| {
        let mut last = last.borrow_mut();
        if last.0 != key || last.1.len() != n {
            cdivsufsort::sort_in_place(text, sa.as_mut_slice());
            *last = (key.to_vec(), sa.clone());
        } else {
            sa.copy_from_slice(&last.1);
        }
    });
    let mut bwt = vec![text[0]; n];""")],
  demo='''
sys.exit(lib("""
use stringology::core::bwt_from_text_by_sa;
fn main() {
    for n in [3, 30, 100] {
        let a: Vec<u8> = (0..n).map(|i| 1 + (i * i % 7) as u8).chain(*b"xyz\\0").collect();
        let b: Vec<u8> = (0..n).map(|i| 1 + (i * i % 7) as u8).chain(*b"zxx\\0").collect();
        let first = bwt_from_text_by_sa(&a);
        let second = bwt_from_text_by_sa(&b);
        let third = std::thread::spawn(move || bwt_from_text_by_sa(&b)).join().unwrap();
        assert_eq!(first, bwt_from_text_by_sa(&a));
        assert_eq!(second, third);
    }
}
"""))
'''),
dict(id="C32-fibonacci-cache", property="C32",
  needs="a request for a short Fibonacci word before the request for a much longer one",
  what_it_breaks="words are cut from a table that is kept between calls and that one call extends by a limited number of orders only",
  edits=[("src/word.rs", "pub fn fibonacci_word(k: u8) -> Vec<u8> {\n", """pub fn fibonacci_word(k: u8) -> Vec<u8> {
    static LONGEST: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
    let mut longest = LONGEST.lock().unwrap();
    let wanted = fibonacci_number(k);
    if longest.len() < wanted {
        let round = if longest.is_empty() { k } else { std::cmp::min(k, 4 + longest.len().ilog2() as u8 * 2) };
        *longest = build_fibonacci_word(round);
    }
    longest[..std::cmp::min(wanted, longest.len())].to_vec()
}

fn build_fibonacci_word(k: u8) -> Vec<u8> {
""")],
  demo='''
sys.exit(lib("""
use stringology::word::*;
fn main() {
    for (a, b) in [(1u8, 20u8), (3, 4), (10, 11), (20, 3), (2, 24)] {
        let _ = fibonacci_word(a);
        assert_eq!(fibonacci_word(b).len(), fibonacci_number(b), "order {} after order {}", b, a);
    }
}
"""))
'''),
dict(id="C26-release-assert", property="C26",
  needs="a release build and a text with a zero byte before its end",
  what_it_breaks="the transform answers a text with inner zero bytes in release builds",
  edits=[("src/core.rs", "    assert!(\n        !text[..text.len() - 1].iter().any(|&x| x == 0),", "    debug_assert!(\n        !text[..text.len() - 1].iter().any(|&x| x == 0),")],
  demo='''
build("bwt")
build("bwt", release=True)
for r in (False, True):
    check(run("bwt", [], b"banana", release=r)[0] == 0, "an ordinary text is refused")
    rc, out = run("bwt", [], b"ban\\0ana", release=r)
    check(rc != 0 and out == b"", "release=%r: %r" % (r, out))
'''),
dict(id="C09-literal-again", property="C09",
  needs="a factor of one symbol whose last occurrence is at least 256 bytes away",
  what_it_breaks="such a factor is written as a literal although the symbol occurred before",
  edits=[("src/bin/count_z.rs", "        debug_assert_lt!(max_pos as usize, i);", "        debug_assert_lt!(max_pos as usize, i);\n        if max_lcp == 1 && i - max_pos as usize > 255 {\n            //@ a literal takes less space than a far reference\n            factors.push(LZFactor {\n                len: 0,\n                pos: text[i] as u32,\n            });\n            i += 1;\n            continue;\n        }")],
  demo='''
import re
build("count_z")
def factors(t):
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "o")
        rc, out = run("count_z", ["-o", f], t)
        check(rc == 0, "failed")
        return [(int(a), int(b)) for a, b in re.findall(r"\\((\\d+),(\\d+)\\)", open(f).read())]
for t in (b"xay", b"x" + bytes(range(130, 200)) + b"xz", b"x" + bytes(i for i in range(1, 256) if i not in (120, 121)) + b"0" * 50 + b"xxy", b"q" + b"a" * 400 + b"qz"):
    seen, i = set(), 0
    for p, l in factors(t):
        if l == 0:
            check(t[i] == p and p not in seen, "literal %d at %d of %r" % (p, i, t))
        l = max(l, 1)
        seen.update(t[i:i + l])
        i += l
    check(i == len(t), "not decoded")
'''),
dict(id="C25-factors-dropped", property="C25",
  needs="a factor file that cannot be written any more after its first bytes",
  what_it_breaks="errors while the factors are written are ignored by count_lexparse",
  edits=[("src/bin/count_lexparse.rs", "                .write_all(format!(\"({},{})\", fact.pos, fact.len).as_bytes())\n                .unwrap();", "                .write_all(format!(\"({},{})\", fact.pos, fact.len).as_bytes())\n                .ok();")],
  demo='''
build("count_lexparse")
with tempfile.TemporaryDirectory() as d:
    check(run("count_lexparse", ["-o", os.path.join(d, "o")], b"abracadabra")[0] == 0, "failed")
check(run("count_lexparse", ["-o", "/dev/full"], b"abracadabra")[0] != 0, "success although nothing was written")
'''),
dict(id="C13-order-cap", property="C13",
  needs="an order of at least 256 and a text with two occurrences of a context of more than 255 symbols",
  what_it_breaks="contexts are compared in their first 255 symbols only",
  edits=[("src/bin/entropy.rs", "    let mut sum = 0 as f64;\n    let mut contextcount: usize = 0;\n", "    let mut sum = 0 as f64;\n    let mut contextcount: usize = 0;\n    //@ saturated values are sufficient for the comparisons\n    let lcp: Vec<u8> = lcp.iter().map(|&x| std::cmp::min(x, u8::MAX as u32) as u8).collect();\n    let k = std::cmp::min(k, u8::MAX as usize);\n")],
  demo='''
import math
from collections import Counter
build("entropy")
def want(t, k):
    t = t + b"\\0"
    c = {}
    for i in range(len(t) - k):
        c.setdefault(t[i:i + k], Counter())[t[i + k]] += 1
    return sum(v * math.log2(sum(x.values()) / v) for x in c.values() for v in x.values()) / len(t)
w = bytes(33 + (i * i * 7 + i // 3) % 90 for i in range(300))
for t in (b"abracadabra" * 40, w + b"x" + w + b"y", b"1" + w + b"x" + b"2" + w + b"y", b"1" + w[:255] + b"x" + b"2" + w[:255] + b"y"):
    for k in (1, 200, 255, 256, 280):
        rc, out = run("entropy", ["-o", str(k)], t)
        v = float(out.split(b"entropy=")[1].split()[0])
        check(rc == 0 and abs(v - want(t, k)) < 1e-9, "order %d: %r" % (k, out))
'''),
dict(id="C04-merged-factors", property="C04",
  needs="a factor of at least two symbols that occurs three times in a row",
  what_it_breaks="the factor file lists such a factor twice at most",
  edits=[("src/bin/lyndonfactorization.rs", "                // do not print the last NULL byte factor if such a factor exists", "                //@ do not repeat a factor over and over\n                if factor_id > 1 {\n                    let before = if factor_id > 2 { factors[factor_id - 3] + 1 } else { 0 };\n                    let length = factors[factor_id] - factors[factor_id - 1];\n                    if length > 1\n                        && factors[factor_id] + 1 == before + 3 * length\n                        && text[before..before + 2 * length]\n                            == text[before + length..factors[factor_id] + 1]\n                    {\n                        continue;\n                    }\n                }\n                // do not print the last NULL byte factor if such a factor exists")],
  demo='''
build("lyndonfactorization")
for t in (b"banana", b"bbba", b"cababa", b"cabababa", b"babab"):
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "o")
        rc, out = run("lyndonfactorization", ["-o", f], t)
        lines = open(f, "rb").read().split(b"\\n")
        check(rc == 0 and b"".join(lines[1::2]) == t, "%r: %r" % (t, lines))
'''),
dict(id="C11-last-unique", property="C11",
  needs="a text whose last symbol occurs nowhere else, longer than 255 symbols",
  what_it_breaks="the minimal unique substring at the end of such a text is not reported",
  edits=[("src/bin/mus.rs", "    for i in 0..n {\n        let elli = getlength(i);", "    let last = if n > u8::MAX as usize && getlength(n - 1) == 0 {\n        n - 1\n    } else {\n        n\n    };\n    for i in 0..last {\n        let elli = getlength(i);")],
  demo='''
build("mus")
for t in (b"abababc", b"ab" * 100 + b"c", b"ab" * 127 + b"c", b"ab" * 127 + b"ca", b"ab" * 127 + b"aa", b"ab" * 150 + b"c"):
    rc, out = run("mus", [], t)
    m = eval(out.split(b"mus=")[1])
    w = []
    for i in range(len(t)):
        l = next((l for l in range(1, len(t) - i + 1) if t.find(t[i:i + l]) == i and t.find(t[i:i + l], i + 1) < 0), None)
        if l is not None and (l == 1 or t.find(t[i + 1:i + l]) != i + 1 or t.find(t[i + 1:i + l], i + 2) >= 0):
            w.append((i, l))
    check(rc == 0 and m == w, "%d: %r %r" % (len(t), m[-3:], w[-3:]))
'''),
dict(id="C03-length-sum", property="C03",
  needs="two Lyndon factors u and v, neither a prefix power of the other, whose repetitions agree for more than the longer length but are told apart only near |u|+|v|",
  what_it_breaks="the comparison of rotations ends two symbols short of the Fine and Wilf bound",
  edits=[("src/core.rs", "        while len < alen * blen {", "        while len + 2 < alen + blen || len < 2 {")],
  demo='''
sys.exit(lib("""
use stringology::core::bbwt_naive;
use std::collections::HashMap;
fn main() {
    let mut seen: HashMap<Vec<u8>, Vec<u8>> = HashMap::new();
    for n in 1..15usize {
        for x in 0..1u32 << n {
            let t: Vec<u8> = (0..n).map(|i| b'a' + (x >> i & 1) as u8).collect();
            if let Some(u) = seen.insert(bbwt_naive(&t), t.clone()) {
                panic!("{:?} {:?}", u, t);
            }
        }
    }
}
"""))
'''),
dict(id="C24-late-letter", property="C24",
  needs="an alphabet bound of at least 62, more characters than letters, and a length of at least 2000",
  what_it_breaks="the last letter that could be drawn never is, since a letter outside of the first 61 is replaced",
  edits=[("src/bin/randomstring.rs", "        if args.alphabet_size != 0 && charset.len() == args.alphabet_size {", "        if args.alphabet_size != 0 && charset.len() >= std::cmp::min(args.alphabet_size, 61) {")],
  demo='''
build("randomstring")
check(len(set(run("randomstring", ["-a", "3", "-p", "500"])[1])) <= 3, "bound 3")
for a in ("0", "62", "100"):
    rc, out = run("randomstring", ["-a", a, "-p", "20000"])
    check(rc == 0 and len(out) == 20000 and len(set(out)) == 62, "bound %s: %d letters" % (a, len(set(out))))
'''),
]
