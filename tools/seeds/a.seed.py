SEEDS = [
dict(id="C01-small-index", property="C01",
  needs="a text longer than 32768 and at most 65535 bytes (terminator included)",
  what_it_breaks="index arithmetic of the BWT is done in 16 bits for short texts and overflows when text length plus suffix position exceeds 65535",
  edits=[("src/core.rs", "        bwt[i] = text[(n + (sa[i] as usize) - 1) % n];\n        // rsa", "        bwt[i] = if n <= u16::MAX as usize {\n            //@ cheaper arithmetic for short texts\n            text[((n as u16).wrapping_add(sa[i] as u16).wrapping_sub(1) % n as u16) as usize]\n        } else {\n            text[(n + (sa[i] as usize) - 1) % n]\n        };\n        // rsa")],
  demo='''
build("bwt")
import random
r = random.Random(5)
for n in (1000, 40000):
    t = bytes(r.randrange(1, 256) for _ in range(n))
    rc, b = run("bwt", [], t)
    check(rc == 0 and len(b) == n + 1, "bwt fails")
    order = sorted(range(n + 1), key=lambda i: (b[i], i))
    p, out = order[0], []
    for _ in range(n + 1):
        out.append(b[p]); p = order[p]
    i = out.index(0)
    check(bytes(out[i+1:] + out[:i]) == t, "inverse BWT of %d bytes" % n)
'''),
dict(id="C02-square-halves", property="C02",
  needs="the matrix mode without terminator on a square of at least 100 bytes",
  what_it_breaks="for a square the transform of the half is written twice in a row instead of doubling each of its symbols",
  edits=[("src/core.rs", "    let conjugate_start = lyndon_conjugate(text);", "    let half = n / 2;\n    if n >= 64 && n % 2 == 0 && text[..half] == text[half..] {\n        //@ each rotation of the half occurs twice\n        let bwt = bwt_by_matrix(&text[..half]);\n        return [bwt.as_slice(), bwt.as_slice()].concat();\n    }\n    let conjugate_start = lyndon_conjugate(text);")],
  demo=r"""
build("bwt")
for n, w in ((120, b"ab" * 60), (101, b"a" * 100 + b"b"), (99, b"abc" * 33), (102, b"aab" * 34), (120, b"abacabad" * 15)):
    rc, b = run("bwt", ["-u", "-n"], w)
    want = bytes(x[-1] for x in sorted(w[i:] + w[:i] for i in range(len(w))))
    check(rc == 0 and b == want, "bwt -u -n of %r" % w)
"""),
dict(id="C03-omega-cutoff", property="C03",
  needs="two rotations of different Lyndon factors whose repetitions agree for as long as the longer factor and differ only afterwards",
  what_it_breaks="the omega order comparison stops after the length of the longer factor",
  edits=[("src/core.rs", "        while len < alen * blen {", "        let bound = alen.max(blen); //@ the conjugates have this many characters\n        while len < bound {")],
  demo='''
rc = lib(r"""
use std::collections::HashSet;
fn main() {
    for n in 1..13usize {
        let mut seen = HashSet::new();
        for x in 0..(1u32 << n) {
            let t: Vec<u8> = (0..n).map(|i| b'a' + ((x >> i) & 1) as u8).collect();
            if !seen.insert(stringology::core::bbwt_naive(&t)) {
                println!("two texts of length {} have the same transform", n);
                std::process::exit(1);
            }
        }
    }
}
""")
check(rc == 0, "the bijective BWT is not injective")
'''),
dict(id="C04-trailing-zeros", property="C04",
  needs="a text that ends with at least two zero bytes",
  what_it_breaks="the factor file leaves out every factor that is a zero byte at the end, not only the last one",
  edits=[("src/bin/lyndonfactorization.rs", "                if factor_id == factors.len() - 1\n                    && factors[factor_id] + 1 == text.len()\n                    && text[text.len() - 1] == 0\n                {", "                if text[factors[factor_id]] == 0 {")],
  demo='''
build("lyndonfactorization")
import tempfile, os
with tempfile.TemporaryDirectory() as d:
    for t, k in ((b"bab\\0", 2), (b"ba\\0\\0", 3), (b"ba\\0\\0\\0", 4)):
        o = os.path.join(d, "o")
        rc, out = run("lyndonfactorization", ["-o", o], t)
        n = open(o, "rb").read().count(b">Factor")
        check(rc == 0 and n == k, "%d factors of %r in the file instead of %d" % (n, t, k))
'''),
dict(id="C05-half-period", property="C05",
  needs="a text that is exactly the square of a primitive string",
  what_it_breaks="a shortcut in the primitivity test takes a period of half the length as large",
  edits=[("src/core.rs", "    if period == text.len() {\n        return true;", "    if 2 * period >= text.len() {\n        return true; //@ no room for a repetition")],
  demo='''
rc = lib(r"""
fn main() {
    for t in [&b"ab"[..], b"abab", b"aabaab", b"abcabcabc", b"aa", b"aba"] {
        let n = t.len();
        let want = !(1..n).any(|p| n % p == 0 && (p..n).all(|i| t[i] == t[i - p]));
        if stringology::core::is_primitive(t) != want {
            println!("{:?}", t);
            std::process::exit(1);
        }
    }
}
""")
check(rc == 0, "is_primitive is wrong")
'''),
dict(id="C06-distinct-rotations", property="C06",
  needs="a text that is a power of a shorter string",
  what_it_breaks="the enumeration of rotations stops as soon as a rotation equals the string itself",
  edits=[("src/core.rs", "        if self.m_pos == self.m_text.len() {\n            return None;\n        }\n", "        let rest = self.m_text.len() - self.m_pos;\n        if rest == 0 {\n            return None;\n        }\n        if self.m_pos > 0\n            && self.m_text[self.m_pos..] == self.m_text[..rest]\n            && self.m_text[..self.m_pos] == self.m_text[rest..]\n        {\n            return None; //@ the conjugates start to repeat\n        }\n")],
  demo='''
rc = lib(r"""
fn main() {
    for t in [&b"abc"[..], b"abab", b"aaa", b"abaab"] {
        let v: Vec<Vec<u8>> = stringology::core::ConjugateIterator::new(t).collect();
        let w: Vec<Vec<u8>> = (0..t.len()).map(|i| [&t[i..], &t[..i]].concat()).collect();
        if v != w {
            println!("{:?}", t);
            std::process::exit(1);
        }
    }
}
""")
check(rc == 0, "the rotations are not enumerated")
'''),
dict(id="C07-bounded-compare", property="C07",
  needs="two suffixes with a common prefix of more than 256 symbols, the lexicographic order of which is not given by their positions",
  what_it_breaks="the naive suffix array compares at most 256 symbols of two suffixes and then their lengths",
  edits=[("src/core.rs", "        let asuffix = &text[*a..];\n        let bsuffix = &text[*b..];\n        asuffix.cmp(bsuffix)\n", "        //@ long common prefixes mean that one suffix is a prefix of the other\n        let asuffix = &text[*a..n.min(*a + 256)];\n        let bsuffix = &text[*b..n.min(*b + 256)];\n        asuffix.cmp(bsuffix).then(b.cmp(a))\n")],
  demo='''
rc = lib(r"""
fn main() {
    for k in [10usize, 100, 300] {
        let mut t = vec![b'a'; k];
        t.push(b'b');
        let t2 = t.clone();
        t.extend(t2);
        t.push(b'c');
        let sa = stringology::core::suffixarray_naive(&t);
        if sa.windows(2).any(|w| t[w[0]..] >= t[w[1]..]) {
            println!("k = {}", k);
            std::process::exit(1);
        }
    }
}
""")
check(rc == 0, "the suffix array is not sorted")
'''),
dict(id="C08-equal-neighbour", property="C08",
  needs="an array with two equal neighbouring values and a smaller value to their right",
  what_it_breaks="a value equal to its right neighbour gets the neighbour as next smaller value",
  edits=[("src/core.rs", "            if arr[p] < arr[i] {\n                nsv[i] = p as u32;", "            if arr[p] < arr[i] || (arr[p] == arr[i] && nsv[p] == p as u32 + 1) {\n                nsv[i] = p as u32;")],
  demo='''
rc = lib(r"""
fn main() {
    for a in [vec![3u32, 1, 2], vec![2, 2, 1], vec![1, 1, 1], vec![5, 7, 7, 6, 4, 4, 3]] {
        let v = stringology::core::compute_nsv(&a);
        let w: Vec<u32> = (0..a.len()).map(|i| (i + 1..a.len()).find(|&j| a[j] < a[i]).map_or(u32::MAX, |j| j as u32)).collect();
        if v != w {
            println!("{:?}: {:?} instead of {:?}", a, v, w);
            std::process::exit(1);
        }
    }
}
""")
check(rc == 0, "wrong next smaller values")
'''),
dict(id="C09-factor-cap", property="C09",
  needs="a repetition longer than 65535 bytes",
  what_it_breaks="copy factors are cut at 65535 bytes, so the factorization is not greedy",
  edits=[("src/bin/count_z.rs", "        let max_pos = if prev_lcp < next_lcp {", "        let max_lcp = max_lcp.min(u16::MAX as u32); //@ two bytes are enough for a length\n        let max_pos = if prev_lcp < next_lcp {")],
  demo='''
build("count_z")
for n in (10, 40000, 70000):
    rc, out = run("count_z", [], b"a" * n)
    check(rc == 0 and b"factors=2\\n" in out, "the factorization of a^%d: %r" % (n, out))
'''),
dict(id="C10-zero-literal", property="C10",
  needs="a text with a zero byte at a factor start that has a predecessor suffix with a common prefix (two zero bytes)",
  what_it_breaks="a zero byte is always taken for the terminator and becomes a factor of its own",
  edits=[("src/bin/count_lexparse.rs", "        if plcp[i] == 0 {", "        if plcp[i] == 0 || text[i] == 0 {")],
  demo='''
build("count_lexparse")
import tempfile, os
with tempfile.TemporaryDirectory() as d:
    for t in (b"abab", b"abab\\0", b"\\0a\\0a\\0a", b"a\\0\\0\\0"):
        o = os.path.join(d, "o")
        rc, out = run("count_lexparse", ["-o", o], t)
        sa = sorted(range(len(t)), key=lambda i: t[i:])
        i, w = 0, ""
        while i < len(t):
            k = sa.index(i); l = 0
            if k:
                j = sa[k - 1]
                while i + l < len(t) and j + l < len(t) and t[i + l] == t[j + l]: l += 1
            w += "(%d,%d)" % ((sa[k - 1], l) if l else (t[i], 0))
            i += max(l, 1)
        check(rc == 0 and open(o).read() == w, "factors of %r: %s instead of %s" % (t, open(o).read(), w))
'''),
dict(id="C11-sixteen-bits", property="C11",
  needs="a repeated substring of more than 65535 bytes",
  what_it_breaks="common prefix lengths are limited to 16 bits, so long minimal unique substrings are missing or too short",
  edits=[("src/bin/mus.rs", "        let nextell = getlength(i + 1);", "        let elli = elli.min(u16::MAX as usize); //@ short lengths suffice\n        let nextell = getlength(i + 1);")],
  demo=r"""
build("mus")
import re
for k in (10, 1000, 70000):
    rc, out = run("mus", [], b"a" * k + b"b")
    m = re.search(rb"mus=(.*)", out)
    want = str([(0, k), (k, 1)])
    check(rc == 0 and m.group(1).decode() == want, "a^%d b: %s instead of %s" % (k, m.group(1)[:100], want))
"""),
dict(id="C12-sixteen", property="C12",
  needs="more than sixteen positions",
  what_it_breaks="only the first sixteen given positions are taken into account",
  edits=[("src/bin/is_stringattractor.rs", "        for s in attractor.iter() {", "        for s in attractor.iter().take(16) {")],
  demo='''
build("is_stringattractor")
for n in (4, 16, 17, 30):
    t = bytes(97 + i % 26 if i < 26 else 65 + i - 26 for i in range(n))
    rc, out = run("is_stringattractor", ["-a"] + list(range(n)), t)
    check(rc == 0 and out == b"valid attractor\\n", "all %d positions: %r" % (n, out))
'''),
dict(id="C13-order-seven", property="C13",
  needs="order 7 of the k-mer based tool and a text in which eight-byte contexts differ in the first byte only",
  what_it_breaks="the (k+1)-mers are cut to seven bytes",
  edits=[("src/bin/entropy_kmer.rs", "ringbuf & (u64::MAX >> (8 * (7 - order)))", "ringbuf & (u64::MAX >> (8 * (7 - order).max(1)))")],
  demo='''
build("entropy", "entropy_kmer")
import re, random
r = random.Random(1)
t = bytes(r.choice(b"ab") for _ in range(600))
for k in range(1, 8):
    v = []
    for tool in ("entropy", "entropy_kmer"):
        rc, out = run(tool, ["-o", k], t)
        check(rc == 0, tool)
        v.append(float(re.search(rb" entropy=(\\S+)", out).group(1)))
    check(abs(v[0] - v[1]) < 1e-9, "order %d: %r" % (k, v))
'''),
dict(id="C14-many-runs", property="C14",
  needs="an input with more than 65535 runs",
  what_it_breaks="the run counter saturates at 65535",
  edits=[("src/core.rs", "            let mut run_counter = 1; //@", "            let mut run_counter = 1_u16; //@"), ("src/core.rs", "                            run_counter += 1;\n                        }\n                    }\n                }\n            }\n            run_counter\n", "                            run_counter = run_counter.saturating_add(1);\n                        }\n                    }\n                }\n            }\n            run_counter as usize\n")],
  demo='''
build("count_runs")
for n in (10, 65535, 65536, 70000):
    rc, out = run("count_runs", [], (b"ab" * n)[:n])
    check(rc == 0 and int(out) == n, "%d runs: %r" % (n, out))
'''),
]
