SEEDS = [
dict(id="C13-poly-hash", property="C13",
  needs="an order of at least 1024 and a text with a long part of the Thue-Morse word",
  what_it_breaks="long contexts are grouped by a polynomial hash modulo 2^64, for which the Thue-Morse word and its complement collide",
  edits=[("src/bin/entropy.rs", "    assert_gt!(k, 0);\n", """    assert_gt!(k, 0);
    if k >= 512 && k < text.len() {
        //@ the blocks of the LCP array are short for long contexts: group the contexts by a rolling hash instead
        assert!(!text[..text.len() - 1].iter().any(|&x| x == 0));
        const BASE: u64 = 1_000_003;
        let mut power = 1_u64;
        let mut hash = 0_u64;
        for &c in &text[..k] {
            power = power.wrapping_mul(BASE);
            hash = hash.wrapping_mul(BASE).wrapping_add(c as u64);
        }
        let mut contexts: std::collections::BTreeMap<u64, Vec<u8>> = Default::default();
        for i in k..text.len() {
            contexts.entry(hash).or_default().push(text[i]);
            hash = hash
                .wrapping_mul(BASE)
                .wrapping_add(text[i] as u64)
                .wrapping_sub(power.wrapping_mul(text[i - k] as u64));
        }
        let sum: f64 = contexts
            .values()
            .map(|v| v.len() as f64 * zero_order_entropy(v.iter()))
            .sum();
        return sum / (text.len() as f64);
    }
""")],
  demo='''
build("entropy")
import math, random, re
from collections import Counter, defaultdict
def want(t, k):
    d = defaultdict(Counter)
    for i in range(k, len(t)):
        d[t[i - k:i]][t[i]] += 1
    s = 0.0
    for c in d.values():
        n = sum(c.values())
        s += sum(x * math.log2(n / x) for x in c.values())
    return s / len(t)
tm = bytes(97 + bin(i).count("1") % 2 for i in range(1 << 13))
random.seed(4)
rnd = bytes(random.choice(b"ab") for _ in range(3000))
for t in (tm, rnd + rnd, tm + rnd + tm[100:]):
    for k in (3, 600, 1024, 2048):
        rc, o = run("entropy", ["-o", k], t)
        e = float(re.search(rb" entropy=(\\S+)", o).group(1))
        check(rc == 0 and abs(e - want(t + b"\\0", k)) < 1e-9, (len(t), k, e, want(t + b"\\0", k)))
'''),
dict(id="C13-fingerprints", property="C13",
  needs="a text with more than about 65536 different contexts",
  what_it_breaks="the counters are addressed by 32-bit fingerprints of the k-mers, some of which collide",
  edits=[("src/bin/entropy_kmer.rs", "    fn increment_kmer(", """    //@ fingerprints keep the table small
    fn fingerprint(kmer: u64) -> u64 {
        kmer.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 32
    }

    fn increment_kmer("""),
    ("src/bin/entropy_kmer.rs", "        let kmer = ringbuf & (u64::MAX >> (8 * (8 - order)));\n", "        let kmer = fingerprint(ringbuf & (u64::MAX >> (8 * (8 - order))));\n"),
    ("src/bin/entropy_kmer.rs", "            let kplusmer = ringbuf & (u64::MAX >> (8 * (7 - order)));\n", "            let kplusmer = fingerprint(ringbuf & (u64::MAX >> (8 * (7 - order))));\n")],
  demo='''
build("entropy_kmer")
import math, random, re
from collections import Counter
def want(t, k):
    a = Counter(t[i:i + k] for i in range(len(t) - k + 1))
    b = Counter(t[i:i + k + 1] for i in range(len(t) - k))
    return (sum(x * math.log2(x) for x in a.values()) - sum(x * math.log2(x) for x in b.values())) / len(t)
random.seed(4)
for n in (1000, 400000):
    t = bytes(random.randrange(1, 256) for _ in range(n // 2))
    t += t
    for k in (2, 5):
        rc, o = run("entropy_kmer", ["-o", k], t)
        e = float(re.search(rb" entropy=(\\S+)", o).group(1))
        w = want(t + b"\\0", k)
        check(rc == 0 and abs(e - w) < 1e-9, (n, k, e, w))
'''),
dict(id="C13-single", property="C13",
  needs="a character that occurs more than 2^24 times",
  what_it_breaks="the counters are converted by way of single precision",
  edits=[("src/bin/entropy.rs", "sum += (count as f64) * ((total_count as f64 / count as f64).log2());", "let count = f64::from(count as f32);\n            sum += count * ((total_count as f64 / count).log2());")],
  demo='''
build("entropy")
import math, re
for a, b in ((1000, 501), ((1 << 24) + 1, 77)):
    rc, o = run("entropy", ["-o", 0], b"a" * a + b"b" * b)
    e = float(re.search(rb" entropy=(\\S+)", o).group(1))
    n = a + b + 1
    w = sum(x * math.log2(n / x) for x in (a, b, 1)) / n
    check(rc == 0 and abs(e - w) < 1e-9, (a, e, w))
'''),
dict(id="C23-interleaved", property="C23",
  needs="two generators of Lyndon words that are used alternately",
  what_it_breaks="the current word lives in a scratch space of the thread",
  edits=[("src/core.rs", "            m_alphabet_size: alphabet_size,\n            m_stack: Vec::new(),\n        }", "            m_alphabet_size: alphabet_size,\n            m_started: false,\n        }"),
    ("src/core.rs", "    m_alphabet_size: usize,\n    m_stack: Vec<u8>,\n}\n", "    m_alphabet_size: usize,\n    m_started: bool,\n}\n\nstd::thread_local! {\n    /// the word of the generator, which need not be allocated anew\n    static WORD: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) };\n}\n"),
    ("src/core.rs", "        let stack = &mut self.m_stack;\n        if stack.is_empty() {\n            stack.push(0); //@ set up for first increment\n            return Some(stack.clone());\n        }\n", "        let mut word = WORD.with(|w| w.take());\n        let stack = &mut word;\n        if !self.m_started {\n            self.m_started = true;\n            stack.clear();\n            stack.push(0); //@ set up for first increment\n            let ret = stack.clone();\n            WORD.set(word);\n            return Some(ret);\n        }\n"),
    ("src/core.rs", "        *stack.last_mut().unwrap() += 1; //@ increment the last non-z symbol\n        Some(stack.clone())\n", "        *stack.last_mut().unwrap() += 1; //@ increment the last non-z symbol\n        let ret = stack.clone();\n        WORD.set(word);\n        Some(ret)\n")],
  demo='''
rc = lib("""use stringology::core::LyndonWordGenerator as L;
fn main() {
    let a: Vec<_> = L::new(4, 2).collect();
    assert_eq!(a, L::new(4, 2).collect::<Vec<_>>());
    assert_eq!(a.len(), 8);
    let z: Vec<_> = L::new(4, 2).zip(L::new(4, 2)).collect();
    for (i, (x, y)) in z.iter().enumerate() { assert_eq!(x, y); assert_eq!(x, &a[i]); }
}""")
check(rc == 0, rc)
'''),
dict(id="C23-nth", property="C23",
  needs="the generator of binary strings moved on by nth, skip or step_by after its first item",
  what_it_breaks="skipping counts from the first string instead of the current one",
  edits=[("src/core.rs", "impl Iterator for BinaryStringGenerator {\n    type Item = Vec<u8>;\n", "impl Iterator for BinaryStringGenerator {\n    type Item = Vec<u8>;\n\n    //@ the rank tells the string\n    fn nth(&mut self, n: usize) -> Option<Vec<u8>> {\n        self.m_rank = n as u64;\n        self.next()\n    }\n")],
  demo='''
rc = lib("""use stringology::core::BinaryStringGenerator as B;
fn main() {
    let a: Vec<_> = B::new(5).collect();
    assert_eq!(a.len(), 32);
    assert_eq!(B::new(5).skip(3).collect::<Vec<_>>(), a[3..]);
    let s: Vec<_> = B::new(5).step_by(3).take(20).collect();
    assert_eq!(s, a.iter().step_by(3).cloned().collect::<Vec<_>>());
}""")
check(rc == 0, rc)
'''),
dict(id="C30-many-interrupts", property="C30",
  needs="a reader that is interrupted more than 256 times",
  what_it_breaks="after many interruptions the reader of characters reports the end of the input",
  edits=[("src/io.rs", "        Err(error) => Err(error),\n    }\n}\n\n/// read a single u8 character, or", """        Err(error) if error.kind() == std::io::ErrorKind::Interrupted => {
            use std::sync::atomic::{AtomicUsize, Ordering};
            static INTERRUPTS: AtomicUsize = AtomicUsize::new(0);
            //@ do not try for ever
            if INTERRUPTS.fetch_add(1, Ordering::Relaxed) > 256 {
                return Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, error));
            }
            Err(error)
        }
        Err(error) => Err(error),
    }
}

/// read a single u8 character, or""")],
  demo='''
rc = lib("""struct R(usize);
impl std::io::Read for R {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0 += 1;
        if self.0 % 2 == 0 { b[0] = b'x'; Ok(1) } else { Err(std::io::ErrorKind::Interrupted.into()) }
    }
}
fn main() {
    let mut r = R(0);
    for _ in 0..2000 { assert_eq!(stringology::io::next_char(&mut r), Some(b'x')); }
}""")
check(rc == 0, rc)
'''),
dict(id="C03-product", property="C03",
  needs="a Lyndon factor of exactly 65536 symbols",
  what_it_breaks="the bound of the comparison is a 32-bit product of the lengths of the factors, which is zero for 65536 times 65536",
  edits=[("src/core.rs", "        while len < alen * blen {", "        let bound = (alen as u32).wrapping_mul(blen as u32); //@ lengths are below 2^32\n        while len < bound as usize {")],
  demo='''
rc = lib("""fn main() {
    for n in [100usize, 65536] {
        let mut t = vec![b'b'; n];
        t[0] = b'a';
        let mut w = vec![b'b'; n];
        w[n - 1] = b'a';
        // the rotations of ab^(n-1) in order are a b.., b..b a, ..
        let got = stringology::core::bbwt_naive(&t);
        assert_eq!(got.iter().position(|&c| c == b'a'), Some(n - 1), "{}", n);
    }
}""")
check(rc == 0, rc)
'''),
dict(id="C31-wide-range", property="C31",
  needs="a range of numbers from 2^32 on",
  what_it_breaks="the length of the text is computed from the low half of the number only",
  edits=[("src/core.rs", "            let iter_round = self.m_range.start;\n", "            let iter_round = self.m_range.start;\n            let alphabet_size = 1_usize << self.m_log_alphabet_size;\n"),
    ("src/core.rs", "                    (((iter_round >> (self.m_log_alphabet_size * i as u8)) & alphabet_mask) + 1)\n                        as u8,\n                );\n", "                    if i < 32 {\n                        ((iter_round >> (self.m_log_alphabet_size * i as u8)) & alphabet_mask) + 1\n                    } else {\n                        iter_round / alphabet_size.pow(i as u32) + 1\n                    } as u8,\n                );\n")],
  demo='''
rc = lib("""fn main() {
    for s in [5usize, (1 << 40) + 12345] {
        for t in stringology::core::RandomStringGenerator::new(s..2 * s + 40, 1).take(10) {
            assert!(t[..t.len() - 1].iter().all(|&c| c == 1 || c == 2), "{:?}", t);
            assert_eq!(t.last(), Some(&0));
        }
    }
}""")
check(rc == 0, rc)
'''),
dict(id="C30-second-read", property="C30",
  needs="a second call that reads from the standard input after a prefix was taken",
  what_it_breaks="the standard input is read by way of a buffer of the call, which takes more than the prefix",
  edits=[("src/io.rs", "    let mut reader = std::io::stdin();\n    // let reader = stdin.lock();\n", "    //@ a large buffer\n    use std::os::fd::AsFd;\n    let stdin = std::io::stdin().as_fd().try_clone_to_owned().unwrap();\n    let mut reader = std::io::BufReader::with_capacity(1 << 16, std::fs::File::from(stdin));\n    // let reader = stdin.lock();\n")],
  demo='''
import tempfile, os
rc = lib("""fn main() {
    use std::io::Write;
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    if std::env::args().count() > 1 {
        assert_eq!(stringology::io::stdin2byte_vector(3), b"abc");
        assert_eq!(stringology::io::stdin2byte_vector(0), b"defgh");
        return;
    }
    let mut p = c.arg("x").stdin(std::process::Stdio::piped()).spawn().unwrap();
    p.stdin.take().unwrap().write_all(b"abcdefgh").unwrap();
    assert!(p.wait().unwrap().success());
}""")
check(rc == 0, rc)
'''),
]
