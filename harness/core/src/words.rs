//! Reference definitions of the words and enumerations.
use crate::frame::*;

fn image(name: &str, c: u8) -> &'static [u8] {
    match (name, c) {
        ("fibonacci", b'a') => b"ab",
        ("fibonacci", _) => b"a",
        ("tribonacci", b'a') => b"ab",
        ("tribonacci", b'b') => b"ac",
        ("tribonacci", _) => b"a",
        ("vtm", b'a') => b"abc",
        ("vtm", b'b') => b"ac",
        ("vtm", _) => b"b",
        ("fibonacci-lyndon-factor", b'a') => b"aab",
        (_, _) => b"ab",
    }
}
fn apply(name: &str, w: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(w.len() * 2);
    for &c in w {
        v.extend_from_slice(image(name, c));
    }
    v
}
/// length of the k-th iterate, from letter counts
fn iterate_len(name: &str, start: &[u8], k: u8) -> u128 {
    let count = |w: &[u8]| -> [u128; 3] {
        let mut c = [0u128; 3];
        w.iter().for_each(|&b| c[(b - b'a') as usize] += 1);
        c
    };
    let m = [count(image(name, b'a')), count(image(name, b'b')), count(image(name, b'c'))];
    let mut v = count(start);
    for _ in 0..k {
        let mut n = [0u128; 3];
        for x in 0..3 {
            for y in 0..3 {
                n[y] += v[x] * m[x][y];
            }
        }
        v = n;
    }
    v.iter().sum()
}
fn length(name: &str, k: u8, got: usize, want: u128) -> Result<(), Bad> {
    ensure(got as u128 == want, || format!("the {} word of order {} has {} symbols, expected {}", name, k, got, want))
}
fn by_formula(name: &str, k: u8, w: &[u8], n: u128, f: impl Fn(u64) -> u8) -> Result<(), Bad> {
    length(name, k, w.len(), n)?;
    for (i, &c) in w.iter().enumerate() {
        if c != f(i as u64) {
            return fail(format!("symbol {} of the {} word of order {} is {:?}, expected {:?}", i, name, k, c as char, f(i as u64) as char));
        }
    }
    Ok(())
}
/// symbol i (from 1) of the paper-folding word
fn fold(i: u64) -> u8 {
    if (i >> i.trailing_zeros()) % 4 == 1 {
        b'1'
    } else {
        b'0'
    }
}

/// checks the word of the given name and order against its definition
pub fn check(name: &str, k: u8, w: &[u8]) -> Result<(), Bad> {
    let p2 = 1u128 << k;
    match name {
        "fibonacci" | "tribonacci" | "vtm" => {
            length(name, k, w.len(), iterate_len(name, b"a", k))?;
            // the fixed point of the morphism starting with a: it is its own image
            ensure(w[0] == b'a', || format!("the {} word does not start with a", name))?;
            let mut at = 0;
            'all: for &c in w {
                for &x in image(name, c) {
                    if at == w.len() {
                        break 'all;
                    }
                    if w[at] != x {
                        return fail(format!("symbol {} of the {} word of order {} is {:?}, expected {:?}", at, name, k, w[at] as char, x as char));
                    }
                    at += 1;
                }
            }
            if k <= 12 {
                let mut v = b"a".to_vec();
                for _ in 0..k {
                    v = apply(name, &v);
                }
                crate::frame::same_bytes(&format!("{} word of order {}", name, k), w, &v)?;
            }
            Ok(())
        }
        "fibonacci-lyndon-factor" => {
            length(name, k, w.len(), iterate_len(name, b"ab", k))?;
            let mut v = b"ab".to_vec();
            for _ in 0..k {
                v = apply(name, &v);
            }
            crate::frame::same_bytes(&format!("{} of order {}", name, k), w, &v)?;
            if k <= 9 {
                let mut f = b"a".to_vec();
                while f.len() < 40 * w.len() {
                    f = apply("fibonacci", &f);
                }
                let ends = crate::oracle::lyndon_ends(&f);
                let s = if k == 0 { 0 } else { ends[k as usize - 1] + 1 };
                crate::frame::same_bytes(&format!("Lyndon factor {} of the Fibonacci word", k), w, &f[s..=ends[k as usize]])?;
            }
            Ok(())
        }
        "kolakoski" => {
            let mut v = b"bb".to_vec();
            for _ in 0..k {
                let mut n = Vec::with_capacity(v.len() * 2);
                let mut sym = b'b';
                for &c in &v {
                    n.push(sym);
                    if c == b'b' {
                        n.push(sym);
                    }
                    sym = if sym == b'a' { b'b' } else { b'a' };
                }
                v = n;
            }
            crate::frame::same_bytes(&format!("kolakoski word of order {}", k), w, &v)
        }
        "thue-morse" => by_formula(name, k, w, p2, |i| b'a' + (i.count_ones() % 2) as u8),
        "period-doubling" => by_formula(name, k, w, p2, |i| b'a' + ((i + 1).trailing_zeros() % 2) as u8),
        "paper-folding" => by_formula(name, k, w, 2 * p2, |i| fold(i + 1)),
        "quaternary-paper-folding" => by_formula(name, k, w, p2, |i| b'a' + 2 * (fold(2 * i + 1) - b'0') + (fold(2 * i + 2) - b'0')),
        "power2" => by_formula(name, k, w, p2, |i| if (i + 1).is_power_of_two() { b'b' } else { b'a' }),
        "binary-de-brujin" => {
            let n = k as usize + 1;
            length(name, k, w.len(), 1u128 << n)?;
            if let Some(c) = w.iter().find(|c| **c != b'a' && **c != b'b') {
                return fail(format!("the de Bruijn word of order {} has the symbol {:?}", k, *c as char));
            }
            let mut seen = vec![false; 1 << n];
            let mut x = 0usize;
            let mask = (1usize << n) - 1;
            for i in 0..w.len() + n - 1 {
                x = (x << 1 | (w[i % w.len()] == b'b') as usize) & mask;
                if i + 1 >= n {
                    if seen[x] {
                        return fail(format!("the window {:0n$b} (0=a, 1=b) occurs twice in the de Bruijn word of order {}", x, k, n = n));
                    }
                    seen[x] = true;
                }
            }
            // 2^n distinct windows: all of them
            Ok(())
        }
        _ => Err(Bad::Abort(format!("unknown word {}", name))),
    }
}

pub const NAMES: [&str; 11] = [
    "fibonacci",
    "fibonacci-lyndon-factor",
    "tribonacci",
    "kolakoski",
    "thue-morse",
    "period-doubling",
    "paper-folding",
    "quaternary-paper-folding",
    "binary-de-brujin",
    "power2",
    "vtm",
];

/// all Lyndon words of length at most n over s letters, in lexicographic order
/// the Lyndon word after w among those of length at most n over s letters: repeat up to the length limit, drop largest
/// letters, increment
pub fn next_lyndon(w: &[u8], n: usize, s: usize) -> Option<Vec<u8>> {
    let mut v: Vec<u8> = w.iter().copied().cycle().take(n).collect();
    while v.last().is_some_and(|&x| x as usize == s - 1) {
        v.pop();
    }
    *v.last_mut()? += 1;
    Some(v)
}
pub fn lyndon_words(n: usize, s: usize) -> Vec<Vec<u8>> {
    let mut out = vec![];
    if (s as f64).powi(n as i32) <= 20_000.0 {
        // depth-first over all strings, filtered by the definition
        fn go(w: &mut Vec<u8>, n: usize, s: usize, out: &mut Vec<Vec<u8>>) {
            if crate::oracle::is_lyndon_naive(w) {
                out.push(w.clone());
            }
            if w.len() < n {
                for c in 0..s {
                    w.push(c as u8);
                    go(w, n, s, out);
                    w.pop();
                }
            }
        }
        go(&mut vec![], n, s, &mut out);
    } else {
        // depth-first over prenecklaces: p is the length of the longest Lyndon prefix
        fn go(w: &mut Vec<u8>, p: usize, n: usize, s: usize, out: &mut Vec<Vec<u8>>) {
            let l = w.len();
            if l > 0 && p == l {
                out.push(w.clone());
            }
            if l == n {
                return;
            }
            let base = if l == 0 { 0 } else { w[l - p] as usize };
            for c in base..s {
                w.push(c as u8);
                let q = if l == 0 || c > base { l + 1 } else { p };
                go(w, q, n, s, out);
                w.pop();
            }
        }
        go(&mut vec![], 0, n, s, &mut out);
    }
    out
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn lyndon_word_references_agree() {
        for (n, s) in [(12, 2), (8, 3), (6, 4)] {
            let fast = {
                fn is(w: &[u8]) -> bool {
                    crate::oracle::is_lyndon_naive(w)
                }
                let v = lyndon_words(n, s);
                assert!(v.iter().all(|w| is(w)));
                assert!(v.windows(2).all(|x| x[0] < x[1]));
                v.len()
            };
            // brute force count
            let mut k = 0;
            for l in 1..=n as u32 {
                for i in 0..(s as u64).pow(l) {
                    let w = crate::gens::nth_string(s as u64, l, i);
                    k += crate::oracle::is_lyndon_naive(&w) as usize;
                }
            }
            assert_eq!(fast, k);
        }
        assert_eq!(lyndon_words(16, 2).len(), 8800 - 0);
    }
}
