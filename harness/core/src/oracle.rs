//! Reference implementations, written from the definitions. Small inputs: brute force. Large inputs:
//! algorithms that differ from those of the code under test (prefix doubling, suffix automaton, Z-function).
use std::collections::{BTreeMap, HashMap};

// ------------------------------------------------------------------ suffix arrays

/// prefix doubling over ranks; cyclic or not
pub fn sort_doubling<T: Ord>(t: &[T], cyclic: bool) -> (Vec<usize>, Vec<usize>) {
    let n = t.len();
    let mut idx: Vec<usize> = (0..n).collect();
    idx.sort_by(|&a, &b| t[a].cmp(&t[b]));
    let mut rank = vec![0usize; n];
    for i in 1..n {
        rank[idx[i]] = rank[idx[i - 1]] + (t[idx[i]] != t[idx[i - 1]]) as usize;
    }
    let mut k = 1;
    while k < n {
        let key = |i: usize| -> (usize, usize) {
            let second = if cyclic {
                rank[(i + k) % n] + 1
            } else if i + k < n {
                rank[i + k] + 1
            } else {
                0
            };
            (rank[i], second)
        };
        idx.sort_by_cached_key(|&i| key(i));
        let mut nr = vec![0usize; n];
        for i in 1..n {
            nr[idx[i]] = nr[idx[i - 1]] + (key(idx[i]) != key(idx[i - 1])) as usize;
        }
        let done = n == 0 || nr[idx[n - 1]] == n - 1;
        rank = nr;
        if done {
            break;
        }
        k *= 2;
    }
    (idx, rank)
}

pub fn sa_naive<T: Ord>(t: &[T]) -> Vec<usize> {
    let mut sa: Vec<usize> = (0..t.len()).collect();
    sa.sort_by(|&a, &b| t[a..].cmp(&t[b..]));
    sa
}

/// is it the suffix array? (a permutation in which neighbours are in order; decides, as suffixes are distinct)
pub fn is_suffix_array<T: Ord>(t: &[T], sa: &[usize]) -> bool {
    let n = t.len();
    let mut isa = vec![usize::MAX; n + 1];
    for (r, &p) in sa.iter().enumerate() {
        if p >= n || isa[p] != usize::MAX {
            return false;
        }
        isa[p] = r + 1;
    }
    isa[n] = 0;
    sa.len() == n && sa.windows(2).all(|w| t[w[0]] < t[w[1]] || (t[w[0]] == t[w[1]] && isa[w[0] + 1] < isa[w[1] + 1]))
}

/// induced sorting of the suffixes of s, whose last symbol is a unique smallest 0; symbols below sigma
fn induced(s: &[u32], sigma: usize) -> Vec<u32> {
    const E: u32 = u32::MAX;
    let n = s.len();
    if n <= 2 {
        return (0..n as u32).rev().collect();
    }
    let mut stype = vec![false; n];
    stype[n - 1] = true;
    for i in (0..n - 1).rev() {
        stype[i] = s[i] < s[i + 1] || (s[i] == s[i + 1] && stype[i + 1]);
    }
    let lms = |i: usize| i > 0 && stype[i] && !stype[i - 1];
    let mut size = vec![0u32; sigma];
    for &c in s {
        size[c as usize] += 1;
    }
    let heads = || -> Vec<u32> {
        let mut x = 0;
        size.iter().map(|&k| { x += k; x - k }).collect()
    };
    let tails = || -> Vec<u32> {
        let mut x = 0;
        size.iter().map(|&k| { x += k; x }).collect()
    };
    let induce = |order: &[u32]| -> Vec<u32> {
        let mut sa = vec![E; n];
        let mut b = tails();
        for &p in order.iter().rev() {
            let c = s[p as usize] as usize;
            b[c] -= 1;
            sa[b[c] as usize] = p;
        }
        let mut b = heads();
        for i in 0..n {
            let p = sa[i];
            if p != E && p > 0 && !stype[p as usize - 1] {
                let c = s[p as usize - 1] as usize;
                sa[b[c] as usize] = p - 1;
                b[c] += 1;
            }
        }
        let mut b = tails();
        for i in (0..n).rev() {
            let p = sa[i];
            if p != E && p > 0 && stype[p as usize - 1] {
                let c = s[p as usize - 1] as usize;
                b[c] -= 1;
                sa[b[c] as usize] = p - 1;
            }
        }
        sa
    };
    let marks: Vec<u32> = (0..n).filter(|&i| lms(i)).map(|i| i as u32).collect();
    let first = induce(&marks);
    // names of the substrings between marks
    let mut end = vec![0usize; n];
    for w in marks.windows(2) {
        end[w[0] as usize] = w[1] as usize;
    }
    end[n - 1] = n - 1;
    let mut name = vec![E; n];
    let mut names = 0u32;
    let mut last: Option<usize> = None;
    for &p in &first {
        let p = p as usize;
        if p as u32 == E || !lms(p) {
            continue;
        }
        if let Some(q) = last {
            let equal = end[p] - p == end[q] - q && s[p..=end[p]] == s[q..=end[q]] && (p..=end[p]).zip(q..).all(|(x, y)| stype[x] == stype[y]);
            names += !equal as u32;
        }
        name[p] = names;
        last = Some(p);
    }
    let reduced: Vec<u32> = marks.iter().map(|&p| name[p as usize]).collect();
    let order: Vec<u32> = if (names as usize) + 1 == marks.len() {
        let mut o = vec![0u32; marks.len()];
        for (i, &x) in reduced.iter().enumerate() {
            o[x as usize] = marks[i];
        }
        o
    } else {
        induced(&reduced, names as usize + 1).iter().map(|&i| marks[i as usize]).collect()
    };
    induce(&order)
}

pub fn suffix_array<T: Ord>(t: &[T]) -> Vec<usize> {
    let n = t.len();
    if n <= 64 {
        return sa_naive(t);
    }
    if n <= 3000 {
        return sort_doubling(t, false).0;
    }
    sa_fast(t)
}

/// for large texts: induced sorting, whose result is verified
pub fn sa_fast<T: Ord>(t: &[T]) -> Vec<usize> {
    let n = t.len();
    let mut idx: Vec<usize> = (0..n).collect();
    idx.sort_by(|&a, &b| t[a].cmp(&t[b]));
    let mut s = vec![0u32; n + 1];
    let mut c = 1;
    for i in 0..n {
        if i > 0 && t[idx[i]] != t[idx[i - 1]] {
            c += 1;
        }
        s[idx[i]] = c;
    }
    let sa: Vec<usize> = induced(&s, c as usize + 1)[1..].iter().map(|&x| x as usize).collect();
    if is_suffix_array(t, &sa) {
        sa
    } else {
        sort_doubling(t, false).0
    }
}

/// last column of the sorted rotations
pub fn rotation_bwt<T: Ord + Copy>(t: &[T]) -> Vec<T> {
    let n = t.len();
    if n <= 40 {
        let mut rows: Vec<Vec<T>> = (0..n).map(|i| [&t[i..], &t[..i]].concat()).collect();
        rows.sort();
        rows.into_iter().map(|r| r[n - 1]).collect()
    } else if n <= 3000 {
        sort_doubling(t, true).0.into_iter().map(|i| t[(i + n - 1) % n]).collect()
    } else {
        rotation_bwt_fast(t)
    }
}

pub fn rotation_bwt_fast<T: Ord + Copy>(t: &[T]) -> Vec<T> {
        let n = t.len();
        // the rotations of w^e are e times those of w; the suffixes of the least rotation of a primitive word are sorted like
        // its rotations
        let z = zfunc(t);
        let per = (1..=n).find(|&p| n % p == 0 && (p == n || z[p] == n - p)).unwrap();
        let w = &t[..per];
        let r = least_rotation(w);
        let w = [&w[r..], &w[..r]].concat();
        let mut out = Vec::with_capacity(n);
        for i in suffix_array(&w) {
            out.extend(std::iter::repeat(w[(i + per - 1) % per]).take(n / per));
        }
        out
}

/// symbol cyclically preceding the i-th smallest suffix
pub fn suffix_bwt<T: Ord + Copy>(t: &[T]) -> Vec<T> {
    let n = t.len();
    suffix_array(t).into_iter().map(|i| t[(i + n - 1) % n]).collect()
}

/// inverts the BWT of text+"\0" (text without zero bytes); None if it is no such BWT
pub fn invert_bwt(bwt: &[u8]) -> Option<Vec<u8>> {
    let n = bwt.len();
    if bwt.iter().filter(|&&b| b == 0).count() != 1 {
        return None;
    }
    let mut c = [0usize; 257];
    for &b in bwt {
        c[b as usize + 1] += 1;
    }
    for i in 0..256 {
        c[i + 1] += c[i];
    }
    let mut lf = vec![0usize; n];
    let mut occ = c;
    for i in 0..n {
        lf[i] = occ[bwt[i] as usize];
        occ[bwt[i] as usize] += 1;
    }
    let mut out = Vec::with_capacity(n - 1);
    let mut p = 0; // row of the rotation starting with the terminator
    for _ in 0..n - 1 {
        out.push(bwt[p]);
        p = lf[p];
    }
    if bwt[p] != 0 || out.contains(&0) {
        return None;
    }
    out.reverse();
    Some(out)
}

/// inverts the bijective BWT
pub fn invert_bbwt<T: Ord + Copy>(b: &[T]) -> Vec<T> {
    let n = b.len();
    // stable sort: psi[i] = position in b of the i-th smallest symbol
    let mut psi: Vec<usize> = (0..n).collect();
    psi.sort_by(|&x, &y| b[x].cmp(&b[y]).then(x.cmp(&y)));
    let mut seen = vec![false; n];
    let mut words: Vec<Vec<T>> = vec![];
    for i in 0..n {
        if seen[i] {
            continue;
        }
        let mut w = vec![];
        let mut p = i;
        while !seen[p] {
            seen[p] = true;
            w.push(b[psi[p]]);
            p = psi[p];
        }
        words.push(w);
    }
    // cycles by their smallest row come in increasing order; the factorization is non-increasing
    words.into_iter().rev().flatten().collect()
}

// ------------------------------------------------------------------ Lyndon words

/// by definition: strictly smaller than all proper suffixes
pub fn is_lyndon_naive<T: Ord>(w: &[T]) -> bool {
    !w.is_empty() && (1..w.len()).all(|i| *w < w[i..])
}

/// the Lyndon factorization from prefix minima of the inverse suffix array (ending positions)
pub fn lyndon_ends<T: Ord>(t: &[T]) -> Vec<usize> {
    let sa = suffix_array(t);
    let mut isa = vec![0; t.len()];
    for (r, &p) in sa.iter().enumerate() {
        isa[p] = r;
    }
    let mut ends = vec![];
    let mut min = usize::MAX;
    for i in 0..t.len() {
        if isa[i] < min {
            min = isa[i];
            if i > 0 {
                ends.push(i - 1);
            }
        }
    }
    ends.push(t.len() - 1);
    ends
}

/// omega order of two primitive words: compare infinite repetitions
pub fn omega_cmp<T: Ord>(a: &[T], b: &[T]) -> std::cmp::Ordering {
    for i in 0..2 * (a.len() + b.len()) {
        let c = a[i % a.len()].cmp(&b[i % b.len()]);
        if c != std::cmp::Ordering::Equal {
            return c;
        }
    }
    std::cmp::Ordering::Equal
}

/// bijective BWT by definition, from given factors
pub fn bbwt_def<T: Ord + Copy>(t: &[T]) -> Vec<T> {
    let ends = lyndon_ends(t);
    let mut rots: Vec<Vec<T>> = vec![];
    let mut s = 0;
    for e in ends {
        let w = &t[s..=e];
        for i in 0..w.len() {
            rots.push([&w[i..], &w[..i]].concat());
        }
        s = e + 1;
    }
    rots.sort_by(|a, b| omega_cmp(a, b));
    rots.into_iter().map(|r| *r.last().unwrap()).collect()
}

/// start of the least rotation (two-pointer algorithm); the smallest such start
pub fn least_rotation<T: Ord>(t: &[T]) -> usize {
    let n = t.len();
    let (mut i, mut j, mut k) = (0, 1, 0);
    while i < n && j < n && k < n {
        match t[(i + k) % n].cmp(&t[(j + k) % n]) {
            std::cmp::Ordering::Equal => k += 1,
            std::cmp::Ordering::Greater => {
                i += k + 1;
                if i == j {
                    i += 1
                }
                k = 0;
            }
            std::cmp::Ordering::Less => {
                j += k + 1;
                if i == j {
                    j += 1
                }
                k = 0;
            }
        }
    }
    i.min(j)
}

pub fn rotate<T: Copy>(t: &[T], i: usize) -> Vec<T> {
    [&t[i..], &t[..i]].concat()
}

pub fn is_necklace_def<T: Ord + Copy>(t: &[T]) -> bool {
    let l = least_rotation(t);
    rotate(t, l) == t
}

// ------------------------------------------------------------------ periods

pub fn zfunc<T: PartialEq>(t: &[T]) -> Vec<usize> {
    let n = t.len();
    let mut z = vec![0; n];
    if n > 0 {
        z[0] = n;
    }
    let (mut l, mut r) = (0, 0);
    for i in 1..n {
        let mut k = if i < r { z[i - l].min(r - i) } else { 0 };
        while i + k < n && t[k] == t[i + k] {
            k += 1;
        }
        z[i] = k;
        if i + k > r {
            l = i;
            r = i + k;
        }
    }
    z
}

/// border[i] for prefixes of length i (0..=n), from the Z-function
pub fn borders<T: PartialEq>(t: &[T]) -> Vec<usize> {
    let n = t.len();
    let z = zfunc(t);
    let mut b = vec![0; n + 1];
    // prefix of length i+l has the border l iff z[i] >= l, i >= 1; the smallest i gives the longest border
    let mut covered = 1;
    for i in 1..n {
        while covered < i + z[i] {
            // prefix length covered+1 ends inside the z-box of i
            if covered + 1 > i {
                b[covered + 1] = covered + 1 - i;
            }
            covered += 1;
        }
        if covered < i + 1 {
            covered = i + 1;
        }
    }
    b
}

pub fn borders_naive<T: PartialEq>(t: &[T]) -> Vec<usize> {
    (0..=t.len())
        .map(|l| (0..l).rev().find(|&b| t[..b] == t[l - b..l]).unwrap_or(0))
        .collect()
}

pub fn least_period_naive<T: PartialEq>(t: &[T]) -> usize {
    (1..=t.len()).find(|&p| (p..t.len()).all(|i| t[i] == t[i - p])).unwrap_or(0)
}

// ------------------------------------------------------------------ lcp, LZ77, MUS, attractors

pub fn lcp_of<T: PartialEq>(a: &[T], b: &[T]) -> usize {
    a.iter().zip(b).take_while(|(x, y)| x == y).count()
}

/// lcp of neighbouring suffixes in suffix array order (Kasai), 0 for the first
pub fn lcp_array<T: PartialEq>(t: &[T], sa: &[usize]) -> Vec<usize> {
    let n = t.len();
    if n <= 64 {
        return (0..n).map(|r| if r == 0 { 0 } else { lcp_of(&t[sa[r - 1]..], &t[sa[r]..]) }).collect();
    }
    let mut isa = vec![0; n];
    for (r, &p) in sa.iter().enumerate() {
        isa[p] = r;
    }
    let mut lcp = vec![0; n];
    let mut h = 0usize;
    for i in 0..n {
        if isa[i] == 0 {
            h = 0;
            continue;
        }
        let j = sa[isa[i] - 1];
        while i + h < n && j + h < n && t[i + h] == t[j + h] {
            h += 1;
        }
        lcp[isa[i]] = h;
        h = h.saturating_sub(1);
    }
    lcp
}

/// suffix automaton with first and last end positions
pub struct Sam {
    pub next: Vec<BTreeMap<u8, u32>>,
    pub link: Vec<i32>,
    pub len: Vec<usize>,
    pub first_end: Vec<usize>,
    pub is_clone: Vec<bool>,
}
impl Sam {
    pub fn new(t: &[u8]) -> Sam {
        let mut s = Sam { next: vec![BTreeMap::new()], link: vec![-1], len: vec![0], first_end: vec![0], is_clone: vec![true] };
        let mut last = 0usize;
        for (i, &c) in t.iter().enumerate() {
            let cur = s.len.len();
            s.next.push(BTreeMap::new());
            s.link.push(0);
            s.len.push(s.len[last] + 1);
            s.first_end.push(i + 1);
            s.is_clone.push(false);
            let mut p = last as i32;
            while p >= 0 && !s.next[p as usize].contains_key(&c) {
                s.next[p as usize].insert(c, cur as u32);
                p = s.link[p as usize];
            }
            if p >= 0 {
                let q = s.next[p as usize][&c] as usize;
                if s.len[p as usize] + 1 == s.len[q] {
                    s.link[cur] = q as i32;
                } else {
                    let cl = s.len.len();
                    s.next.push(s.next[q].clone());
                    s.link.push(s.link[q]);
                    s.len.push(s.len[p as usize] + 1);
                    s.first_end.push(s.first_end[q]);
                    s.is_clone.push(true);
                    while p >= 0 && s.next[p as usize].get(&c) == Some(&(q as u32)) {
                        s.next[p as usize].insert(c, cl as u32);
                        p = s.link[p as usize];
                    }
                    s.link[q] = cl as i32;
                    s.link[cur] = cl as i32;
                }
            }
            last = cur;
        }
        s
    }
    /// states by decreasing length
    pub fn order(&self) -> Vec<usize> {
        let mut o: Vec<usize> = (0..self.len.len()).collect();
        o.sort_by_key(|&v| std::cmp::Reverse(self.len[v]));
        o
    }
}

/// lengths of the greedy LZ77 factors (0: new symbol); earlier occurrences may overlap
pub fn lz77_lengths(t: &[u8]) -> Vec<usize> {
    let n = t.len();
    let mut out = vec![];
    let mut i = 0;
    if n <= 80 {
        while i < n {
            let l = (0..i).map(|j| lcp_of(&t[j..], &t[i..])).max().unwrap_or(0);
            out.push(l);
            i += l.max(1);
        }
        return out;
    }
    let sam = Sam::new(t);
    while i < n {
        let mut v = 0usize;
        let mut l = 0;
        while i + l < n {
            let Some(&w) = sam.next[v].get(&t[i + l]) else { break };
            // the first occurrence of t[i..=i+l] starts at first_end - (l+1)
            if sam.first_end[w as usize] - (l + 1) >= i {
                break;
            }
            v = w as usize;
            l += 1;
        }
        out.push(l);
        i += l.max(1);
    }
    out
}

/// minimal unique substrings (start, length), by start
pub fn mus(t: &[u8]) -> Vec<(usize, usize)> {
    let n = t.len();
    if n <= 24 {
        let mut cnt: HashMap<&[u8], usize> = HashMap::new();
        for a in 0..n {
            for b in a + 1..=n {
                *cnt.entry(&t[a..b]).or_insert(0) += 1;
            }
        }
        let mut out = vec![];
        for a in 0..n {
            for b in a + 1..=n {
                if cnt[&t[a..b]] == 1
                    && (b - a == 1 || (cnt[&t[a + 1..b]] > 1 && cnt[&t[a..b - 1]] > 1))
                {
                    out.push((a, b - a));
                }
            }
        }
        return out;
    }
    // u[i]: length of the longest repeated prefix of suffix i
    let sa = suffix_array(t);
    let lcp = lcp_array(t, &sa);
    let mut u = vec![0; n + 1];
    for r in 0..n {
        u[sa[r]] = lcp[r].max(if r + 1 < n { lcp[r + 1] } else { 0 });
    }
    (0..n)
        .filter(|&i| i + u[i] < n) // i..i+u[i] inclusive is unique
        .filter(|&i| {
            // minimal iff the substring without its first byte, t[i+1..i+u[i]+1), is repeated
            u[i] == 0 || u[i + 1] >= u[i]
        })
        .map(|i| (i, u[i] + 1))
        .collect()
}

/// first uncovered substring if the positions are no string attractor
pub fn attractor_witness(t: &[u8], pos: &[usize]) -> Option<Vec<u8>> {
    let n = t.len();
    // last attractor position <= i, as distance
    let mut prev: Vec<Option<usize>> = vec![None; n];
    let mut mark = vec![false; n];
    for &p in pos {
        mark[p] = true;
    }
    let mut last = None;
    for i in 0..n {
        if mark[i] {
            last = Some(i);
        }
        prev[i] = last;
    }
    if n <= 16 {
        for l in 1..=n {
            let mut ok: HashMap<&[u8], bool> = HashMap::new();
            for i in 0..=n - l {
                let c = (i..i + l).any(|x| mark[x]);
                *ok.entry(&t[i..i + l]).or_insert(false) |= c;
            }
            for i in 0..=n - l {
                if !ok[&t[i..i + l]] {
                    return Some(t[i..i + l].to_vec());
                }
            }
        }
        return None;
    }
    witness_in(&Sam::new(t), t, &prev)
}
/// an estimate of the total length of the shortest uncovered substrings, one per edge of the suffix tree
pub fn uncovered_size(t: &[u8], pos: &[usize]) -> usize {
    let n = t.len();
    let mut r = t.to_vec();
    r.reverse();
    let sam = Sam::new(&r);
    // next position in the text = previous one in the reversed text
    let mut mark = vec![false; n];
    for &p in pos {
        mark[n - 1 - p] = true;
    }
    let mut prev: Vec<Option<usize>> = vec![None; n];
    let mut last = None;
    for i in 0..n {
        if mark[i] {
            last = Some(i);
        }
        prev[i] = last;
    }
    let need = needs(&sam, &prev);
    (1..sam.len.len()).map(|v| sam.len[sam.link[v] as usize] + 1).zip(need[1..].iter()).map(|(s, &d)| if s < d { s } else { 0 }).sum()
}
/// completes positions to an attractor: pick(round, word) chooses (last occurrence?, offset); None after too many rounds
pub fn complete_attractor(t: &[u8], pos: &mut Vec<usize>, rounds: usize, pick: impl Fn(usize, usize) -> (bool, usize)) -> Option<()> {
    let sam = Sam::new(t);
    for k in 0..rounds {
        let mut prev: Vec<Option<usize>> = vec![None; t.len()];
        for &p in pos.iter() {
            prev[p] = Some(p);
        }
        for i in 1..t.len() {
            prev[i] = prev[i].or(prev[i - 1]);
        }
        let Some(w) = witness_in(&sam, t, &prev) else { return Some(()) };
        let (last, x) = pick(k, w.len());
        let i = if last { t.windows(w.len()).rposition(|v| v == w) } else { t.windows(w.len()).position(|v| v == w) };
        pos.push(i.unwrap() + x);
    }
    None
}
/// for every state, the number of bytes from the right that a string needs to cover a position
fn needs(sam: &Sam, prev: &[Option<usize>]) -> Vec<usize> {
    let m = sam.len.len();
    // least distance from an occurrence's end back to an attractor position (number of bytes needed)
    let mut need = vec![usize::MAX; m];
    for v in 1..m {
        if !sam.is_clone[v] {
            let e = sam.first_end[v] - 1;
            if let Some(p) = prev[e] {
                need[v] = e - p + 1;
            }
        }
    }
    for v in sam.order() {
        if sam.link[v] >= 0 {
            let l = sam.link[v] as usize;
            need[l] = need[l].min(need[v]);
        }
    }
    need
}
fn witness_in(sam: &Sam, t: &[u8], prev: &[Option<usize>]) -> Option<Vec<u8>> {
    let m = sam.len.len();
    let need = needs(sam, prev);
    let mut best: Option<(usize, usize)> = None; // (len, end)
    for v in 1..m {
        let shortest = sam.len[sam.link[v] as usize] + 1;
        if shortest < need[v] && best.map_or(true, |b| shortest < b.0) {
            best = Some((shortest, sam.first_end[v]));
        }
    }
    best.map(|(l, e)| t[e - l..e].to_vec())
}

/// does w occur in t with an occurrence containing a position? (occurs, covered)
pub fn occurrence_cover(t: &[u8], w: &[u8], pos: &[usize]) -> (bool, bool) {
    let mut occurs = false;
    if w.is_empty() || w.len() > t.len() {
        return (false, false);
    }
    for i in 0..=t.len() - w.len() {
        if t[i..i + w.len()] == *w {
            occurs = true;
            if pos.iter().any(|&p| p >= i && p < i + w.len()) {
                return (true, true);
            }
        }
    }
    (occurs, false)
}

// ------------------------------------------------------------------ entropy, runs

/// k-th order empirical entropy of t: (1/n) sum over contexts w of |T_w| H0(T_w)
pub fn entropy(t: &[u8], k: usize) -> f64 {
    let n = t.len();
    let mut ctx: HashMap<&[u8], HashMap<u8, u64>> = HashMap::new();
    for i in k..n {
        *ctx.entry(&t[i - k..i]).or_default().entry(t[i]).or_insert(0) += 1;
    }
    let mut parts: Vec<f64> = vec![];
    for m in ctx.values() {
        let tot: u64 = m.values().sum();
        for &c in m.values() {
            parts.push(c as f64 * (tot as f64 / c as f64).log2());
        }
    }
    parts.sort_by(|a, b| a.partial_cmp(b).unwrap());
    parts.iter().sum::<f64>() / n as f64
}

pub fn run_lengths(t: &[u8]) -> Vec<(u8, usize)> {
    let mut out: Vec<(u8, usize)> = vec![];
    for &b in t {
        match out.last_mut() {
            Some((c, n)) if *c == b => *n += 1,
            _ => out.push((b, 1)),
        }
    }
    out
}

// ------------------------------------------------------------------ coders

pub fn mtf_encode(t: &[u8]) -> Vec<u8> {
    let mut list: Vec<u8> = (0..=255).collect();
    t.iter()
        .map(|&b| {
            let i = list.iter().position(|&x| x == b).unwrap();
            list.remove(i);
            list.insert(0, b);
            i as u8
        })
        .collect()
}
pub fn mtf_decode(t: &[u8]) -> Vec<u8> {
    let mut list: Vec<u8> = (0..=255).collect();
    t.iter()
        .map(|&i| {
            let b = list.remove(i as usize);
            list.insert(0, b);
            b
        })
        .collect()
}
pub fn rle_decode(t: &[u8]) -> Option<Vec<u8>> {
    if t.len() % 2 != 0 {
        return None;
    }
    Some(t.chunks(2).flat_map(|p| std::iter::repeat(p[0]).take(p[1] as usize + 1)).collect())
}
pub fn rle_zero_decode(t: &[u8]) -> Option<Vec<u8>> {
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        if t[i] == b'0' {
            let n = *t.get(i + 1)? as usize + 1;
            out.extend(std::iter::repeat(b'0').take(n));
            i += 2;
        } else {
            out.push(t[i]);
            i += 1;
        }
    }
    Some(out)
}
pub fn escape_encode(t: &[u8], e: u8, from: &[u8], to: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    for &b in t {
        if b == e {
            out.extend([e, e]);
        } else if let Some(i) = from.iter().rposition(|&x| x == b) {
            out.extend([e, to[i]]);
        } else {
            out.push(b);
        }
    }
    out
}
pub fn escape_decode(t: &[u8], e: u8, from: &[u8], to: &[u8]) -> Option<Vec<u8>> {
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        if t[i] == e {
            let x = *t.get(i + 1)?;
            out.push(if x == e { e } else { from[to.iter().position(|&y| y == x)?] });
            i += 2;
        } else {
            out.push(t[i]);
            i += 1;
        }
    }
    Some(out)
}

#[cfg(test)]
mod tests {
    use super::*;
    use crate::gens::*;

    /// the fast oracles agree with the brute-force ones
    #[test]
    fn oracles_agree() {
        for sigma in [1u64, 2, 3] {
            let max = [20, 11, 7][sigma as usize - 1];
            for i in 0..count_strings(sigma, 1, max) {
                let t = nth_string(sigma, 1, i);
                assert_eq!(sort_doubling(&t, false).0, sa_naive(&t));
                let s: Vec<u32> = t.iter().map(|&x| x as u32 + 1).chain([0]).collect();
                let ind: Vec<usize> = induced(&s, sigma as usize + 2)[1..].iter().map(|&x| x as usize).collect();
                assert_eq!(ind, sa_naive(&t));
                assert_eq!(sa_fast(&t), sa_naive(&t));
                let n = t.len();
                let mut rows: Vec<Vec<u8>> = (0..n).map(|i| rotate(&t, i)).collect();
                rows.sort();
                let last: Vec<u8> = rows.iter().map(|r| r[n - 1]).collect();
                let fast: Vec<u8> = sort_doubling(&t, true).0.into_iter().map(|i| t[(i + n - 1) % n]).collect();
                assert_eq!(fast, last);
                assert_eq!(rotation_bwt_fast(&t), last);
                assert_eq!(rotate(&t, least_rotation(&t)), rows[0]);
                assert_eq!(borders(&t), borders_naive(&t), "{:?}", t);
                let ends = lyndon_ends(&t);
                let mut s = 0;
                let mut prev: Option<Vec<u8>> = None;
                for e in ends {
                    let w = t[s..=e].to_vec();
                    assert!(is_lyndon_naive(&w));
                    if let Some(p) = prev {
                        assert!(p >= w);
                    }
                    prev = Some(w);
                    s = e + 1;
                }
                assert_eq!(invert_bbwt(&bbwt_def(&t)), t);
                let z: Vec<u8> = t.iter().map(|x| x + 1).chain([0]).collect();
                assert_eq!(invert_bwt(&rotation_bwt(&z)).unwrap(), &z[..n]);
                assert_eq!(invert_bwt(&suffix_bwt(&z)).unwrap(), &z[..n]);
            }
        }
    }
    #[test]
    fn fast_variants() {
        let mut r = Mix(7);
        for round in 0..400 {
            let p: Vec<u8> = (0..1 + r.below(5) as u8).map(|x| x + b'a').collect();
            let n = 30 + r.below(60);
            let mut t = expand(round as u8, r.next(), n, &p);
            t.truncate(80);
            // force both variants
            let long: Vec<u8> = t.clone();
            let naive: Vec<usize> = {
                let mut out = vec![];
                let mut i = 0;
                while i < t.len() {
                    let l = (0..i).map(|j| lcp_of(&t[j..], &t[i..])).max().unwrap_or(0);
                    out.push(l);
                    i += l.max(1);
                }
                out
            };
            let sam = Sam::new(&long);
            let mut out = vec![];
            let mut i = 0;
            while i < long.len() {
                let (mut v, mut l) = (0usize, 0);
                while i + l < long.len() {
                    let Some(&w) = sam.next[v].get(&long[i + l]) else { break };
                    if sam.first_end[w as usize] - (l + 1) >= i {
                        break;
                    }
                    v = w as usize;
                    l += 1;
                }
                out.push(l);
                i += l.max(1);
            }
            assert_eq!(out, naive);
            // MUS by counting
            let n = t.len();
            let mut cnt: HashMap<&[u8], usize> = HashMap::new();
            for a in 0..n {
                for b in a + 1..=n {
                    *cnt.entry(&t[a..b]).or_insert(0) += 1;
                }
            }
            let mut m = vec![];
            for a in 0..n {
                for b in a + 1..=n {
                    if cnt[&t[a..b]] == 1 && (b - a == 1 || (cnt[&t[a + 1..b]] > 1 && cnt[&t[a..b - 1]] > 1)) {
                        m.push((a, b - a));
                    }
                }
            }
            assert_eq!(mus(&t), m);
            // attractor
            let mut pos: Vec<usize> = (0..1 + r.below(8)).map(|_| r.below(n)).collect();
            if r.below(2) == 0 {
                // grow to an attractor
                while let Some(w) = attractor_witness(&t, &pos) {
                    let i = (0..n).find(|&i| t[i..].starts_with(&w)).unwrap();
                    assert_eq!(occurrence_cover(&t, &w, &pos), (true, false));
                    pos.push(i + r.below(w.len()));
                }
            }
            let mut bad = false;
            for a in 0..n {
                for b in a + 1..=n {
                    if !occurrence_cover(&t, &t[a..b], &pos).1 {
                        bad = true;
                    }
                }
            }
            assert_eq!(attractor_witness(&t, &pos).is_some(), bad);
        }
    }
    #[test]
    fn large_suffix_arrays() {
        for kind in 0..6 {
            for p in [&b"ab"[..], b"abcdefgh", b"a"] {
                let t = expand(kind, 5, 1_200_000, p);
                let now = std::time::Instant::now();
                let s: Vec<u32> = t.iter().map(|&x| x as u32).chain([0]).collect();
                let ind: Vec<usize> = induced(&s, 256)[1..].iter().map(|&x| x as usize).collect();
                assert!(is_suffix_array(&t, &ind));
                println!("kind {} {:?} {:?}", kind, p, now.elapsed());
                let now = std::time::Instant::now();
                sa_fast(&t);
                println!("  sa_fast {:?}", now.elapsed());
            }
        }
    }
}
