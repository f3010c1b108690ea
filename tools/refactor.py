#!/usr/bin/env python3
"""Behaviour-preserving rewrites of many functions of /repo's sources, applied to a copy: refactor.py DIR
The checks have to stay quiet on the result."""
import re, sys
D = sys.argv[1]
def fn(path, head, body):
    """replaces the item that starts with the line containing head, up to its closing brace in the same column"""
    s = open(f'{D}/{path}').read()
    i = s.index(head); i = s.rfind('\n', 0, i) + 1
    ind = re.match(r'\s*', s[i:]).group(0)
    j = s.index('\n' + ind + '}', i) + len('\n' + ind + '}')
    s = s[:i] + body.strip('\n') + s[j:]
    open(f'{D}/{path}', 'w').write(s)
def rep(path, old, new, n=1):
    s = open(f'{D}/{path}').read()
    assert s.count(old) >= 1, (path, old)
    open(f'{D}/{path}', 'w').write(s.replace(old, new) if n == 0 else s.replace(old, new, n))

# ---- io
fn('src/io.rs', 'pub fn file2byte_vector', '''
pub fn file2byte_vector(filename: &str, prefix_length: usize) -> Vec<u8> {
    let f = match std::fs::File::open(filename) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("{}: {}", filename, e);
            panic!("no file found");
        }
    };
    read_prefix(std::io::BufReader::with_capacity(1 << 16, f), prefix_length)
}

fn read_prefix<R: std::io::Read>(mut reader: R, prefix_length: usize) -> Vec<u8> {
    let mut result = Vec::new();
    let mut block = [0u8; 5000];
    loop {
        let want = match prefix_length {
            0 => block.len(),
            p => std::cmp::min(p - result.len(), block.len()),
        };
        if want == 0 {
            return result;
        }
        match reader.read(&mut block[..want]) {
            Ok(0) => return result,
            Ok(k) => result.extend_from_slice(&block[..k]),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(e) => panic!("{}", e),
        }
    }
}
''')
fn('src/io.rs', 'pub fn stdin2byte_vector', '''
pub fn stdin2byte_vector(prefix_length: usize) -> Vec<u8> {
    read_prefix(std::io::stdin().lock(), prefix_length)
}
''')
fn('src/io.rs', 'pub fn stream_or_stdin', '''
pub fn stream_or_stdin(filename: Option<&str>) -> Box<dyn std::io::Read> {
    if let Some(name) = filename {
        return Box::new(std::io::BufReader::with_capacity(777, std::fs::File::open(name).unwrap()));
    }
    Box::new(std::io::stdin())
}
''')
fn('src/io.rs', 'pub fn read_char', '''
pub fn read_char<R: std::io::Read>(reader: &mut R) -> std::io::Result<u8> {
    let mut buffer = [0u8; 1];
    if reader.read(&mut buffer)? == 0 {
        return Err(std::io::ErrorKind::UnexpectedEof.into());
    }
    Ok(buffer[0])
}
''')
fn('src/io.rs', 'pub fn next_char', '''
pub fn next_char<R: std::io::Read>(reader: &mut R) -> Option<u8> {
    use std::io::ErrorKind::*;
    let mut answer = read_char(reader);
    while matches!(&answer, Err(e) if e.kind() == Interrupted) {
        answer = read_char(reader);
    }
    match answer {
        Ok(c) => Some(c),
        Err(e) if e.kind() == UnexpectedEof => None,
        Err(e) => panic!("error while reading: {:?}", e),
    }
}
''')
# ---- core
C = 'src/core.rs'
fn(C, 'pub fn bwt_from_text_by_sa', '''
pub fn bwt_from_text_by_sa(text: &Vec<u8>) -> Vec<u8> {
    let (_, front) = text.split_last().expect("empty text");
    if let Some(p) = front.iter().position(|&x| x == 0) {
        panic!("the input text contains a zero byte at position {}", p);
    }
    let mut sa = vec![0i32; text.len()];
    cdivsufsort::sort_in_place(text, &mut sa);
    debug!("sa: {:?}", sa);
    sa.iter().map(|&p| if p == 0 { *text.last().unwrap() } else { text[p as usize - 1] }).collect()
}
''')
fn(C, 'pub fn bwt_by_matrix_naive', '''
pub fn bwt_by_matrix_naive<T: std::cmp::Ord + Copy>(text: &[T]) -> Vec<T> {
    let n = text.len();
    let mut rotations: Vec<usize> = (0..n).collect();
    let from = |i: usize| text[i..].iter().chain(text[..i].iter());
    rotations.sort_unstable_by(|&a, &b| from(a).cmp(from(b)));
    rotations.into_iter().map(|i| text[(i + n - 1) % n]).collect()
}
''')
fn(C, 'pub fn bwt_by_matrix(', '''
pub fn bwt_by_matrix(text: &[u8]) -> Vec<u8> {
    assert_gt!(text.len(), 0);
    let start = lyndon_conjugate(text);
    let newtext = [&text[start..], &text[..start], &[0u8][..]].concat();
    let mut bwt = bwt_from_text_by_sa(&newtext);
    let zero = bwt.iter().position(|&x| x == 0).unwrap();
    bwt.remove(zero);
    bwt
}
''')
fn(C, 'pub fn lyndon_conjugate', '''
pub fn lyndon_conjugate<C: Ord + Copy + Clone>(text: &[C]) -> usize {
    // two candidates and the length of their common prefix
    let n = text.len();
    assert_gt!(n, 0);
    let (mut i, mut j, mut k) = (0, 1, 0);
    while i < n && j < n && k < n {
        let (a, b) = (text[(i + k) % n], text[(j + k) % n]);
        if a == b {
            k += 1;
            continue;
        }
        if a > b {
            i += k + 1;
        } else {
            j += k + 1;
        }
        if i == j {
            j += 1;
        }
        k = 0;
    }
    i.min(j)
}
''')
fn(C, 'pub fn is_primitive', '''
pub fn is_primitive<C: Eq>(text: &[C]) -> bool {
    let n = text.len();
    let p = smallest_period(&border_array(text));
    p == n || n % p > 0
}
''')
fn(C, 'pub fn suffixarray_naive', '''
pub fn suffixarray_naive<C: Ord>(text: &[C]) -> Vec<usize> {
    let mut sa: Vec<usize> = (0..text.len()).rev().collect();
    sa.sort_unstable_by(|&a, &b| text[a..].cmp(&text[b..]));
    sa
}
''')
fn(C, 'pub fn bwt_from_sa', '''
pub fn bwt_from_sa<C: Clone + Copy>(text: &[C], sa: &[usize]) -> Vec<C> {
    sa.iter().map(|&p| text[if p == 0 { text.len() } else { p } - 1]).collect()
}
''')
fn(C, 'pub fn border_array', '''
pub fn border_array<C: Eq>(text: &[C]) -> Vec<usize> {
    let n = text.len();
    let mut border = vec![0; n + 1];
    let mut b = 0;
    for i in 1..n {
        while b > 0 && text[b] != text[i] {
            b = border[b];
        }
        if text[b] == text[i] {
            b += 1;
        }
        border[i + 1] = b;
    }
    border
}
''')
fn(C, 'pub fn bit_size', '''
pub fn bit_size(mut i: usize) -> u8 {
    let mut bits = 0;
    while i > 0 {
        bits += 1;
        i >>= 1;
    }
    bits
}
''')
fn(C, 'pub fn compute_phi', '''
pub fn compute_phi<T: AsPrimitive<usize> + num::cast::FromPrimitive>(sa: &[T]) -> Vec<T> {
    assert_gt!(sa.len(), 0);
    let mut phi = sa.to_vec();
    let mut previous = sa[sa.len() - 1];
    for &p in sa {
        phi[p.as_()] = previous;
        previous = p;
    }
    phi
}
''')
fn(C, 'pub fn compute_plcp', '''
pub fn compute_plcp(text: &[u8], phi: &[i32]) -> Vec<u32> {
    let n = text.len();
    let mut plcp = Vec::with_capacity(n);
    let mut known = 0usize;
    for (b, &a) in phi.iter().enumerate() {
        let a = a as usize;
        let start = known.min(n - a.max(b));
        let common = start + text[a + start..].iter().zip(&text[b + start..]).take_while(|(x, y)| x == y).count();
        // the smallest suffix is a prefix of the largest, or has nothing in common with it
        let value = if b + common == n { 0 } else { common };
        plcp.push(value as u32);
        known = value.saturating_sub(1);
    }
    plcp
}
''')
fn(C, 'pub fn compute_lcp', '''
pub fn compute_lcp<T: AsPrimitive<usize> + num::cast::FromPrimitive>(
    plcp: &[u32],
    sa: &[T],
) -> Vec<u32> {
    sa.iter().map(|p| plcp[p.as_()]).collect()
}
''')
fn(C, 'pub fn compute_psv', '''
pub fn compute_psv<T: Ord>(arr: &[T]) -> Vec<u32> {
    let mut stack: Vec<usize> = Vec::new();
    let mut psv = Vec::with_capacity(arr.len());
    for (i, x) in arr.iter().enumerate() {
        while stack.last().is_some_and(|&p| arr[p] >= *x) {
            stack.pop();
        }
        psv.push(stack.last().map_or(INVALID_VALUE, |&p| p as u32));
        stack.push(i);
    }
    psv
}
''')
fn(C, 'pub fn compute_nsv', '''
pub fn compute_nsv<T: Ord>(arr: &[T]) -> Vec<u32> {
    let mut stack: Vec<usize> = Vec::new();
    let mut nsv = vec![INVALID_VALUE; arr.len()];
    for (i, x) in arr.iter().enumerate() {
        while let Some(&p) = stack.last() {
            if arr[p] <= *x {
                break;
            }
            nsv[p] = i as u32;
            stack.pop();
        }
        stack.push(i);
    }
    nsv
}
''')
fn(C, 'pub fn duval', '''
pub fn duval<C: Ord>(text: &[C]) -> Vec<usize> {
    use std::cmp::Ordering::*;
    let n = text.len();
    let mut ends = Vec::new();
    let mut start = 0;
    while start < n {
        let (mut i, mut j) = (start, start + 1);
        while j < n {
            match text[i].cmp(&text[j]) {
                Less => i = start,
                Equal => i += 1,
                Greater => break,
            }
            j += 1;
        }
        let p = j - i;
        while start <= i {
            start += p;
            ends.push(start - 1);
        }
    }
    ends
}
''')
fn(C, 'pub fn isa_lyndon_factorization', '''
pub fn isa_lyndon_factorization(isa: &[i32]) -> Vec<usize> {
    let mut least = isa[0];
    let mut ends: Vec<usize> = Vec::new();
    for (k, &x) in isa.iter().enumerate().skip(1) {
        if x < least {
            least = x;
            ends.push(k - 1);
        }
    }
    ends.push(isa.len() - 1);
    ends
}
''')
rep(C, '''        while len < alen * blen {''', '''        while len < alen + blen {''')
fn(C, 'pub fn number_of_runs', '''
pub fn number_of_runs<R: std::io::Read>(reader: &mut R) -> usize {
    let mut last = None;
    let mut runs = 0;
    while let Some(c) = io::next_char(reader) {
        if last.replace(c) != Some(c) {
            runs += 1;
        }
    }
    runs
}
''')
# ---- word
W = 'src/word.rs'
fn(W, 'pub fn fibonacci_number', '''
pub fn fibonacci_number(k: u8) -> usize {
    let (mut a, mut b) = (1usize, 2usize);
    for i in 0..k {
        let next = if i + 1 < k { a + b } else { 0 };
        a = b;
        b = next;
    }
    a
}
''')
fn(W, 'pub fn fibonacci_word', '''
pub fn fibonacci_word(k: u8) -> Vec<u8> {
    let (mut old, mut word) = (vec![CHR_B], vec![CHR_A]);
    for _ in 0..k {
        let next = [&word[..], &old[..]].concat();
        old = std::mem::replace(&mut word, next);
    }
    word
}
''')
rep(W, '''/// Estimates the k-th''', '''#[allow(dead_code)]
/// Estimates the k-th''')
fn(W, 'pub fn thuemorse_word', '''
pub fn thuemorse_word(k: u8) -> Vec<u8> {
    (0..power_of_two(k)).map(|i| if i.count_ones() % 2 == 0 { CHR_A } else { CHR_B }).collect()
}
''')
fn(W, 'pub fn power2_sequence', '''
pub fn power2_sequence(k: u8) -> Vec<u8> {
    (1..=power_of_two(k)).map(|j| if j.is_power_of_two() { CHR_B } else { CHR_A }).collect()
}
''')
fn(W, 'pub fn period_doubling_word', '''
pub fn period_doubling_word(k: u8) -> Vec<u8> {
    let mut text = vec![CHR_A];
    for _ in 0..k {
        text = text.iter().flat_map(|&c| period_doubling_morphism(c)).copied().collect();
    }
    text
}
''')
fn(W, 'pub fn tribonacci_word', '''
pub fn tribonacci_word(k: u8) -> Vec<u8> {
    let _ = iterate_general_morphism;
    iterate_general_morphism_with_startsymbol(k, tribonacci_morphism, 1, &[CHR_A])
}
''')
rep(W, '    for _ in 0..rounds {\n        for start_char in oldtext {\n            for c in morphism(start_char) {\n                text.push(*c);\n            }\n        }',
       '    for _ in 0..rounds {\n        for start_char in oldtext {\n            text.extend_from_slice(morphism(start_char));\n        }')
# ---- tools
rep('src/bin/mtf.rs', '    mtf(&mut reader, &mut writer);\n}', '    let mut writer = std::io::BufWriter::with_capacity(10_000, &mut writer);\n    mtf(&mut reader, &mut writer);\n}')
fn('src/bin/mtf.rs', 'pub fn mtf<R', '''
pub fn mtf<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut W) {
    let mut table: Vec<u8> = (0..=u8::MAX).collect();
    while let Some(c) = io::next_char(&mut reader) {
        let pos = table.iter().position(|&x| x == c).unwrap();
        table[..=pos].rotate_right(1);
        writer.write_all(&[pos as u8]).unwrap();
    }
    writer.flush().unwrap();
}
''')
fn('src/bin/rle.rs', 'pub fn rle<R', '''
pub fn rle<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut W) {
    let mut pairs: Vec<[u8; 2]> = Vec::new();
    while let Some(c) = io::next_char(&mut reader) {
        match pairs.last_mut() {
            Some(p) if p[0] == c && p[1] < u8::MAX => p[1] += 1,
            _ => pairs.push([c, 0]),
        }
    }
    use std::io::Write;
    let mut writer = std::io::BufWriter::new(writer);
    for p in pairs {
        writer.write_all(&p).unwrap();
    }
    writer.flush().unwrap();
}
''')
rep('src/bin/rle.rs', '            write!(writer, "({},{})", prev_char as char, run_counter + 1).unwrap();\n        }\n    }\n    writer.flush().unwrap();', '            writer.write_all(format!("({},{})", prev_char as char, run_counter + 1).as_bytes()).unwrap();\n        }\n    }\n    writer.flush().unwrap();')
rep('src/bin/escape.rs', '    let mut writer = io::stream_or_stdout(core::stringopt_stropt(&args.outfilename));', '    let mut writer = std::io::BufWriter::new(io::stream_or_stdout(core::stringopt_stropt(&args.outfilename)));\n    use std::io::Write;')
rep('src/bin/escape.rs', '                        let next_char = io::next_char(&mut reader).unwrap();', '''                        let Some(next_char) = io::next_char(&mut reader) else {
                            eprintln!("the text ends with the escape symbol");
                            std::process::exit(3);
                        };''')
rep('src/bin/reverse.rs', '''    text.reverse();
    writer.write_all(text.as_slice()).unwrap();''', '''    text.reverse();
    for block in text.chunks(1000) {
        if let Err(e) = writer.write_all(block) {
            eprintln!("{}", e);
            std::process::exit(1);
        }
    }''')
for f in ('count_z', 'count_lexparse'):
    rep(f'src/bin/{f}.rs', '        let mut writer = io::stream_or_stdout(Some(&filename));', '        use std::io::Write;\n        let mut writer = std::io::BufWriter::new(io::stream_or_stdout(Some(&filename)));')
    rep(f'src/bin/{f}.rs', '''                .write_all(format!("({},{})", fact.pos, fact.len).as_bytes())
                .unwrap();
        }
''', '''                .write_all(format!("({},{})", fact.pos, fact.len).as_bytes())
                .unwrap();
        }
        writer.flush().unwrap();
''')
rep('src/bin/count_z.rs', '''        let max_lcp = if prev_lcp < next_lcp {
            next_lcp
        } else {
            prev_lcp
        };
        let max_pos = if prev_lcp < next_lcp {
            sa[nsv[sa_position] as usize]
        } else {
            sa[psv[sa_position] as usize]
        };''', '''        // prefer the other one on ties
        let (max_lcp, max_pos) = if prev_lcp <= next_lcp {
            (next_lcp, sa[nsv[sa_position] as usize])
        } else {
            (prev_lcp, sa[psv[sa_position] as usize])
        };''')
fn('src/bin/enumerate.rs', 'fn enumerate_for_length', '''
fn enumerate_for_length(alpha_size: usize, len: usize) {
    use std::io::Write;
    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
    let mut s = vec![b'a'; len];
    let top = b'a' + alpha_size as u8 - 1;
    loop {
        out.write_all(&s).unwrap();
        out.write_all(b"\\n").unwrap();
        match s.iter().rposition(|&c| c < top) {
            Some(p) => {
                s[p] += 1;
                s[p + 1..].fill(b'a');
            }
            None => break,
        }
    }
    out.flush().unwrap();
}
''')
rep('src/bin/randomstring.rs', '''        let mut newchar = rng.sample(Alphanumeric);
        if args.alphabet_size != 0 && charset.len() == args.alphabet_size {
            while !charset.contains(&newchar) {
                newchar = rng.sample(Alphanumeric);
            }
        }''', '''        let full = args.alphabet_size != 0 && charset.len() == args.alphabet_size;
        let newchar = loop {
            let c = rng.sample(Alphanumeric);
            if !full || charset.contains(&c) {
                break c;
            }
        };''')
rep('src/bin/is_stringattractor.rs', '''        if lcplength <= rmq {
            is_attractor = false;''', '''        let covered = rmq < lcplength;
        if !covered {
            is_attractor = false;''')
rep('src/bin/entropy_kmer.rs', '''        match kmers.get_mut(&kmer) {
            Some(val) => {
                *val += 1;
            }
            None => {
                kmers.insert(kmer, 1);
            }
        };''', '''        *kmers.entry(kmer).or_insert(0) += 1;''')
rep('src/bin/mus.rs', '''        if isai + 1 == sa.len() {
            lcp[isai] as usize
        } else {
            std::cmp::max(lcp[isai], lcp[isa[i] as usize + 1]) as usize
        }''', '''        let next = lcp.get(isai + 1).copied().unwrap_or(0);
        next.max(lcp[isai]) as usize''')
rep('src/bin/count_r.rs', 'fn main() {', 'fn main() {\n    let _guard = std::io::stdout();')
