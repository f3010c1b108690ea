//! Literals of the code under test as a dictionary for the generators, as fuzzers do: the numbers, strings, characters
//! and byte lists that occur in /repo/src (outside its tests) are likely places where its behaviour changes.
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    /// numbers, and products and shifts of two of them
    pub numbers: Vec<usize>,
    /// short byte sequences
    pub tokens: Vec<Vec<u8>>,
    /// what looks like the name of an environment variable
    pub envs: Vec<String>,
    /// what may be the name of a file or program, or a part of it, and the tool whose source mentions it
    pub names: Vec<(Option<String>, String)>,
}

#[derive(Debug, PartialEq)]
enum Tok {
    Num(u128),
    Str(Vec<u8>),
    Chr(Vec<u8>),
    Word(String),
    Sym(char),
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] != b'\\' || i + 1 >= s.len() {
            out.push(s[i]);
            i += 1;
            continue;
        }
        i += 2;
        match s[i - 1] {
            b'n' => out.push(b'\n'),
            b'r' => out.push(b'\r'),
            b't' => out.push(b'\t'),
            b'0' => out.push(0),
            b'x' if i + 2 <= s.len() => {
                let h = std::str::from_utf8(&s[i..i + 2]).ok().and_then(|h| u8::from_str_radix(h, 16).ok());
                out.push(h.unwrap_or(b'x'));
                i += 2;
            }
            b'u' => {
                let end = s[i..].iter().position(|&c| c == b'}').map_or(s.len(), |e| i + e + 1);
                let h = std::str::from_utf8(&s[i..end]).unwrap_or("").trim_matches(|c| c == '{' || c == '}');
                if let Some(c) = u32::from_str_radix(h, 16).ok().and_then(char::from_u32) {
                    out.extend(c.to_string().bytes());
                }
                i = end;
            }
            b'\n' => {
                while i < s.len() && s[i].is_ascii_whitespace() {
                    i += 1;
                }
            }
            c => out.push(c),
        }
    }
    out
}

fn lex(s: &[u8]) -> Vec<Tok> {
    let mut out = vec![];
    let mut i = 0;
    let at = |i: usize| s.get(i).copied().unwrap_or(0);
    while i < s.len() {
        let c = s[i];
        if c == b'/' && at(i + 1) == b'/' {
            while i < s.len() && s[i] != b'\n' {
                i += 1;
            }
        } else if c == b'/' && at(i + 1) == b'*' {
            i += 2;
            while i < s.len() && !(s[i] == b'*' && at(i + 1) == b'/') {
                i += 1;
            }
            i += 2;
        } else if c == b'"' || (c == b'b' && at(i + 1) == b'"') {
            i += if c == b'b' { 2 } else { 1 };
            let from = i;
            while i < s.len() && s[i] != b'"' {
                i += if s[i] == b'\\' { 2 } else { 1 };
            }
            out.push(Tok::Str(unescape(&s[from..i.min(s.len())])));
            i += 1;
        } else if (c == b'r' && (at(i + 1) == b'"' || (at(i + 1) == b'#' && matches!(at(i + 2), b'"' | b'#')))) || (c == b'b' && at(i + 1) == b'r' && matches!(at(i + 2), b'"' | b'#')) {
            i += if c == b'b' { 2 } else { 1 };
            let hashes = s[i..].iter().take_while(|&&x| x == b'#').count();
            i += hashes + 1;
            let from = i;
            let close = [b"\"".to_vec(), vec![b'#'; hashes]].concat();
            while i < s.len() && !s[i..].starts_with(&close) {
                i += 1;
            }
            out.push(Tok::Str(s[from..i.min(s.len())].to_vec()));
            i += close.len();
        } else if c == b'\'' || (c == b'b' && at(i + 1) == b'\'') {
            let from = i + if c == b'b' { 2 } else { 1 };
            // a character, or a lifetime
            let end = if at(from) == b'\\' {
                s[from + 2..].iter().position(|&x| x == b'\'').map(|e| from + 2 + e)
            } else {
                let w = match at(from) {
                    0..=127 => 1,
                    128..=223 => 2,
                    224..=239 => 3,
                    _ => 4,
                };
                (at(from + w) == b'\'').then_some(from + w)
            };
            match end {
                Some(e) if e < from + 12 => {
                    out.push(Tok::Chr(unescape(&s[from..e])));
                    i = e + 1;
                }
                _ => i = from,
            }
        } else if c.is_ascii_digit() {
            let from = i;
            while i < s.len() && (s[i].is_ascii_alphanumeric() || s[i] == b'_') {
                i += 1;
            }
            let float = at(i) == b'.' && at(i + 1).is_ascii_digit();
            if float {
                i += 1;
                while i < s.len() && (s[i].is_ascii_alphanumeric() || s[i] == b'_') {
                    i += 1;
                }
            }
            let w: String = s[from..i].iter().map(|&b| b as char).filter(|&c| c != '_').collect();
            let plain = w.trim_end_matches("f64").trim_end_matches("f32");
            if let (true, Ok(x)) = (float || (!w.starts_with("0x") && plain.contains('e')), plain.parse::<f64>()) {
                if (2.0..1e12).contains(&x) {
                    out.push(Tok::Num(x as u128));
                }
            } else if !float {
                let (radix, digits) = match w.get(..2) {
                    Some("0x") => (16, &w[2..]),
                    Some("0b") => (2, &w[2..]),
                    Some("0o") => (8, &w[2..]),
                    _ => (10, &w[..]),
                };
                let end = digits.find(|c: char| !c.is_digit(radix)).unwrap_or(digits.len());
                if let Ok(v) = u128::from_str_radix(&digits[..end], radix) {
                    out.push(Tok::Num(v));
                }
            }
        } else if c.is_ascii_alphabetic() || c == b'_' {
            let from = i;
            while i < s.len() && (s[i].is_ascii_alphanumeric() || s[i] == b'_') {
                i += 1;
            }
            out.push(Tok::Word(String::from_utf8_lossy(&s[from..i]).to_string()));
        } else {
            if !c.is_ascii_whitespace() {
                out.push(Tok::Sym(c as char));
            }
            i += 1;
        }
    }
    out
}

/// removes items under #[test] and #[cfg(test)]
fn without_tests(t: Vec<Tok>) -> Vec<Tok> {
    let mut out = vec![];
    let mut i = 0;
    let sym = |i: usize, c: char| t.get(i) == Some(&Tok::Sym(c));
    let word = |i: usize, w: &str| matches!(t.get(i), Some(Tok::Word(x)) if x == w);
    let mut keep = vec![true; t.len()];
    while i < t.len() {
        let test = sym(i, '#') && sym(i + 1, '[') && ((word(i + 2, "test") && sym(i + 3, ']')) || (word(i + 2, "cfg") && sym(i + 3, '(') && word(i + 4, "test") && sym(i + 5, ')')));
        if !test {
            i += 1;
            continue;
        }
        let mut depth = 0;
        while i < t.len() {
            keep[i] = false;
            if sym(i, '{') {
                depth += 1;
            }
            if sym(i, '}') {
                depth -= 1;
            }
            let end = (depth == 0 && sym(i, '}')) || (depth == 0 && sym(i, ';'));
            i += 1;
            if end {
                break;
            }
        }
    }
    for (x, k) in t.into_iter().zip(keep) {
        if k {
            out.push(x);
        }
    }
    out
}

/// the values of a product or shift of numbers from a position on, factor by factor
fn products(t: &[Tok], i: usize) -> Vec<u128> {
    let num = |i: usize| match t.get(i) {
        Some(Tok::Num(v)) => Some(*v),
        _ => None,
    };
    let sym = |i: usize, c: char| t.get(i) == Some(&Tok::Sym(c));
    let mut out = vec![];
    let (mut x, mut j) = (num(i), i + 1);
    loop {
        if let (true, Some(w)) = (sym(j, '*'), num(j + 1)) {
            x = x.and_then(|x| x.checked_mul(w));
            j += 2;
        } else if let (true, true, Some(w)) = (sym(j, '<'), sym(j + 1, '<'), num(j + 2)) {
            x = x.and_then(|x| x.checked_mul(1 << w.min(100)));
            j += 3;
        } else {
            return out;
        }
        out.extend(x);
    }
}
/// replaces T::MAX and the names of constants by their values, and drops casts
fn resolve(t: Vec<Tok>) -> Vec<Tok> {
    let mut out: Vec<Tok> = vec![];
    let mut consts: std::collections::HashMap<String, u128> = Default::default();
    let mut i = 0;
    let word = |i: usize| match t.get(i) {
        Some(Tok::Word(w)) => w.as_str(),
        _ => "",
    };
    while i < t.len() {
        let max = match word(i) {
            "u8" => 255u128,
            "i8" => 127,
            "u16" => 65535,
            "i16" => 32767,
            "u32" => u32::MAX as u128,
            "i32" => i32::MAX as u128,
            _ => 0,
        };
        if max > 0 && t.get(i + 1) == Some(&Tok::Sym(':')) && t.get(i + 2) == Some(&Tok::Sym(':')) && word(i + 3) == "MAX" {
            out.push(Tok::Num(max));
            i += 4;
        } else if word(i) == "as" && !word(i + 1).is_empty() {
            i += 2;
        } else {
            out.push(match &t[i] {
                Tok::Num(v) => Tok::Num(*v),
                Tok::Str(v) => Tok::Str(v.clone()),
                Tok::Chr(v) => Tok::Chr(v.clone()),
                Tok::Word(v) => Tok::Word(v.clone()),
                Tok::Sym(v) => Tok::Sym(*v),
            });
            i += 1;
        }
    }
    // also a constant that is defined by another one
    for _ in 0..2 {
        for i in 0..out.len() {
            let Tok::Word(k) = &out[i] else { continue };
            if k != "const" && k != "static" && k != "let" {
                continue;
            }
            let Some(Tok::Word(name)) = out.get(i + 1) else { continue };
            if name == "mut" {
                continue;
            }
            let Some(e) = (i + 2..out.len().min(i + 12)).find(|&j| out[j] == Tok::Sym('=')) else { continue };
            let Some(Tok::Num(v)) = out.get(e + 1) else { continue };
            consts.insert(name.clone(), products(&out, e + 1).last().copied().unwrap_or(*v));
        }
        for x in out.iter_mut() {
            if let Tok::Word(w) = x {
                if let (true, Some(v)) = (w.len() > 1, consts.get(w)) {
                    *x = Tok::Num(*v);
                }
            }
        }
    }
    out
}

pub fn harvest(source: &[u8], tool: Option<&str>, d: &mut Dict) {
    let t = resolve(without_tests(lex(source)));
    let sym = |i: usize, c: char| t.get(i) == Some(&Tok::Sym(c));
    let mut i = 0;
    while i < t.len() {
        match &t[i] {
            Tok::Num(v) => {
                d.numbers.extend(usize::try_from(*v));
                d.numbers.extend(products(&t, i).into_iter().filter_map(|x| usize::try_from(x).ok()));
                match *v {
                    0..=255 => d.tokens.push(vec![*v as u8]),
                    256..=0xffff => d.tokens.extend([(*v as u16).to_be_bytes().to_vec(), (*v as u16).to_le_bytes().to_vec()]),
                    0x10000..=0xffff_ffff => d.tokens.extend([(*v as u32).to_be_bytes().to_vec(), (*v as u32).to_le_bytes().to_vec()]),
                    _ => {}
                }
            }
            Tok::Str(s) => {
                if let (1..=20, Ok(name)) = (s.len(), std::str::from_utf8(s)) {
                    if !name.contains(|x: char| "/{=[".contains(x) || x.is_whitespace() || x.is_control()) && name.trim_matches('.') != "" {
                        d.names.push((tool.map(|x| x.to_string()), name.to_string()));
                    }
                }
                if s.len() >= 3 && s.iter().all(|b| b.is_ascii_uppercase() || b.is_ascii_digit() || *b == b'_') && s[0].is_ascii_uppercase() {
                    d.envs.push(String::from_utf8_lossy(s).to_string());
                }
                if !s.is_empty() && s.len() <= 40 && !s.contains(&b'{') {
                    d.tokens.push(s.clone());
                }
            }
            Tok::Chr(s) => d.tokens.push(s.clone()),
            // a list of bytes
            Tok::Sym('[') => {
                let mut list = vec![];
                let mut j = i + 1;
                loop {
                    match t.get(j) {
                        Some(Tok::Num(v)) if *v < 256 => list.push(*v as u8),
                        Some(Tok::Chr(c)) if c.len() == 1 => list.push(c[0]),
                        _ => break,
                    }
                    j += 1;
                    if !sym(j, ',') {
                        break;
                    }
                    j += 1;
                }
                if list.len() >= 2 && list.len() <= 40 && sym(j, ']') {
                    d.tokens.push(list);
                }
            }
            _ => {}
        }
        i += 1;
    }
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict::default();
        let mut stack = vec![std::path::Path::new(crate::tool::REPO).join("src")];
        let mut files = vec![];
        while let Some(p) = stack.pop() {
            for e in std::fs::read_dir(&p).into_iter().flatten().flatten() {
                let q = e.path();
                if q.is_dir() {
                    stack.push(q);
                } else if q.extension().is_some_and(|x| x == "rs") {
                    files.push(q);
                }
            }
        }
        files.sort();
        for f in files {
            let tool = f.parent().and_then(|x| x.file_name()).filter(|x| *x == "bin").and_then(|_| f.file_stem()).and_then(|x| x.to_str());
            harvest(&std::fs::read(&f).unwrap_or_default(), tool, &mut d);
        }
        d.numbers.sort();
        d.numbers.dedup();
        d.tokens.sort();
        d.tokens.dedup();
        d.tokens.retain(|t| !t.is_empty());
        d.tokens.truncate(1000);
        d.envs.sort();
        d.envs.dedup();
        d.names.sort();
        d.names.dedup();
        d
    })
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn literals() {
        let mut d = Dict::default();
        harvest(
            br##"// 77
fn f<'a>(x: &'a str) { /* 78 */ if n > 64 * 1_024 || n == 1 << 5u32 { g(b"a\x00\n", '\'', b'\\', [0xEF, 0xbb, 191u8], r#"q"q"#, "MY_VAR", 1.5, "\u{e4}") } }
#[cfg(test)]
mod tests { fn x() { let y = "nope"; { 99; } } }
#[test]
fn t() { 98 }
fn g() { 12345 }
const BLOCK: usize = 3 * 1000; fn h() { let block = u8::MAX as usize * 2; if n > 2 * BLOCK * 7 || m > 1e6 { block } }
"##,
            None,
            &mut d,
        );
        d.numbers.sort();
        d.numbers.dedup();
        assert_eq!(d.numbers, [1, 2, 3, 5, 7, 32, 64, 187, 191, 239, 255, 510, 1000, 1024, 3000, 6000, 12345, 21000, 42000, 65536, 1000000]);
        for t in [&b"a\x00\n"[..], b"'", b"\\", b"\xef\xbb\xbf", b"q\"q", b"MY_VAR", &[0x30, 0x39], "\u{e4}".as_bytes()] {
            assert!(d.tokens.contains(&t.to_vec()), "{:?}", t);
        }
        assert!(!d.tokens.contains(&b"nope".to_vec()));
        assert_eq!(d.envs, ["MY_VAR"]);
    }
}
