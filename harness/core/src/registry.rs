//! All properties with their sub-checks.
use crate::frame::*;
use crate::{cli, cli2, cli3, cli4, cli5, cli6, cli7, cli8};

const TEXTS: &str = "A case is a text (bytes) plus parameters: enumerated completely over small alphabets and lengths, \
drawn from structured generators (runs, powers, LZ copies, morphic words, Lyndon sequences, uniform; 1 to 256 symbols, all byte values) \
or expanded to long texts and to every length of a range. ";

struct Row {
    id: &'static str,
    rule: &'static str,
    bins: &'static [&'static str],
    /// more random tool cases in the quick tier
    scale: u64,
}
const fn row(id: &'static str, scale: u64, bins: &'static [&'static str], rule: &'static str) -> Row {
    Row { id, rule, bins, scale }
}
const ROWS: [Row; 37] = [
    row("C01", 4, &["bwt"], "Non-trivial: at least two bytes and two distinct values."),
    row("C02", 3, &["bwt"], "Non-trivial: at least two symbols and two distinct values."),
    row("C03", 1, &[], "Non-trivial: at least two Lyndon factors and two distinct values."),
    row("C04", 4, &["lyndonfactorization"], "Non-trivial: at least two factors, not all of length one."),
    row("C05", 1, &[], "Non-trivial: the text has a non-empty border."),
    row("C06", 1, &[], "Non-trivial: at least two symbols and two distinct values."),
    row("C07", 1, &[], "Non-trivial: some LCP value is positive."),
    row("C08", 1, &[], "Non-trivial: at least three entries and two distinct values."),
    row("C09", 4, &["count_z"], "Non-trivial: the factorization has a copy factor."),
    row("C10", 4, &["count_lexparse", "enumerate_lexparse"], "Non-trivial: the parse has a copy factor."),
    row("C11", 4, &["mus"], "Non-trivial: a minimal unique substring is longer than one byte."),
    row("C12", 4, &["is_stringattractor"], "Non-trivial: at least two distinct values in the text and a non-empty position set."),
    row("C13", 4, &["entropy", "entropy_kmer"], "Non-trivial: the entropy is positive."),
    row("C14", 3, &["bwt", "count_r", "count_runs", "count_sigma"], "Non-trivial: at least two runs."),
    row("C15", 3, &["rle"], "Non-trivial: a run of at least two bytes."),
    row("C16", 4, &["mtf"], "Non-trivial: at least two distinct byte values."),
    row("C17", 4, &["escape"], "Non-trivial: the text contains the escape byte or a forbidden byte."),
    row("C18", 3, &["bwt", "escape", "reverse", "mtf", "rle", "count_z", "count_lexparse", "lyndonfactorization", "count_r", "count_runs", "count_sigma", "entropy", "entropy_kmer", "mus", "is_stringattractor", "word", "lyndonwords", "enumerate", "generator_kmer", "randomstring"],
        "A case is a tool, a text, a prefix length, a channel and chunk sizes. Non-trivial: at least two bytes."),
    row("C19", 3, &["reverse"], "Non-trivial: at least two bytes and two distinct values."),
    row("C20", 1, &["word"], "A case is a generator and an order. Non-trivial: order at least two."),
    row("C21", 1, &["word"], "A case is a generator and an order. Non-trivial: order at least two."),
    row("C22", 1, &["word"], "A case is an order. Non-trivial: order at least two."),
    row("C23", 1, &["lyndonwords", "enumerate", "generator_kmer"], "A case is a parameter tuple of an enumerator. Non-trivial: at least two objects are enumerated."),
    row("C24", 8, &["randomstring"], "A case is a length, an alphabet bound and an output mode; every run draws anew. Non-trivial: the length exceeds a positive bound."),
    row("C25", 3, &["bwt", "escape", "reverse", "mtf", "rle", "count_z", "count_lexparse", "lyndonfactorization", "count_r", "count_runs", "count_sigma", "entropy", "entropy_kmer", "mus", "is_stringattractor", "word", "lyndonwords", "enumerate", "generator_kmer", "randomstring"],
        "A case is a tool, a text, a fault kind and the byte position at which it hits. Non-trivial: the fault was met by the tool."),
    row("C26", 6, &["bwt", "count_r", "entropy", "entropy_kmer", "escape", "is_stringattractor", "enumerate", "word"],
        "A case is an invalid request. Non-trivial: all of them (texts with zero bytes: at least two bytes)."),
    row("C27", 10, &["reverse", "mtf", "rle", "escape", "bwt"], "A case is a text and a sequence of transforms. Non-trivial: at least two bytes and two stages."),
    row("C28", 6, &["lyndonfactorization", "count_z", "count_lexparse", "mus", "count_sigma", "count_r", "entropy", "entropy_kmer"],
        "A case is a tool, a text, a prefix length and a channel. Non-trivial: at least two bytes analysed."),
    row("C29", 1, &[], "A case is a word and an order. Non-trivial: order at least two."),
    row("C30", 1, &[], "A case is a text, chunk sizes of a reader, an error kind and a prefix length. Non-trivial: at least two bytes."),
    row("C31", 1, &[], "A case is a number, or a range with an alphabet exponent. Non-trivial: the number is at least two; a text has at least two letters."),
    row("C32", 2, &["bwt", "escape", "reverse", "mtf", "rle", "count_z", "count_lexparse", "lyndonfactorization", "count_r", "count_runs", "count_sigma", "entropy", "entropy_kmer", "mus", "is_stringattractor", "word", "lyndonwords", "enumerate", "generator_kmer", "randomstring"],
        "A case is a tool, a text, a variation of the circumstances and a mode, or a text and a history of library calls. Non-trivial: at least two bytes or a tool without input; a history of at least two calls."),
    row("C33", 1, &["count_sigma", "count_r", "count_z", "entropy", "word"], "A case is a script, its argument, and for the statistics a text. Non-trivial: at least two distinct values in the text."),
    row("C34", 1, &["bwt", "escape", "reverse", "mtf", "rle", "count_z", "count_lexparse", "lyndonfactorization", "count_r", "count_runs", "count_sigma", "entropy", "entropy_kmer", "mus", "is_stringattractor"],
        "A case is a text, an escaping configuration and a tool. Non-trivial: the text contains a zero byte."),
    row("C35", 2, &["bwt", "reverse", "count_z", "count_lexparse", "lyndonfactorization", "count_r", "count_runs", "count_sigma", "entropy", "entropy_kmer", "mus", "is_stringattractor"],
        "Non-trivial: at least two distinct values in the text."),
    row("C36", 1, &["bwt", "escape", "reverse", "mtf", "rle", "count_z", "count_lexparse", "lyndonfactorization", "count_r", "count_runs", "count_sigma", "entropy", "entropy_kmer", "mus", "is_stringattractor", "word", "lyndonwords", "enumerate", "randomstring"],
        "A case is a tool, an option, a value (or a structure of the command line), its spelling, and a text. Non-trivial: all malformed command lines; a spelling: a text of at least two bytes."),
    row("C37", 1, &["bwt", "escape", "reverse", "mtf", "rle", "count_z", "count_lexparse", "lyndonfactorization", "count_r", "count_runs", "count_sigma", "entropy", "entropy_kmer", "mus", "is_stringattractor", "word", "lyndonwords", "enumerate", "generator_kmer", "randomstring"],
        "A case is a tool, a text and a destination, or a group of tools running together. Non-trivial: all of them."),
];

fn tool_subs(id: &str, t: Tier) -> Vec<Sub> {
    match id {
        "C01" => cli::c01(t),
        "C02" => cli::c02(t),
        "C04" => cli::c04(t),
        "C09" => cli::c09(t),
        "C10" => cli::c10(t),
        "C11" => cli::c11(t),
        "C12" => cli::c12(t),
        "C13" => cli::c13(t),
        "C14" => cli::c14(t),
        "C15" => cli::c15(t),
        "C16" => cli::c16(t),
        "C17" => cli::c17(t),
        "C18" => cli3::c18(t),
        "C19" => cli::c19(t),
        "C20" => cli2::c20(t),
        "C21" => cli2::c21(t),
        "C22" => cli2::c22(t),
        "C23" => cli2::c23(t),
        "C24" => cli2::c24(t),
        "C25" => cli3::c25(t),
        "C26" => cli2::c26(t),
        "C27" => cli2::c27(t),
        "C28" => cli2::c28(t),
        "C32" => cli3::c32(t),
        "C33" => cli4::c33(t),
        "C34" => cli5::c34(t),
        "C35" => cli5::c35(t),
        "C36" => cli6::c36(t),
        "C37" => cli7::c37(t),
        _ => vec![],
    }
}

/// `lib` yields the checks that call the library; a property without any check is left out
pub fn registry(t: Tier, lib: &dyn Fn(&str, Tier) -> Vec<Sub>) -> Vec<Prop> {
    let mut out = vec![];
    for r in &ROWS {
        let mut subs = lib(r.id, t);
        subs.extend(tool_subs(r.id, t).into_iter().map(|mut s| {
            if let (Source::Gen { n, .. }, Tier::Quick) = (&mut s.source, t) {
                *n *= r.scale;
            }
            s
        }));
        subs.extend(match r.id {
            "C13" => cli8::sub_huge(t, &[10, 11]),
            "C14" => cli8::sub_huge(t, &[3, 9]),
            "C15" => cli8::sub_huge(t, &[0, 1, 2]),
            "C16" => cli8::sub_huge(t, &[6]),
            "C17" => cli8::sub_huge(t, &[7, 8]),
            "C19" => cli8::sub_huge(t, &[4, 5]),
            _ => vec![],
        });
        if subs.is_empty() {
            continue;
        }
        let own = r.rule.starts_with("A case is");
        let rule: &'static str = Box::leak(format!("{}{}", if own { "" } else { TEXTS }, r.rule).into_boxed_str());
        let mut assumptions = vec!["the references in the harness (oracle.rs, words.rs) are right; they are cross-checked against naive definitions in its unit tests"];
        if !r.bins.is_empty() {
            assumptions.push("the tools are built by cargo from the working tree in the dev profile (optimised, with overflow checks and debug assertions) and in the release profile; a quarter of the cases uses the release build");
        }
        out.push(Prop {
            id: r.id,
            level: if r.id == "C25" { "fault_enumeration" } else { "exploration" },
            rule,
            assumptions,
            bins: r.bins.to_vec(),
            release_too: !r.bins.is_empty(),
            subs,
        });
    }
    out
}
