#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            **({"state": state} if state else {}),
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    })

p("C01", "The BWT is the sorted-rotation last column and is invertible",
  "For every byte string without zero bytes, the Burrows-Wheeler transform computed by default (a terminating zero byte is appended) is the last column of the sorted rotations of the zero-terminated string, so the standard BWT inversion recovers the input exactly. Without the terminator (no-dollar mode, non-empty input), byte i of the output is the byte cyclically preceding the i-th smallest suffix of the text. This holds for the library and the command-line tool alike, for every length and all byte values 1 to 255.",
  ["inputs"], "all zero-free byte strings (any length, any bytes 1..255), with and without terminator, library and tool",
  "The only test counts BWT runs of seven Fibonacci words; no test compares a BWT with its definition or inverts one, and no test uses bytes >= 128, long texts or the tool.",
  ["src/core.rs", "src/bin/bwt.rs"],
  [("bwt_from_text_by_sa", "src/core.rs"), ("bwt_from_sa", "src/core.rs"), ("main", "src/bin/bwt.rs")],
  ["stdout of bwt", "return value of the text-to-BWT library function"])

p("C02", "Matrix BWT equals the sorted rotations for every length and rotation",
  "For every non-empty zero-free byte string, the matrix-based BWT is the last column of its sorted cyclic rotations, whichever algorithm is used for its length and however periodic the string is, and is therefore identical for all rotations of the string. With a terminating zero byte, the matrix mode of the tool outputs the same bytes as its default mode for every zero-free input. The naive library variant gives the last column for every non-empty sequence over any ordered symbols, zero bytes included.",
  ["inputs", "configurations"], "all zero-free byte strings, all rotations, both sides of the internal length switch; all symbol types for the naive variant; with/without terminator",
  "The test compares naive and fast variants on a few thousand fixed binary strings of at most 11 symbols; neither is compared with the definition and the tool's switch at 100 bytes is never crossed.",
  ["src/core.rs", "src/bin/bwt.rs", "src/bin/count_r.rs"],
  [("bwt_by_matrix", "src/core.rs"), ("bwt_by_matrix_naive", "src/core.rs"), ("lyndon_conjugate", "src/core.rs"), ("length switch", "src/bin/bwt.rs")],
  ["stdout of bwt --use-matrix", "return values of the matrix BWT library functions"])

p("C03", "The bijective BWT is a bijection and follows the omega order",
  "For every non-empty sequence over an ordered alphabet, the bijective BWT lists, for all rotations of all Lyndon factors of the sequence sorted by comparing their infinite repetitions, the symbol cyclically preceding each rotation. Consequently the output is a permutation of the input, the input can be recovered from the output alone, and distinct inputs of the same length have distinct outputs.",
  ["inputs"], "all non-empty sequences over any ordered symbol type",
  "There is no test of the bijective BWT at all.",
  ["src/core.rs"], [("bbwt_naive", "src/core.rs"), ("duval", "src/core.rs")],
  ["return value of the bijective BWT library function"])

p("C04", "Lyndon factorization is the unique non-increasing Lyndon sequence",
  "For every non-empty byte string the reported Lyndon factors concatenate to the text, every factor is a Lyndon word and consecutive factors are lexicographically non-increasing; the direct computation and the one from the inverse suffix array return the same ending positions. The command-line tool reports exactly this number of factors, and the factor file it writes lists the factors in order with their boundaries and exact bytes (only a last factor that is a single zero byte, following other factors, is left out). With RUST_LOG=debug it also lists all ending positions.",
  ["inputs"], "all non-empty byte strings, library (any ordered symbols) and tool",
  "The test only compares the two implementations with each other on fixed binary strings of at most 11 symbols; Lyndonness, ordering and the tool's report and factor file are untested.",
  ["src/core.rs", "src/bin/lyndonfactorization.rs"],
  [("duval", "src/core.rs"), ("isa_lyndon_factorization", "src/core.rs"), ("main", "src/bin/lyndonfactorization.rs")],
  ["return values", "RESULT line and output file of lyndonfactorization"])

p("C05", "Border table, smallest period and primitivity are exact",
  "For every non-empty sequence, the border table gives for each prefix the length of its longest proper border (zero if there is none), and the smallest period derived from it is the least p such that symbols at distance p always agree. The sequence is reported primitive exactly when it is not a repetition of a shorter sequence.",
  ["inputs"], "all non-empty sequences over any symbols with equality",
  "Tests only check that entries are borders and that the period is a period, not that they are the longest/smallest, on fixed binary strings of at most 11 symbols; primitivity is untested.",
  ["src/core.rs"], [("border_array", "src/core.rs"), ("smallest_period", "src/core.rs"), ("is_primitive", "src/core.rs")],
  ["return values of the library functions"])

p("C06", "Rotations: least rotation, rotation enumeration, necklace test",
  "For every non-empty sequence, the computed Lyndon-conjugate start is a valid index whose rotation is lexicographically least among all rotations, and iterating over the conjugates yields each of the n rotations once, in order of starting position. The necklace test looks only at the first n symbols it is given, accepts every string that is least among its rotations, and accepts nothing but prefixes of such strings.",
  ["inputs"], "all non-empty sequences (and all prefix lengths for the necklace test)",
  "The least-rotation test uses fixed binary strings of at most 11 symbols; the rotation iterator is untested; the necklace test has 12 hand-picked strings.",
  ["src/core.rs", "src/word.rs"], [("lyndon_conjugate", "src/core.rs"), ("ConjugateIterator", "src/core.rs"), ("is_necklace", "src/word.rs")],
  ["return values of the library functions"])

p("C07", "Suffix array, inverse, Phi, PLCP and LCP arrays agree with definition",
  "For every non-empty text, the naive suffix array is the sorted order of all suffixes, and from a suffix array the library derives the exact inverse permutation, the lexicographic-predecessor map (the smallest suffix mapping to the largest), the permuted and the suffix-array-ordered longest-common-prefix arrays (zero for the smallest suffix), and the BWT. These hold for all byte values, for periodic texts, and with or without a terminating zero byte.",
  ["inputs"], "all non-empty byte strings (any ordered symbols for the naive suffix array)",
  "No test checks any of these arrays directly; they are only exercised inside LZ77, attractor and MUS tests on fixed families of binary words.",
  ["src/core.rs"], [("suffixarray_naive", "src/core.rs"), ("inverse_permutation", "src/core.rs"), ("compute_phi", "src/core.rs"), ("compute_plcp", "src/core.rs"), ("compute_lcp", "src/core.rs"), ("bwt_from_sa", "src/core.rs")],
  ["return values of the library functions"])

p("C08", "Previous/next smaller value arrays are exact",
  "For every non-empty array of ordered values, duplicates included, the previous-smaller (next-smaller) entry at each index is the nearest index to the left (right) holding a strictly smaller value, or the dedicated invalid marker when none exists.",
  ["inputs"], "all non-empty arrays over ordered values",
  "No direct test; only used on suffix arrays (no duplicates) of short fixed binary strings inside the LZ77 test.",
  ["src/core.rs"], [("compute_psv", "src/core.rs"), ("compute_nsv", "src/core.rs")],
  ["return values of the library functions"])

p("C09", "LZ77 factorization is greedy-longest and decodes to the text",
  "For every non-empty byte string, the LZ77 tool's factors decode to exactly the input: a factor (byte,0) is the first occurrence of that byte, and a factor (distance,length) copies, possibly with self-overlap, from that distance back. Each copy factor is the longest prefix of the remaining text that also occurs starting at an earlier position, and the reported factor count equals the number of factors written, hence is minimal.",
  ["inputs"], "all non-empty byte strings (zero bytes included), any length",
  "The test only decodes factors of fixed binary strings of at most 11 symbols; greediness (hence the count z), larger alphabets, long factors and the tool's output are untested.",
  ["src/bin/count_z.rs", "src/core.rs"], [("compute_lz77", "src/bin/count_z.rs"), ("compute_psv/compute_nsv/compute_plcp", "src/core.rs")],
  ["RESULT line and factor file of count_z"])

p("C10", "Lex-parse factors follow lexicographic predecessors and are decodable",
  "For every non-empty byte string, with or without a terminating zero byte, the lex-parse tool covers the text from left to right by factors: at each factor start, if the longest common prefix with the lexicographically preceding suffix is non-empty the factor is that prefix, given by the predecessor's position and the length, and otherwise it is (byte,0). The factors never refer to each other in a cycle, so they decode to exactly the input, and the reported count equals the number of factors.",
  ["inputs"], "all non-empty byte strings (zero bytes included), any length",
  "There is no test of lex-parse.",
  ["src/bin/count_lexparse.rs", "src/bin/enumerate_lexparse.rs", "src/core.rs"], [("compute_lexparse", "src/bin/count_lexparse.rs"), ("compute_phi/compute_plcp", "src/core.rs")],
  ["RESULT line and factor file of count_lexparse"])

p("C11", "All minimal unique substrings are reported, and nothing else",
  "For every non-empty zero-free text (optionally followed by one zero byte serving as terminator, which is not part of the text), the MUS tool lists, in increasing order of position, exactly the (start,length) pairs of substrings that occur once in the text while every proper substring of them occurs at least twice.",
  ["inputs"], "all non-empty zero-free byte strings, with and without an explicit terminator",
  "The test covers 12 Fibonacci words that each have exactly two minimal unique substrings.",
  ["src/bin/mus.rs", "src/core.rs"], [("get_mus", "src/bin/mus.rs"), ("compute_lcp", "src/core.rs")],
  ["RESULT line of mus"])

p("C12", "String attractor verdicts are correct and witnessed",
  "For every non-empty zero-free text and every set of in-range positions, the attractor tool answers 'valid attractor' with success status exactly when every distinct substring of the text has an occurrence that contains one of the positions. Otherwise it answers 'not a valid attractor' with status 2 and names at least one substring, and every substring it names occurs in the text but has no occurrence containing a listed position.",
  ["inputs"], "all non-empty zero-free byte strings x all position sets within the text",
  "Tests only confirm true attractors of Fibonacci and period-doubling words; a checker that always says 'valid' would pass.",
  ["src/bin/is_stringattractor.rs", "src/core.rs"], [("lcp_intervals", "src/bin/is_stringattractor.rs"), ("is_attractor", "src/bin/is_stringattractor.rs")],
  ["stdout and exit status of is_stringattractor"])

p("C13", "Empirical entropies match the definition and each other",
  "The entropy tools report, up to floating-point rounding, the k-th order empirical entropy of the input followed by one zero byte: (1/n) times the sum over all length-k contexts of the zeroth-order entropy mass of the bytes following the context, for k=0 on every input and for every k>=1 on zero-free inputs. For k from 1 to 7 (texts of at least k bytes) the suffix-array-based and the k-mer-based tool report the same value and the same length.",
  ["inputs", "configurations"], "all byte strings (zero-free for k>=1) x all orders k (1..7 for the k-mer tool)",
  "Tests use unary and alternating strings with closed formulas for a handful of lengths.",
  ["src/bin/entropy.rs", "src/bin/entropy_kmer.rs"], [("zero_order_entropy / kth_order_entropy", "src/bin/entropy.rs"), ("entropy_via_kmer_counting", "src/bin/entropy_kmer.rs")],
  ["RESULT lines of entropy and entropy_kmer"])

p("C14", "Run counts, alphabet size and BWT run counts are exact",
  "For every byte string, the run counter reports the number of maximal runs of equal bytes (zero for empty input) and the alphabet counter the number of distinct byte values, up to all 256. For every non-empty zero-free input and every combination of matrix and no-dollar modes, the BWT-run tool reports exactly the number of runs and the length of the transform that the BWT tool outputs in the same mode.",
  ["inputs", "configurations"], "all byte strings; all mode combinations of the BWT-run tool",
  "Tests cover four strings of at most three letters for the alphabet size and two-run Fibonacci words for BWT runs.",
  ["src/core.rs", "src/bin/count_runs.rs", "src/bin/count_sigma.rs", "src/bin/count_r.rs"],
  [("number_of_runs", "src/core.rs"), ("count_sigma", "src/bin/count_sigma.rs"), ("main", "src/bin/count_r.rs")],
  ["stdout of count_runs, count_sigma, count_r"])

p("C15", "Run-length encoding is lossless for all run lengths",
  "For every byte string, expanding the (byte, repetitions minus one) pairs of the binary run-length encoding reproduces the input exactly, and neighbouring pairs carry the same byte only when the first one is full (256 repetitions). The human-readable form lists every maximal run with its character and true length. In zero-only mode only runs of the character '0' are replaced, by '0' followed by the repetition count minus one as a byte (long runs in several such pairs), all other bytes are copied, and the input can be recovered exactly.",
  ["inputs", "configurations"], "all byte strings, all run lengths, the three output modes",
  "The run-length encoder has no tests.",
  ["src/bin/rle.rs"], [("rle", "src/bin/rle.rs"), ("rle_text", "src/bin/rle.rs"), ("rle_zero", "src/bin/rle.rs")],
  ["stdout / output file of rle"])

p("C16", "Move-to-front encoding is exact and invertible for all bytes",
  "For every byte string, the move-to-front tool outputs one byte per input byte: its current index in a list that initially holds all 256 byte values in increasing order and from which the byte is then moved to the front. Hence decoding with the same list recovers the input exactly, whatever byte values occur.",
  ["inputs"], "all byte strings over all 256 byte values",
  "The test encodes five strings over the letters a and b.",
  ["src/bin/mtf.rs"], [("mtf", "src/bin/mtf.rs")], ["stdout / output file of mtf"])

p("C17", "Escaping removes the forbidden bytes and is reversible",
  "For every byte string and every valid configuration (an escape byte, a list of forbidden bytes and an equally long list of distinct safe bytes, all disjoint), the escaped output contains none of the forbidden bytes, and un-escaping it with the same configuration returns the input exactly; bytes other than the escape byte and the forbidden ones are passed through unchanged; lists may be given comma-separated or by repeated options, and without a prefix limit the whole input is processed. Un-escaping a text that no escaping yields (the escape byte at the end, or before a byte that is neither itself nor one of the safe bytes) ends with a failure status.",
  ["inputs", "configurations"], "all byte strings x all valid escape configurations",
  "The escape tool has no tests.",
  ["src/bin/escape.rs", "README.md"], [("main", "src/bin/escape.rs")], ["stdout / output file of escape"])

p("C18", "Results depend only on the bytes, not on channel or prefix mechanics",
  "Every tool that reads a text gives the same results (entropies up to floating-point rounding) whether the bytes come from a named regular file, a named pipe, or standard input in arbitrary chunks, and tools with an output-file option write to that file exactly the bytes they would print. Where a prefix length p is offered, the result equals that for the first p bytes of the input, p=0 and p larger than the input meaning the whole input (a prefix that cuts an escaped pair cannot be un-escaped).",
  ["inputs", "configurations"], "all tools x all inputs x all channels, chunkings of reads and writes, and prefix lengths",
  "No test runs a tool; reading, prefix and writing code is never executed by the suite.",
  ["src/io.rs", "src/bin"], [("file2byte_vector", "src/io.rs"), ("stdin2byte_vector", "src/io.rs"), ("stream_or_stdin / stream_or_stdout", "src/io.rs"), ("read_char", "src/io.rs")],
  ["stdout, output files of all tools"])

p("C19", "Reverse is exact byte-wise reversal",
  "For every byte string, whatever its encoding or size, the reverse tool outputs exactly the input bytes in opposite order and nothing else, so applying it twice restores the input; with a prefix length p it outputs the reversal of the first p bytes.",
  ["inputs"], "all byte strings, all prefix lengths",
  "The reverse tool has no tests.",
  ["src/bin/reverse.rs", "src/io.rs"], [("main", "src/bin/reverse.rs")], ["stdout / output file of reverse"])

p("C20", "Morphic word generators obey their defining recurrences",
  "For every order k that fits in memory, the Fibonacci, Tribonacci and VTM words are the k-th iterates of their morphisms (a->ab,b->a; a->ab,b->ac,c->a; a->abc,b->ac,c->b) on a, the k-th Fibonacci Lyndon factor is the k-th iterate of a->aab,b->ab on ab and is the k-th Lyndon factor of the infinite Fibonacci word, and the k-th Kolakoski word starts with bb, alternates run symbols and has the (k-1)-st word (a=1,b=2) as its sequence of run lengths. Fibonacci and Tribonacci words have exactly the lengths given by the corresponding number functions, which satisfy their recurrences as long as values fit the machine word. Library and word tool agree.",
  ["inputs"], "all orders k for each generator",
  "Tests list the first few words literally (k<=6) and check lengths for k<16 and Kolakoski prefixes of at most 109 symbols.",
  ["src/word.rs", "src/bin/word.rs"], [("fibonacci_word / fibonacci_number", "src/word.rs"), ("tribonacci_word / tribonacci_number", "src/word.rs"), ("vtm_word", "src/word.rs"), ("fibonacci_lyndonfactor", "src/word.rs"), ("kolakoski_word", "src/word.rs")],
  ["return values", "stdout of word"])

p("C21", "Automatic-sequence generators match their closed formulas",
  "For every order k that fits in memory, symbol i of the 2^k-long Thue-Morse word is given by the parity of ones in the binary form of i (from 0), of the period-doubling word by the parity of the exponent of two in i (from 1), of the 2^(k+1)-long paper-folding word by the residue mod 4 of the odd part of i (from 1), and of the power-of-two sequence by whether i (from 1) is a power of two. The quaternary paper-folding word encodes consecutive pairs of the paper-folding word as letters, and library and word tool agree.",
  ["inputs"], "all orders k for each generator, all positions",
  "Tests list the first few words literally; the power-of-two sequence has no test.",
  ["src/word.rs", "src/bin/word.rs"], [("thuemorse_word", "src/word.rs"), ("period_doubling_word", "src/word.rs"), ("paperfolding_word / quaternary_paperfolding_word", "src/word.rs"), ("power2_sequence", "src/word.rs")],
  ["return values", "stdout of word"])

p("C22", "Binary de Bruijn words are complete",
  "For every k, the binary de Bruijn word has exactly 2^(k+1) symbols over a and b, and read cyclically contains each of the 2^(k+1) binary strings of length k+1 exactly once. Library and word tool agree.",
  ["inputs"], "all orders k",
  "The test only checks that windows do not repeat for k=2..9; a word that stops too early (missing most windows) passes.",
  ["src/word.rs", "src/bin/word.rs"], [("binary_debruijn_word", "src/word.rs"), ("is_necklace", "src/word.rs")],
  ["return value", "stdout of word -n binary-de-brujin"])

p("C23", "Enumerators list every object exactly once in order",
  "The Lyndon word generator and tool produce exactly the Lyndon words of length at most n over s letters (n and s at least one; the tool's letters are meaningful for s up to 26), each once and in lexicographic order, then stop; the string enumeration tool prints exactly all strings of each requested length over the first letters, by increasing length and in lexicographic order; the binary string generator yields exactly the 2^n binary strings of length n in lexicographic order and then stops; the k-mer generator tool prints each of its 4^8 strings exactly once. The library's generators deliver the same items whatever methods of an iterator are used (next, nth, skip, step_by, last, count), and several of them may be used in turn.",
  ["inputs"], "all alphabet sizes and lengths",
  "None of the enumerators has a test.",
  ["src/core.rs", "src/bin/lyndonwords.rs", "src/bin/enumerate.rs", "src/bin/generator_kmer.rs"],
  [("LyndonWordGenerator", "src/core.rs"), ("BinaryStringGenerator", "src/core.rs"), ("enumerate_for_length", "src/bin/enumerate.rs")],
  ["iterator items", "stdout of lyndonwords, enumerate, generator_kmer"])

p("C24", "Random strings respect length and alphabet bound on every draw",
  "On every run the random string tool outputs exactly the requested number of characters, all ASCII letters or digits, with at most the requested number of distinct characters (no bound when zero is given). They are random: a long output uses as many distinct characters as it may, each about equally often, does not repeat itself, and two runs differ.",
  ["inputs", "configurations"], "all lengths x alphabet sizes x random draws",
  "The tool has no tests, and its output is random.",
  ["src/bin/randomstring.rs"], [("main", "src/bin/randomstring.rs")], ["stdout / output file of randomstring"])

p("C25", "Input and output failures are never reported as success",
  "If a tool cannot read all of its input (missing file, unreadable input, or a read error after any number of bytes) or cannot write all of its output (an error after any number of bytes, to standard output or to an output file), it ends with a failure status; a tool that ends with success has processed the whole input and delivered the whole output.",
  ["fault_sequences", "inputs"], "all tools x inputs x read/write fault positions",
  "No test injects an I/O fault or runs a tool.",
  ["src/io.rs", "src/bin"], [("read_char", "src/io.rs"), ("stream_or_stdout", "src/io.rs"), ("write_all/flush calls", "src/bin")],
  ["exit status, stdout and output files of all tools"])

p("C26", "Requests outside the supported domain are refused, not answered",
  "Suffix-array-based BWT, BWT-run and higher-order entropy requests refuse texts with a zero byte anywhere a correct result needs it absent; invalid escape configurations (unequal lists, escape byte among the lists, overlapping lists), attractor positions beyond the text, zero or more than 26 letters, zero minimum length or a maximum below the minimum in string enumeration, k-mer entropy orders outside 1..7, and word orders whose word is longer than any memory are refused. A refusal means a failure status and no result on standard output.",
  ["inputs", "configurations"], "all invalid inputs and configurations of the listed kinds",
  "No test runs a tool or passes an invalid input.",
  ["src/core.rs", "src/bin/escape.rs", "src/bin/is_stringattractor.rs", "src/bin/enumerate.rs", "src/bin/entropy_kmer.rs", "src/bin/entropy.rs", "README.md"],
  [("zero-byte assertions", "src/core.rs, src/bin/entropy.rs"), ("sanity checks", "src/bin/escape.rs"), ("argument validation", "src/bin/enumerate.rs, src/bin/is_stringattractor.rs, src/bin/entropy_kmer.rs"), ("lengths of words", "src/word.rs")],
  ["exit status and stdout of the tools"])

p("C27", "Any pipeline of the lossless transforms is lossless end to end",
  "For every byte string and every sequence of the transforms reverse, move-to-front, run-length encoding (binary or zero-only), escaping, and BWT (applied where its input is zero-free, e.g. after escaping zero bytes), feeding each tool's output to the next and then inverting the stages in reverse order returns the original bytes. In particular escaping zero bytes makes every input acceptable to the BWT-based tools.",
  ["inputs", "programs", "histories"], "all byte strings x all sequences of transforms",
  "No test runs a tool, let alone chains two.",
  ["src/bin/reverse.rs", "src/bin/mtf.rs", "src/bin/rle.rs", "src/bin/escape.rs", "src/bin/bwt.rs", "README.md"],
  [("main of each transform", "src/bin")], ["stdout of chained tools"])

p("C28", "Analytic tools print one well-formed RESULT line about the whole input",
  "For every accepted input, each analytic tool (Lyndon factorization, LZ77, lex-parse, MUS, alphabet size, BWT runs, both entropies) prints exactly one line, which starts with RESULT and consists of blank-separated key=value fields with unique keys (only the bracketed MUS list contains blanks itself), among them the elapsed time, the statistic, the length and the input file name ('none' for standard input; a name with blanks or line breaks is printed as it is). The length field is the number of bytes analysed: the number of input bytes (after applying a prefix limit), plus one for tools that append a terminator to the text they measure (BWT runs without no-dollar mode, and both entropies).",
  ["inputs", "configurations"], "all analytic tools x accepted inputs x prefix/file options",
  "No test runs a tool; README promises compatibility with sqlplot, which reads these lines.",
  ["src/bin", "README.md"], [("println of RESULT lines", "src/bin/*.rs")], ["stdout of the analytic tools"])

p("C29", "Exported morphisms generate the words",
  "The exported morphisms map the letters as documented (Fibonacci a->ab, b->a; Tribonacci a->ab, b->ac, c->a; VTM a->abc, b->ac, c->b; Fibonacci Lyndon factor a->aab, b->ab; Thue-Morse a->ab, b->ba), and for every order k that fits in memory the image of the k-th word under its morphism is exactly the (k+1)-st word.",
  ["inputs"], "all letters, all orders k of the five words",
  "The morphism functions are only used indirectly by tests of the first few words; the Thue-Morse morphism is not used by anything.",
  ["src/word.rs"], [("fibonacci_morphism / tribonacci_morphism / vtm_morphism / fibonacci_lyndonfactor_morphism / thuemorse_morphism", "src/word.rs")],
  ["return values"])

p("C30", "Library readers and writers move every byte exactly once",
  "For every reader, however it chunks its data or is interrupted, reading characters one by one delivers its bytes exactly once and in order and then reports the end again and again; an error of the reader is reported as that error (read_char) or by a panic (next_char, run counting), never as the end. Reading a file into memory yields its first p bytes (all for p=0 or p beyond its length), successive reads of the standard input, through whichever functions of the library, continue where the one before ended, a named input stream delivers exactly the bytes of the file, a named output stream replaces the file by exactly the bytes written, and files that cannot be opened or read are never answered by data.",
  ["inputs", "fault_sequences", "histories"], "all byte strings x all chunkings, interrupts and errors of a reader x all prefix lengths x read and write sizes",
  "No test touches the io module.",
  ["src/io.rs", "src/core.rs"], [("read_char / next_char", "src/io.rs"), ("file2byte_vector / file_or_stdin2byte_vector", "src/io.rs"), ("stream_or_stdin / stream_or_stdout", "src/io.rs"), ("number_of_runs", "src/core.rs")],
  ["return values, panics, files"])

p("C31", "Bit sizes and the terminated test texts are well-formed",
  "bit_size(i) is the number of binary digits of i for every machine word (0 for 0). For every range of numbers and every alphabet exponent e from 1 to 7, the text generator used for testing stops after finitely many texts (at most as many as there are numbers below the end of the range), and each of its texts consists of letters from 1 to 2^e followed by a single terminating zero byte.",
  ["inputs"], "all machine words; all ranges and alphabet exponents 1..7",
  "Tests consume the generated texts without checking them; bit_size has no test.",
  ["src/core.rs"], [("bit_size", "src/core.rs"), ("RandomStringGenerator", "src/core.rs")],
  ["return values"])

p("C32", "Results are a function of the request alone",
  "Every tool gives the same result (output, output file, exit status; entropies up to floating-point rounding, the random generator up to its draws) when it is run again, with logging switched on at any level, in the development or the release build, under another locale, environment, working directory, program name, date or number of processors, with its standard streams being terminals or not, and with a usable or unusable standard error. A file whose bytes were changed between two runs is answered by its present bytes, even if its length and time of modification are the same. An input file given by name is the only input: what standard input holds makes no difference; the order of options, their long names and a prefix limit equal to the text length do not matter either. Within one process, a library call gives the same result whatever was called before it or is called in other threads at the same time.",
  ["inputs", "configurations", "histories"], "all tools x all inputs x log levels, builds, environments, option spellings; all sequences of library calls, in one thread or several",
  "No test runs a tool; the tests run in one build with logging off, so code that is active at a log level or in one build only is never executed.",
  ["src/bin", "src/core.rs", "src/io.rs", "src/word.rs"], [("logging and debug assertions", "src/bin/*.rs, src/core.rs"), ("argument parsing", "src/bin/*.rs")],
  ["stdout, output file and exit status of all tools"])

p("C33", "The scripts report and create what the tools compute",
  "compute_stats.sh, called with a readable file of at least six bytes without zero bytes, prints a header and one table row whose columns, in the order of the header, are the file's base name, its length in bytes, and exactly the alphabet size, the number of LZ77 factors, the number of runs of the BWT (with terminator) and the entropies of orders 0 to 4 that count_sigma, count_z, count_r and entropy report for it. gen_artificial.sh, called with a folder (existing or not), writes for each of its ten word generators and each order 0 to 20 the file <generator>.<two-digit order> with exactly that word, and nothing else, replacing older files of these names; if a file cannot be written it ends with a failure status. Called with a wrong number of arguments or an unusable path (missing, a folder for compute_stats.sh, a file for gen_artificial.sh), both end with a failure status, print nothing on standard output and leave existing files alone.",
  ["inputs", "configurations"], "all files without zero bytes; all uses of the two scripts",
  "The tests cover neither the scripts nor the options and output lines of the tools that the scripts depend on.",
  ["compute_stats.sh", "gen_artificial.sh", "src/bin"], [("whole script", "compute_stats.sh"), ("whole script", "gen_artificial.sh")],
  ["standard output and status of the scripts", "the files created"])

p("C34", "Texts with zero bytes can be analysed after escaping",
  "The documented remedy for zero bytes works for every byte string: piping it through `escape -f 0 -t 255 -e 254` (or through any valid configuration that replaces the zero byte and has another escape byte) into a transform or an analytic tool ends with success and gives exactly the result the tool gives for the escaped text as a file; count_r and entropy report the values of the escaped text with terminator, and inverting the transform by bwt and un-escaping the outcome restores the original bytes.",
  ["inputs", "configurations"], "all byte strings x all valid escaping configurations x all tools",
  "The tests neither run escape nor connect two tools by a pipe.",
  ["README.md", "src/bin"], [("main", "src/bin/escape.rs"), ("main", "src/bin/count_r.rs"), ("main", "src/bin/bwt.rs")],
  ["exit status and output of the pipeline"])

p("C35", "Measures of the same text agree with each other",
  "The results of different tools, and of one tool on related texts, satisfy the known relations. The end (or starting) positions of LZ77 factors and of lex-parse factors, and the text positions of the heads (or tails) of the BWT runs, are accepted by is_stringattractor; a set that misses a minimal unique substring reported by mus is rejected; adding positions, renaming letters or reversing keeps a verdict. sigma <= z, sigma+1 <= r, v <= 2r (with terminator), z <= twice the runs, H_0 <= log2(sigma+1), and entropies do not increase with the order. Reversal keeps sigma, runs and H_0 and mirrors the minimal unique substrings; renaming letters keeps sigma, runs, z, entropies and minimal unique substrings; an order-preserving renaming also keeps r, v and the number of Lyndon factors; rotations and powers of a text have the same number of runs in the rotation BWT; z grows by at most one with an appended letter or a repetition, and is subadditive and monotone over prefixes; a least letter adds one Lyndon factor when appended and leaves one when prepended.",
  ["inputs"], "all texts without zero bytes x all relations",
  "No test compares two tools or two related texts; each relation ranges over all texts.",
  ["src/bin", "src/core.rs"], [("main", "src/bin/count_z.rs"), ("main", "src/bin/count_lexparse.rs"), ("main", "src/bin/count_r.rs"), ("main", "src/bin/is_stringattractor.rs"), ("main", "src/bin/mus.rs"), ("main", "src/bin/entropy.rs")],
  ["RESULT lines, factor files, transformed texts, exit status"])

p("C36", "Senseless command lines are refused, all spellings of a request equivalent",
  "A tool never answers a command line it does not understand: a numeric option or argument whose value is not a decimal number or exceeds the range of the option (byte values and word orders: 255; everything else: 2^64-1), be it empty, negative, fractional, with a suffix, a base prefix or separators; an unknown option; a positional argument nobody reads; an option without its value; a value given to a flag; a name of an option that is cut or written otherwise; a missing required argument; an unknown word name. Each of these ends with a failure status, prints nothing on standard output, and neither creates nor changes the output file named on the same command line. Conversely, a valid value means the same in every spelling (-p 3, -p3, -p=3, --prefixlength 3, --prefixlength=3, with leading zeros; flags joined or apart and in any order; list options repeated), and --help and --version succeed, help naming every option. (The tools generator_kmer and enumerate_lexparse take no arguments.)",
  ["configurations", "inputs"], "all malformed command lines of the listed kinds x all tools; all values x all spellings",
  "No test runs a tool or parses an argument.",
  ["src/bin", "README.md"], [("struct Args", "src/bin/*.rs"), ("argument definitions of main", "src/bin/enumerate.rs")],
  ["exit status, stdout and output files of the tools"])

p("C37", "Tools write where they are told, and nothing else",
  "With -o, the result arrives unabridged in whatever the name stands for - a new file, an older file of any length and mode, a file with several names, a symbolic link or a chain of links (to a file that exists or not), a named pipe, a link to standard output, a path through linked folders, a name relative to the working directory - which is written in place: links stay links, and every other name of the file shows the result. No tool changes, touches, removes or leaves behind any other file: not its input, nor files next to input or output or in the working, home or temporary directory. Hence tools that run at the same time in one folder, on different inputs and outputs, give the results they give alone.",
  ["configurations", "inputs", "schedules"], "all tools x all kinds of destinations x inputs; groups of tools running together",
  "No test runs a tool.",
  ["src/io.rs", "src/bin"], [("stream_or_stdout", "src/io.rs"), ("main", "src/bin/*.rs")],
  ["output files and standard output of the tools, contents of the folders around them"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
