SEEDS = [
dict(id="C36-saturating-order", property="C36",
  needs="an order above 255",
  what_it_breaks="word answers orders above 255 with the word of order 255 or of the order modulo 256",
  edits=[("src/bin/word.rs", "    #[arg(short)]\n    k: u8,\n", "    #[arg(short, value_parser = parse_order)]\n    k: u8,\n"),
         ("src/bin/word.rs", "#[derive(clap::ValueEnum, Clone, Debug)]\n", """/// names the number if it cannot be read
fn parse_order(s: &str) -> Result<u8, String> {
    s.parse::<u64>()
        .map(|k| k as u8)
        .map_err(|e| format!("{} is not an order: {}", s, e))
}

#[derive(clap::ValueEnum, Clone, Debug)]
""")],
  demo='''
build("word")
for k in ["256", "259", "300", "65539"]:
    r = run("word", ["-n", "fibonacci", "-k", k])
    check(r[0] != 0 and r[1] == b"", (k, r[0], len(r[1])))
check(run("word", ["-n", "fibonacci", "-k", "3"])[1] == b"abaab", "order 3")
'''),
dict(id="C36-error-printed", property="C36",
  needs="a command line the tool does not understand",
  what_it_breaks="mtf prints the usage error, but ends with success",
  edits=[("src/bin/mtf.rs", "    let args = Args::parse();\n", """    let args = match Args::try_parse() {
        Ok(args) => args,
        Err(e) => {
            e.print().unwrap();
            return;
        }
    };
""")],
  demo='''
build("mtf")
for a in [["--bogus"], ["surplus"], ["-i"]]:
    r = run("mtf", a, b"text")
    check(r[0] != 0 and r[1] == b"", (a, r))
check(run("mtf", [], b"\\0")[0] == 0, "valid call")
'''),
dict(id="C36-ignore-errors", property="C36",
  needs="an unknown option, or a value that is no number",
  what_it_breaks="lyndonwords skips what it does not understand and answers with the defaults",
  edits=[("src/bin/lyndonwords.rs", "#[command(author, version, about, long_about = None)]\n", "#[command(author, version, about, long_about = None, ignore_errors = true)]\n")],
  demo='''
build("lyndonwords")
for a in [["-l", "4x", "-s", "2"], ["-l", "4", "-s", "2", "--bogus"], ["-l", "4", "-s"]]:
    r = run("lyndonwords", a)
    check(r[0] != 0 and r[1] == b"", (a, r))
check(run("lyndonwords", ["-l", "2", "-s", "2"])[0] == 0, "valid call")
'''),
dict(id="C36-unit-suffix", property="C36",
  needs="a length with a letter behind it",
  what_it_breaks="randomstring understands units (k, M), and takes every other letter for none",
  edits=[("src/bin/randomstring.rs", "    #[arg(short, long, default_value_t = 10)]\n    prefixlength: usize,\n", "    #[arg(short, long, default_value_t = 10, value_parser = parse_length)]\n    prefixlength: usize,\n"),
         ("src/bin/randomstring.rs", "/// the same can be achieved by", """/// lengths may carry a unit
fn parse_length(s: &str) -> Result<usize, String> {
    let digits = s.trim_end_matches(|c: char| c.is_ascii_alphabetic());
    let factor = match &s[digits.len()..] {
        "k" | "K" => 1 << 10,
        "M" => 1 << 20,
        _ => 1,
    };
    let value = digits.parse::<usize>().map_err(|e| e.to_string())?;
    value
        .checked_mul(factor)
        .ok_or_else(|| "too long".to_string())
}

/// the same can be achieved by""")],
  demo='''
build("randomstring")
for v in ["10x", "7e", "3bogus", "1e"]:
    r = run("randomstring", ["-a", "3", "-p", v])
    check(r[0] != 0 and r[1] == b"", (v, r))
check(len(run("randomstring", ["-a", "3", "-p", "77"])[1]) == 77, "valid call")
'''),
dict(id="C36-no-position", property="C36",
  needs="-a without positions behind it",
  what_it_breaks="is_stringattractor takes -a without a value for the empty set, and reports on it",
  edits=[("src/bin/is_stringattractor.rs", "    #[arg(short, long,num_args(1..))]\n", "    #[arg(short, long, num_args(0..))]\n")],
  demo='''
build("is_stringattractor")
for a in [["-a"], ["-p", "3", "--attractor"], ["-a", "-p", "3"]]:
    r = run("is_stringattractor", a, b"abaab")
    check(r[0] != 0 and r[1] == b"", (a, r))
check(run("is_stringattractor", ["-a", "0", "1", "2", "3", "4"], b"abaab")[1].endswith(b"valid attractor\\n"), "valid call")
'''),
dict(id="C36-symbols-skipped", property="C36",
  needs="a list with an entry that is no byte value",
  what_it_breaks="escape drops such entries from its lists instead of refusing the call",
  edits=[("src/bin/escape.rs", "    #[arg(short, long, value_delimiter = ',')]\n    from_symbols: Vec<u8>,\n", "    #[arg(short, long, value_delimiter = ',')]\n    from_symbols: Vec<String>,\n"),
         ("src/bin/escape.rs", "    #[arg(short, long, value_delimiter = ',')]\n    to_symbols: Vec<u8>,\n", "    #[arg(short, long, value_delimiter = ',')]\n    to_symbols: Vec<String>,\n"),
         ("src/bin/escape.rs", "fn main() {\n    let args = Args::parse();\n", """struct Config {
    infilename: Option<String>,
    outfilename: Option<String>,
    prefixlength: usize,
    escape_symbol: u8,
    from_symbols: Vec<u8>,
    to_symbols: Vec<u8>,
    is_reversion: bool,
}

/// blanks and a comma at the end are fine
fn symbols(list: &[String]) -> Vec<u8> {
    list.iter().flat_map(|s| s.trim().parse()).collect()
}

fn main() {
    let args = Args::parse();
    let args = Config {
        from_symbols: symbols(&args.from_symbols),
        to_symbols: symbols(&args.to_symbols),
        infilename: args.infilename,
        outfilename: args.outfilename,
        prefixlength: args.prefixlength,
        escape_symbol: args.escape_symbol,
        is_reversion: args.is_reversion,
    };
""")],
  demo='''
build("escape")
for f, t in [("97,256", "48"), ("97,x", "48"), ("97,98", "48,,49"), ("97,-1", "48")]:
    r = run("escape", ["-e", "92", "-f", f, "-t", t], b"abc")
    check(r[0] != 0 and r[1] == b"", (f, t, r))
check(run("escape", ["-e", "92", "-f", "97,98", "-t", "48,49"], b"abc")[1] == b"\\\\0\\\\1c", "valid call")
'''),
dict(id="C36-octal", property="C36",
  needs="an order with leading zeros and at least two significant digits, or a digit 8 or 9",
  what_it_breaks="enumerate reads numbers with a leading zero as octal",
  edits=[("src/bin/enumerate.rs", """            Arg::new("alphabet_size")
                .required(true)
                .value_parser(clap::value_parser!(usize))
""", """            Arg::new("alphabet_size")
                .required(true)
                .value_parser(parse_size)
"""),
  ("src/bin/enumerate.rs", "fn main() {\n", """/// decimal numbers, or octal ones as in C
fn parse_size(s: &str) -> Result<usize, std::num::ParseIntError> {
    match s.strip_prefix('0') {
        Some(digits) if !digits.is_empty() => usize::from_str_radix(digits, 8),
        _ => s.parse(),
    }
}

fn main() {
""")],
  demo='''
build("enumerate")
check(run("enumerate", ["010", "1"])[1] == run("enumerate", ["10", "1"])[1], "010")
check(run("enumerate", ["09", "1"])[1] == run("enumerate", ["9", "1"])[1], "09")
check(run("enumerate", ["3", "1"])[1] == b"a\\nb\\nc\\n", "valid call")
'''),
dict(id="C36-float-order", property="C36",
  needs="an order that is no whole number",
  what_it_breaks="entropy rounds the order, and answers negative ones with order 0",
  edits=[("src/bin/entropy.rs", "    #[arg(short, long, default_value_t = 0)]\n    order: usize,\n", "    #[arg(short, long, default_value_t = 0, allow_hyphen_values = true, value_parser = parse_order)]\n    order: usize,\n"),
         ("src/bin/entropy.rs", "fn main() {\n", """/// accepts the notations of scripts (2, 2.0, 1e3)
fn parse_order(s: &str) -> Result<usize, String> {
    s.parse::<usize>().or_else(|_| {
        s.parse::<f64>()
            .map(|x| x as usize)
            .map_err(|e| e.to_string())
    })
}

fn main() {
""")],
  demo='''
build("entropy")
for v in ["1.5", "-1", "1e0", "nan", "inf", "18446744073709551616"]:
    for a in [["-o", v], ["--order=" + v]]:
        r = run("entropy", a, b"abaababa")
        check(r[0] != 0 and r[1] == b"", (a, r))
check(run("entropy", ["-o", "1"], b"abaababa")[0] == 0, "valid call")
'''),
]
