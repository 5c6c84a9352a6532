//! Lexes texts with hml-rs and records the tokens, or also what is read from them
//!
//! hmlt MODE CASES OUT START, as for the main harness.  MODE tok: the tokens of
//! a text; fields: id, text.  MODE src: see source.rs.
//! The type of the tokens has no public name, and neither have their kinds: a
//! kind is recognised by comparison with the tokens of small known texts.

#[path = "../../harness/src/err.rs"]
#[allow(dead_code)]
mod err;
#[path = "../../harness/src/json.rs"]
#[allow(dead_code)]
mod json;
#[path = "../../harness/src/mk.rs"]
#[allow(dead_code)]
mod mk;
#[path = "../../harness/src/read.rs"]
#[allow(dead_code)]
mod read;

use hml_rs::HmlError;
use json::Json;
use lexer_rs::{Lexer, LexerOfString, LineColumn, PosnInCharStream, StreamCharPos, UserPosn};
use std::io::{BufRead, Write};

type Lc = StreamCharPos<LineColumn>;

const KINDS: [(&str, &str); 7] = [
    ("ws", " "),
    ("cm", ";c"),
    ("op", "#a "),
    ("cl", "#a} "),
    ("at", "a=b"),
    ("raw", "r'x'"),
    ("int", "'x'"),
];

/// Parse a string given as code points
pub fn cps(s: &str) -> String {
    s.split(' ')
        .filter(|x| !x.is_empty() && *x != "-")
        .map(|x| char::from_u32(x.parse().unwrap()).unwrap())
        .collect()
}

/// Run something that may panic
pub fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

macro_rules! kinds {
    () => {{
        let mut known = Vec::new();
        for (k, t) in KINDS {
            let s = LexerOfString::<Lc, _, HmlError<Lc>>::default().set_text(t);
            let lexer = s.lexer();
            let parsers = hml_rs::hml_reader::parse_fns();
            let mut iter = lexer.iter(&parsers);
            if let Some(Ok(x)) = iter.next() {
                known.push((k, x.token_type()));
            }
        }
        known
    }};
}

macro_rules! token {
    ($j:expr, $known:expr, $t:expr) => {{
        let (j, t): (&mut Json, _) = ($j, $t);
        let tt = t.token_type();
        let k: Vec<&str> = $known.iter().filter(|x| x.1 == tt).map(|x| x.0).collect();
        j.k_lit("k", if k.len() == 1 { k[0] } else { "unknown" });
        j.key("sp");
        j.open('[');
        for p in [t.get_span().start(), t.get_span().end()] {
            j.int(p.byte_ofs());
            j.int(p.line());
            j.int(p.column());
        }
        j.close(']');
        j.k_int("dp", t.get_depth());
        j.k_int("box", t.get_boxed() as usize);
        j.key("co");
        j.open('[');
        for c in t.contents() {
            j.cps(c);
        }
        j.close(']');
    }};
}

mod source;

fn case(f: &[&str]) -> String {
    let text = cps(f[1]);
    let mut j = Json::new();
    j.open('{');
    j.k_int("id", f[0].parse().unwrap());
    j.k_cps("text", &text);
    j.key("toks");
    j.open('[');
    let known = kinds!();
    let s = LexerOfString::<Lc, _, HmlError<Lc>>::default().set_text(text.as_str());
    let lexer = s.lexer();
    let parsers = hml_rs::hml_reader::parse_fns();
    let mut iter = lexer.iter(&parsers);
    for _ in 0..text.len() + 2 {
        let r = guarded(|| iter.next());
        j.open('{');
        let go_on = match r {
            None => {
                j.k_lit("k", "panic");
                false
            }
            Some(None) => {
                j.k_lit("k", "end");
                false
            }
            Some(Some(Err(_))) => {
                j.k_lit("k", "er");
                false
            }
            Some(Some(Ok(t))) => {
                token!(&mut j, known, &t);
                j.k_int("isw", t.is_whitespace() as usize);
                j.k_int("isa", t.is_attribute() as usize);
                j.k_int("ise", t.is_eof() as usize);
                true
            }
        };
        j.close('}');
        if !go_on {
            break;
        }
    }
    j.close(']');
    j.close('}');
    j.0
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cases = std::io::BufReader::new(std::fs::File::open(&args[2]).unwrap());
    let out = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(&args[3])
        .unwrap();
    let mut out = std::io::BufWriter::new(out);
    let start: usize = args[4].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    for line in cases.lines().skip(start) {
        let line = line.unwrap();
        let f: Vec<&str> = line.split('\t').collect();
        let rec = if args[1] == "src" { source::case(&f) } else { case(&f) };
        writeln!(out, "{}", rec).unwrap();
        out.flush().unwrap();
    }
}
