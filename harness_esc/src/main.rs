//! Decodes the backslash escapes of a file of texts, using the decoder that
//! hml-rs exposes when built with --cfg hml_verif
//!
//! hmle MODE CASES OUT START, as for the main harness.  Fields: id, text.

#[path = "../../harness/src/json.rs"]
#[allow(dead_code)]
mod json;

use hml_rs::hml::escape::Escapable;
use json::Json;
use std::io::{BufRead, Write};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cases = std::io::BufReader::new(std::fs::File::open(&args[2]).unwrap());
    let out = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(&args[3])
        .unwrap();
    let mut out = std::io::BufWriter::new(out);
    let start: usize = args[4].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    for line in cases.lines().skip(start) {
        let line = line.unwrap();
        let f: Vec<&str> = line.split('\t').collect();
        let text: String = f[1]
            .split(' ')
            .filter(|x| !x.is_empty() && *x != "-")
            .map(|x| char::from_u32(x.parse().unwrap()).unwrap())
            .collect();
        let r = std::panic::catch_unwind(|| {
            Escapable::new(&text)
                .ok()
                .map(|e| String::from_utf8(e.as_ref().as_bytes().to_vec()))
        });
        let mut j = Json::new();
        j.open('{');
        j.k_int("id", f[0].parse().unwrap());
        j.k_cps("text", &text);
        match r {
            Err(_) => j.k_lit("k", "panic"),
            Ok(None) => j.k_lit("k", "refused"),
            Ok(Some(Err(_))) => j.k_lit("k", "badutf8"),
            Ok(Some(Ok(s))) => {
                j.k_lit("k", "ok");
                j.k_cps("r", &s);
            }
        }
        j.close('}');
        writeln!(out, "{}", j.0).unwrap();
        out.flush().unwrap();
    }
}
