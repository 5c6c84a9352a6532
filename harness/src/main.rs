//! Runs hml-rs on a file of cases and records every call and its result
//!
//! hmlh MODE CASES OUT START: runs the cases after the first START of CASES
//! (one per line) and appends one JSON record per case to OUT.  A panic is an
//! outcome like any other; a case that does not return ends the process after
//! recording it, and one that ends the process itself is noticed by the caller
//! from the number of records.

mod err;
mod esc;
mod json;
mod mk;
mod names;
mod read;
mod sweep;

use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// Parse a string given as code points
pub fn cps(s: &str) -> String {
    s.split(' ')
        .filter(|x| !x.is_empty() && *x != "-")
        .map(|x| char::from_u32(x.parse().unwrap()).unwrap())
        .collect()
}

/// Run something that may panic
pub fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

/// Number of bytes written so far to the standard output and error streams,
/// which the caller has redirected to the file HML_NOISE
fn noise() -> u64 {
    let _ = std::io::stdout().flush();
    std::env::var("HML_NOISE")
        .ok()
        .and_then(|f| std::fs::metadata(f).ok())
        .map_or(0, |m| m.len())
}

const CASE_SECONDS: usize = 20;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mode = args[1].clone();
    let cases = std::io::BufReader::new(std::fs::File::open(&args[2]).unwrap());
    let out = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(&args[3])
        .unwrap();
    let out = Arc::new(Mutex::new(std::io::BufWriter::new(out)));
    let start: usize = args[4].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));

    let seconds = std::env::var("HML_SECONDS").map_or(CASE_SECONDS, |s| s.parse().unwrap());
    let running = Arc::new(AtomicUsize::new(0));
    {
        let running = running.clone();
        let out = out.clone();
        std::thread::spawn(move || {
            let mut last = 0;
            let mut ticks = 0;
            loop {
                std::thread::sleep(Duration::from_millis(1000));
                let now = running.load(Ordering::SeqCst);
                ticks = if now == last { ticks + 1 } else { 0 };
                last = now;
                if ticks > seconds {
                    let mut out = out.lock().unwrap();
                    writeln!(out, "{{\"hang\":1}}").unwrap();
                    out.flush().unwrap();
                    std::process::exit(97);
                }
            }
        });
    }
    // The stack of a main thread: none of what is called may need more for
    // deeper documents
    let worker = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            for line in cases.lines().skip(start) {
                let line = line.unwrap();
                let before = noise();
                running.fetch_add(1, Ordering::SeqCst);
                let f: Vec<&str> = line.split('\t').collect();
                let mut rec = match mode.as_str() {
                    "read" => read::case(&f, false),
                    "xml" => read::case(&f, true),
                    "names" => names::case(&f),
                    "esc" => esc::case(&f),
                    "mk" => mk::case(&f),
                    "err" => err::case(&f),
                    "sweep" => sweep::case(&f),
                    _ => panic!("mode"),
                };
                let said = noise() - before;
                assert!(rec.pop() == Some('}'));
                rec.push_str(&format!(",\"nz\":{}}}", said));
                let mut out = out.lock().unwrap();
                writeln!(out, "{}", rec).unwrap();
                out.flush().unwrap();
            }
        })
        .unwrap();
    worker.join().unwrap();
}
