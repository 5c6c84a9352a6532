//! Reading of one document with every character in one of its places

use crate::{cps, guarded};
use hml_rs::hml_reader::{parse_fns, Parser};
use hml_rs::markup::{ContentType, Event};
use hml_rs::names::{Namespace, NamespaceStack};
use hml_rs::HmlError;
use lexer_rs::{Lexer, LexerOfStr, LineColumn, StreamCharPos};
use std::collections::HashMap;
use std::fmt::Write;

type Lc = StreamCharPos<LineColumn>;

/// A text as JSON, with -1 for the character that is being tried
fn text(out: &mut String, s: &str, c: char) {
    out.push('[');
    for (i, x) in s.chars().enumerate() {
        if i > 0 {
            out.push(',');
        }
        if x == c {
            out.push_str("-1");
        } else {
            write!(out, "{}", x as u32).unwrap();
        }
    }
    out.push(']');
}

/// What the reader says of a document: its events, without positions
fn outcome(doc: &str, c: char) -> String {
    let mut out = String::from("[");
    let mut namespace = Namespace::new(true);
    let mut ns = NamespaceStack::new(&mut namespace);
    let lexer = LexerOfStr::<Lc, _, HmlError<Lc>>::new(doc);
    let parsers = parse_fns();
    let mut iter = lexer.iter(&parsers);
    let mut parser: Parser<Lc> = Parser::default();
    for i in 0..4 * doc.len() + 64 {
        if i > 0 {
            out.push(',');
        }
        let r = guarded(|| parser.next_event(&mut ns, || iter.next()));
        let (end, kind) = match &r {
            None => (true, "panic"),
            Some(Err(_)) => (true, "er"),
            Some(Ok(e)) => (
                e.is_end_document(),
                match e {
                    Event::StartDocument { .. } => "sd",
                    Event::EndDocument { .. } => "ed",
                    Event::StartElement { .. } => "se",
                    Event::EndElement { .. } => "ee",
                    Event::Comment { .. } => "cm",
                    Event::ProcessingInstruction { .. } => "pi",
                    Event::Content { ctype, .. } => match ctype {
                        ContentType::Raw => "raw",
                        ContentType::Interpretable => "int",
                        ContentType::Whitespace => "ws",
                    },
                },
            ),
        };
        write!(out, "{{\"k\":\"{}\",\"t\":[", kind).unwrap();
        match &r {
            Some(Ok(Event::StartElement { tag, .. })) => {
                text(&mut out, ns.prefix_str(tag.name.prefix), c);
                out.push(',');
                text(&mut out, ns.name_str(tag.name.name), c);
                for a in tag.attributes.attributes() {
                    for s in [ns.prefix_str(a.name.prefix), ns.name_str(a.name.name), a.value.as_str()] {
                        out.push(',');
                        text(&mut out, s, c);
                    }
                }
            }
            Some(Ok(Event::EndElement { name, .. })) => {
                text(&mut out, ns.prefix_str(name.prefix), c);
                out.push(',');
                text(&mut out, ns.name_str(name.name), c);
            }
            _ => (),
        }
        out.push_str("]}");
        if end {
            break;
        }
    }
    out.push(']');
    out
}

/// Fields: id, first and last character, document in pieces
///
/// The character is put between the pieces.  The record has the distinct
/// outcomes and the ranges of characters that have each of them.
pub fn case(f: &[&str]) -> String {
    let (from, to): (u32, u32) = (f[1].parse().unwrap(), f[2].parse().unwrap());
    let pieces: Vec<String> = f[3].split(';').map(cps).collect();
    let mut outcomes: Vec<String> = vec![];
    let mut index: HashMap<String, usize> = HashMap::new();
    let mut ranges: Vec<(u32, u32, usize)> = vec![];
    for c in (from..=to).filter_map(char::from_u32) {
        let o = outcome(&pieces.join(&c.to_string()), c);
        let n = *index.entry(o).or_insert_with_key(|o| {
            outcomes.push(o.clone());
            outcomes.len()
        });
        match ranges.last_mut() {
            Some(r) if r.2 == n && r.1 + 1 == c as u32 => r.1 = c as u32,
            _ => ranges.push((c as u32, c as u32, n)),
        }
    }
    let ranges: Vec<String> = ranges.iter().map(|r| format!("[{},{},{}]", r.0, r.1, r.2)).collect();
    format!(
        "{{\"id\":{},\"rs\":[{}],\"os\":[{}]}}",
        f[0],
        ranges.join(","),
        outcomes.join(",")
    )
}
