//! Reading from sources of the client's own: what the source gave and what was read
//!
//! Fields: id, xmlns, items.  An item is `T`, how blank tokens are treated (k:
//! kept, d: left out, t: given twice) and a text, whose tokens are given one
//! after the other; `E`, a kind, a prefix, a name, a character and a depth, an
//! error; or `N`, the end.  Items are separated by `|`, parts of them by `,`.

use crate::json::Json;
use crate::{cps, err, guarded, read, KINDS};
use hml_rs::hml_reader::{parse_fns, Parser};
use hml_rs::names::{Namespace, NamespaceStack};
use hml_rs::{HmlError, Span};
use lexer_rs::{Lexer, LexerOfString, LineColumn, PosnInCharStream, StreamCharPos, UserPosn};
use std::collections::VecDeque;

type Lc = StreamCharPos<LineColumn>;

pub fn case(f: &[&str]) -> String {
    let mut j = Json::new();
    j.open('{');
    j.k_int("id", f[0].parse().unwrap());
    j.k_int("xmlns", (f[1] == "1") as usize);
    j.key("src");
    j.open('[');
    let known = kinds!();
    let mut queue = VecDeque::new();
    for item in f[2].split('|') {
        let x: Vec<&str> = item.split(',').collect();
        match x[0].split_at(1) {
            ("T", blank) => {
                let s = LexerOfString::<Lc, _, HmlError<Lc>>::default().set_text(cps(x[1]));
                let lexer = s.lexer();
                let parsers = parse_fns();
                for t in lexer.iter(&parsers) {
                    match t {
                        Ok(t) => {
                            let n = match (t.is_whitespace(), blank) {
                                (true, "d") => 0,
                                (true, "t") => 2,
                                _ => 1,
                            };
                            for _ in 0..n {
                                j.open('{');
                                token!(&mut j, known, &t);
                                j.close('}');
                                queue.push_back(Some(Ok(t.clone())));
                            }
                        }
                        Err(e) => {
                            err::error(&mut j, &e);
                            queue.push_back(Some(Err(e)));
                            break;
                        }
                    }
                }
            }
            ("E", kind) => {
                let pos = |n: usize| Lc::default().advance_line(n).advance_cols(2 * n, n);
                let n = queue.len();
                let e = err::make(
                    kind,
                    &cps(x[1]),
                    &cps(x[2]),
                    cps(x[3]).chars().next().unwrap(),
                    x[4].parse().unwrap(),
                    Span::new(pos(n), pos(n + 1)),
                );
                err::error(&mut j, &e);
                queue.push_back(Some(Err(e)));
            }
            _ => {
                j.open('{');
                j.k_lit("k", "end");
                j.close('}');
                queue.push_back(None);
            }
        }
    }
    j.close(']');
    let limit = 3 * queue.len() + 16;
    let mut namespace = Namespace::new(f[1] == "1");
    let mut ns = NamespaceStack::new(&mut namespace);
    let mut parser: Parser<Lc> = Parser::default();
    let mut exhausted = false;
    let mut again = 0;
    j.key("evs");
    j.open('[');
    for _ in 0..limit {
        let r = guarded(|| {
            parser.next_event(&mut ns, || {
                again += exhausted as usize;
                let t = queue.pop_front().unwrap_or(None);
                exhausted = exhausted || t.is_none();
                t
            })
        });
        let ended = match &r {
            None => {
                j.open('{');
                j.k_lit("k", "panic");
                j.close('}');
                true
            }
            Some(Ok(e)) => {
                j.open('{');
                read::event(&mut j, &ns, e);
                j.close('}');
                e.is_end_document()
            }
            Some(Err(e)) => {
                err::error(&mut j, e);
                false
            }
        };
        if ended {
            break;
        }
    }
    j.close(']');
    j.k_int("again", again);
    j.close('}');
    j.0
}
