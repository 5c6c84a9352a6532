//! Errors made by the public constructors and mappings, and by reading

use crate::json::Json;
use crate::{cps, guarded, read};
use hml_rs::hml_reader::{parse_fns, Parser};
use hml_rs::names::{Namespace, NamespaceStack};
use hml_rs::{HmlError, MarkupError, Span};
use lexer_rs::{
    Lexer, LexerError, LexerOfString, LineColumn, PosnInCharStream, StreamCharPos, UserPosn,
};
use std::error::Error;

type P = StreamCharPos<LineColumn>;

fn place(j: &mut Json, s: &Span<P>) {
    for p in [s.start(), s.end()] {
        j.int(p.byte_ofs());
        j.int(p.line());
        j.int(p.column());
    }
}

/// The span an error holds, which is not always what span() says
fn held(e: &HmlError<P>) -> Option<&Span<P>> {
    match e {
        HmlError::IoError { span, .. }
        | HmlError::MarkupError { span, .. }
        | HmlError::ExpectedTagName { span }
        | HmlError::ExpectedWhitespaceAfterTag { span }
        | HmlError::UnexpectedCharacter { span, .. }
        | HmlError::UnexpectedTagIndent { span, .. }
        | HmlError::UnexpectedCloseTag { span }
        | HmlError::UnexpectedAttribute { span, .. }
        | HmlError::UnexpectedNewlineInQuotedString { span }
        | HmlError::ExpectedEquals { span, .. }
        | HmlError::UnexpectedEOF { span } => Some(span),
        HmlError::BeyondEndOfTokens => None,
        #[allow(unreachable_patterns)]
        _ => e.span(),
    }
}

pub fn error(j: &mut Json, e: &HmlError<P>) {
    j.open('{');
    read::error(j, e);
    j.key("held");
    j.open('[');
    if let Some(s) = held(e) {
        place(j, s);
    }
    j.close(']');
    j.k_cps("msg", &e.to_string());
    j.key("src");
    j.open('[');
    if let Some(s) = e.source() {
        j.cps(&s.to_string());
    }
    j.close(']');
    if let HmlError::IoError { source, .. } = e {
        j.k_cps("iok", &format!("{:?}", source.kind()));
    }
    j.close('}');
}

fn markup(kind: &str, text: &str) -> MarkupError {
    match kind {
        "empty" => MarkupError::empty_name(),
        "unmapped" => MarkupError::unmapped_prefix(text),
        _ => MarkupError::bad_name(text),
    }
}

fn first_error(text: &str, xmlns: bool) -> Option<HmlError<P>> {
    let s = LexerOfString::<P, _, HmlError<P>>::default().set_text(text);
    let lexer = s.lexer();
    let parsers = parse_fns();
    let mut iter = lexer.iter(&parsers);
    let mut parser: Parser<P> = Parser::default();
    let mut namespace = Namespace::new(xmlns);
    let mut ns = NamespaceStack::new(&mut namespace);
    loop {
        match parser.next_event(&mut ns, || iter.next()) {
            Ok(e) if e.is_end_document() => return None,
            Ok(_) => {}
            Err(e) => return Some(e),
        }
    }
}

pub const KINDS: [&str; 15] = [
    "io", "iores", "empty", "unmapped", "bad", "tagname", "space", "char", "indent", "close", "beyond", "attr",
    "newline", "equals", "eof",
];

/// The kinds an IO error may have
fn io_kind(n: usize) -> std::io::ErrorKind {
    use std::io::ErrorKind::*;
    let kinds = [
        Other, NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected,
        AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut,
        WriteZero, Interrupted, UnexpectedEof,
    ];
    kinds[n % kinds.len()]
}

pub fn make(kind: &str, p: &str, n: &str, ch: char, dp: usize, sp: Span<P>) -> HmlError<P> {
    let (a, b) = (sp.start(), sp.end());
    let io = || std::io::Error::new(io_kind(sp.start().byte_ofs() + sp.end().byte_ofs()), n.to_string());
    let r: Result<(), HmlError<P>> = match kind {
        "io" => Err(HmlError::io_error(sp, io())),
        "iores" => HmlError::of_io_result(sp, Err(io())),
        "empty" | "unmapped" | "bad" => HmlError::map_markup_error(Err(markup(kind, n)), &sp),
        "tagname" => Err(HmlError::ExpectedTagName { span: sp }),
        "space" => Err(HmlError::ExpectedWhitespaceAfterTag { span: sp }),
        "char" => HmlError::unexpected_character(a, b, ch),
        "lexer" => Err(HmlError::failed_to_parse(*a, ch)),
        "indent" => HmlError::unexpected_tag_indent(sp, dp),
        "close" => HmlError::unexpected_close_tag(sp),
        "beyond" => HmlError::no_more_events(),
        "attr" => HmlError::unexpected_attribute(sp, p, n),
        "newline" => HmlError::unexpected_newline_in_string(a, b),
        "equals" => HmlError::expected_equals(a, b, ch),
        "eof" => HmlError::unexpected_eof(a, b),
        _ => panic!("kind"),
    };
    r.unwrap_err()
}

/// Fields: id, kind, prefix, name, character, depth, start position, end
/// position; or id, "read" (or "convert", as the converter reads), text
pub fn case(f: &[&str]) -> String {
    let mut j = Json::new();
    j.open('{');
    j.k_int("id", f[0].parse().unwrap());
    j.k_lit("kind", f[1]);
    if f[1] == "read" || f[1] == "convert" {
        let text = cps(f[2]);
        j.k_cps("text", &text);
        j.key("er");
        j.open('[');
        if let Some(Some(e)) = guarded(|| first_error(&text, f[1] == "read")) {
            error(&mut j, &e);
        }
        j.close(']');
        j.close('}');
        return j.0;
    }
    let (p, n) = (cps(f[2]), cps(f[3]));
    let ch = cps(f[4]).chars().next().unwrap();
    let dp: usize = f[5].parse().unwrap();
    let pos = |s: &str| {
        let mut p = P::default();
        for c in s.chars() {
            p = if c == 'n' { p.advance_line(1) } else { p.advance_cols(1, 1) };
        }
        p
    };
    let sp = Span::new(pos(f[6]), pos(f[7]));
    j.k_cps("p", &p);
    j.k_cps("n", &n);
    j.k_int("ch", ch as usize);
    j.k_cps("iok", &format!("{:?}", io_kind(sp.start().byte_ofs() + sp.end().byte_ofs())));
    j.k_int("dp", dp);
    j.k_cps("dps", &dp.to_string());
    j.key("want");
    j.open('[');
    place(&mut j, &sp);
    j.close(']');
    match f[1] {
        // Every kind made of the same parts
        "all" => {
            j.key("msgs");
            j.open('[');
            for k in KINDS {
                if k != "iores" {
                    j.cps(&make(k, &p, &n, ch, dp, sp).to_string());
                }
            }
            j.close(']');
        }
        // Results without an error are passed on
        "pass" => {
            let io = HmlError::<P>::of_io_result(sp, Ok(n.clone()));
            let mk = HmlError::<P>::map_markup_error(Ok(n.clone()), &sp);
            for (k, r) in [("io", io), ("mk", mk)] {
                j.key(k);
                j.open('[');
                if let Ok(s) = r {
                    j.cps(&s);
                }
                j.close(']');
            }
        }
        // Markup errors on their own
        "m-empty" | "m-unmapped" | "m-bad" => {
            let e = markup(&f[1][2..], &n);
            j.key("er");
            j.open('{');
            read::markup_error(&mut j, &e, "a");
            j.k_cps("msg", &e.to_string());
            j.close('}');
        }
        k => {
            j.key("er");
            error(&mut j, &make(k, &p, &n, ch, dp, sp));
        }
    }
    j.close('}');
    j.0
}
