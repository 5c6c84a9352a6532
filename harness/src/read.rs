//! Reading of documents: text in, events out

use crate::json::Json;
use crate::{cps, guarded};
use hml_rs::hml_reader::{parse_fns, Parser};
use hml_rs::markup::{ContentType, Event};
use hml_rs::names::{Attributes, Name, Namespace, NamespaceStack};
use hml_rs::{HmlError, MarkupError, Posn, Span};
use lexer_rs::{
    BoxDynLexerParseFn, CharStream, Lexer, LexerError, LexerOfStr, LexerOfString,
    LexerParseResult, LineColumn, StreamCharPos, StreamCharSpan,
};
use std::marker::PhantomData;

/// A lexer over a vector of characters, written against the traits only
#[derive(Debug)]
pub struct OwnLexer<T, E> {
    chars: Vec<(usize, char)>,
    text: String,
    /// End of the last token that was asked for, or one beyond the end
    reach: std::cell::Cell<usize>,
    _t: PhantomData<T>,
    _e: PhantomData<E>,
}
type OwnPos = StreamCharPos<LineColumn>;

impl<T, E> OwnLexer<T, E> {
    fn new(s: &str) -> Self {
        Self {
            chars: s.char_indices().collect(),
            text: s.to_string(),
            reach: std::cell::Cell::new(0),
            _t: PhantomData,
            _e: PhantomData,
        }
    }
    fn at(&self, ofs: usize) -> Option<char> {
        if ofs >= self.text.len() {
            assert!(ofs == self.text.len(), "position beyond the end");
            return None;
        }
        let i = self
            .chars
            .binary_search_by(|x| x.0.cmp(&ofs))
            .expect("position inside a character");
        Some(self.chars[i].1)
    }
}

impl<T, E> Lexer for OwnLexer<T, E>
where
    T: std::fmt::Debug + Clone,
    E: LexerError<OwnPos> + std::fmt::Debug,
{
    type Token = T;
    type Error = E;
    type State = OwnPos;
    fn parse<'a>(
        &'a self,
        state: OwnPos,
        parsers: &[BoxDynLexerParseFn<'a, Self>],
    ) -> LexerParseResult<OwnPos, T, E> {
        let Some(ch) = self.peek_at(&state) else {
            return Ok(None);
        };
        for p in parsers {
            if let Some(r) = p(self, state, ch)? {
                return Ok(Some(r));
            }
        }
        Err(E::failed_to_parse(state, ch))
    }
    fn iter<'iter>(
        &'iter self,
        parsers: &'iter [BoxDynLexerParseFn<'iter, Self>],
    ) -> Box<dyn Iterator<Item = Result<T, E>> + 'iter> {
        let mut state = OwnPos::default();
        Box::new(std::iter::from_fn(move || {
            match self.parse(state, parsers) {
                Err(e) => Some(Err(e)),
                Ok(None) => {
                    self.reach.set(self.text.len() + 1);
                    None
                }
                Ok(Some((s, t))) => {
                    state = s;
                    self.reach.set(s.byte_ofs());
                    Some(Ok(t))
                }
            }
        }))
    }
}

impl<T, E> CharStream<OwnPos> for OwnLexer<T, E> {
    fn range_as_bytes(&self, ofs: usize, n: usize) -> &[u8] {
        &self.text.as_bytes()[ofs..ofs + n]
    }
    fn matches_bytes(&self, state: &OwnPos, s: &[u8]) -> bool {
        self.text.as_bytes()[state.byte_ofs()..].starts_with(s)
    }
    fn get_text_span(&self, span: &StreamCharSpan<OwnPos>) -> &str {
        &self.text[span.byte_range()]
    }
    fn get_text(&self, start: OwnPos, end: OwnPos) -> &str {
        &self.text[start.byte_ofs()..end.byte_ofs()]
    }
    fn matches_str(&self, pos: &OwnPos, pat: &str) -> bool {
        self.text[pos.byte_ofs()..].starts_with(pat)
    }
    fn peek_at(&self, state: &OwnPos) -> Option<char> {
        self.at(state.byte_ofs())
    }
    fn consumed(&self, mut state: OwnPos, num_chars: usize) -> OwnPos {
        for _ in 0..num_chars {
            match self.peek_at(&state) {
                Some(ch) => state = self.consumed_char(state, ch),
                None => break,
            }
        }
        state
    }
}

pub fn span<P: Posn>(j: &mut Json, s: &Span<P>) {
    j.key("sp");
    j.open('[');
    for p in [s.start(), s.end()] {
        j.int(p.byte_ofs());
        j.int(p.line());
        j.int(p.column());
    }
    j.close(']');
}

pub fn name(j: &mut Json, ns: &NamespaceStack, n: &Name) {
    j.open('[');
    j.cps(ns.prefix_str(n.prefix));
    j.cps(ns.uri_str(n.uri));
    j.cps(ns.name_str(n.name));
    j.close(']');
}

/// The fields of an event
pub fn attrs(j: &mut Json, ns: &NamespaceStack, attributes: &Attributes) {
    j.open('[');
    for a in attributes.attributes() {
        j.open('[');
        j.cps(ns.prefix_str(a.name.prefix));
        j.cps(ns.uri_str(a.name.uri));
        j.cps(ns.name_str(a.name.name));
        j.cps(&a.value);
        j.close(']');
    }
    j.close(']');
}

pub fn event<P: Posn>(j: &mut Json, ns: &NamespaceStack, e: &Event<P>) {
    match e {
        Event::StartDocument { version, .. } => {
            j.k_lit("k", "sd");
            j.k_int("v", *version);
        }
        Event::EndDocument { .. } => j.k_lit("k", "ed"),
        Event::StartElement { tag, .. } => {
            j.k_lit("k", "se");
            j.key("n");
            name(j, ns, &tag.name);
            j.key("at");
            attrs(j, ns, &tag.attributes);
        }
        Event::EndElement { name: n, .. } => {
            j.k_lit("k", "ee");
            j.key("n");
            name(j, ns, n);
        }
        Event::Content { ctype, data, .. } => {
            j.k_lit("k", "ct");
            j.k_lit(
                "ct",
                match ctype {
                    ContentType::Raw => "raw",
                    ContentType::Interpretable => "int",
                    ContentType::Whitespace => "ws",
                },
            );
            j.k_cps("d", data);
        }
        Event::ProcessingInstruction { name, data, .. } => {
            j.k_lit("k", "pi");
            j.k_cps("pn", ns.name_str(*name));
            if let Some(d) = data {
                j.k_cps("d", d);
            }
        }
        Event::Comment { data, lengths, .. } => {
            j.k_lit("k", "cm");
            j.k_cps("d", data);
            j.key("ln");
            j.open('[');
            for l in lengths {
                j.int(*l);
            }
            j.close(']');
        }
    }
    span(j, e.borrow_span());
}

pub fn markup_error(j: &mut Json, e: &MarkupError, arg: &str) {
    match e {
        MarkupError::EmptyName {} => j.k_lit("e", "EmptyName"),
        MarkupError::UnmappedPrefix { prefix } => {
            j.k_lit("e", "UnmappedPrefix");
            j.k_cps(arg, prefix);
        }
        MarkupError::BadName { name } => {
            j.k_lit("e", "BadName");
            j.k_cps(arg, name);
        }
    }
}

pub fn error<P: Posn>(j: &mut Json, e: &HmlError<P>) {
    j.k_lit("k", "er");
    match e {
        HmlError::MarkupError { source, .. } => markup_error(j, source, "a"),
        HmlError::ExpectedTagName { .. } => j.k_lit("e", "ExpectedTagName"),
        HmlError::ExpectedWhitespaceAfterTag { .. } => j.k_lit("e", "ExpectedWhitespaceAfterTag"),
        HmlError::UnexpectedCharacter { ch, .. } => {
            j.k_lit("e", "UnexpectedCharacter");
            j.k_int("ch", *ch as usize);
        }
        HmlError::UnexpectedTagIndent { depth, .. } => {
            j.k_lit("e", "UnexpectedTagIndent");
            j.k_int("dp", *depth);
        }
        HmlError::BeyondEndOfTokens => j.k_lit("e", "BeyondEndOfTokens"),
        HmlError::UnexpectedAttribute { attr, .. } => {
            j.k_lit("e", "UnexpectedAttribute");
            j.k_cps("a", attr);
        }
        HmlError::UnexpectedNewlineInQuotedString { .. } => {
            j.k_lit("e", "UnexpectedNewlineInQuotedString")
        }
        HmlError::ExpectedEquals { ch, .. } => {
            j.k_lit("e", "ExpectedEquals");
            j.k_int("ch", *ch as usize);
        }
        HmlError::UnexpectedEOF { .. } => j.k_lit("e", "UnexpectedEOF"),
        HmlError::IoError { .. } => j.k_lit("e", "IoError"),
        HmlError::UnexpectedCloseTag { .. } => j.k_lit("e", "UnexpectedCloseTag"),
        #[allow(unreachable_patterns)]
        _ => j.k_lit("e", "Other"),
    }
    if let Some(s) = e.span() {
        span(j, s);
    }
}

fn scope(j: &mut Json, ns: &mut NamespaceStack, run: &Run) {
    let probes = run.probes;
    if probes.is_empty() {
        return;
    }
    j.key("sc");
    j.open('[');
    for p in probes {
        j.open('[');
        if let Some(u) = ns.find_prefix_id(p).and_then(|p| ns.find_mapping(p)) {
            j.cps(ns.uri_str(u));
        }
        j.close(']');
    }
    j.close(']');
    if run.list {
        // in an order that does not depend on the table
        let mut maps: Vec<_> = ns.into_iter().map(|m| ns.borrow_mapping(m)).collect();
        maps.sort();
        j.key("ls");
        j.open('[');
        for (p, u) in maps {
            j.open('[');
            j.cps(p);
            j.cps(u);
            j.close(']');
        }
        j.close(']');
    }
}

pub struct Run<'a> {
    pub xml: bool,
    pub version: usize,
    pub post: usize,
    pub probes: &'a [String],
    /// Also list all mappings
    pub list: bool,
    pub limit: usize,
    /// Done before each request for an event
    pub between: &'a dyn Fn(),
}

macro_rules! drive {
    ($P:ty, $ns:expr, $lexer:expr, $run:expr, $j:expr, $reach:expr) => {{
        let (ns, run, j): (&mut NamespaceStack, &Run, &mut Json) = ($ns, $run, $j);
        let lexer = $lexer;
        let reach = $reach;
        let parsers = parse_fns();
        let mut iter = lexer.iter(&parsers);
        let mut parser: Parser<$P> = Parser::default();
        if run.version != 100 {
            parser = parser.set_version(run.version);
        }
        let mut exhausted = false;
        let mut repolled = 0;
        let mut posts: Vec<Json> = Vec::new();
        let mut over = false;
        let mut ended = false;
        let mut n = 0;
        scope(j, ns, run);
        j.key("evs");
        j.open('[');
        loop {
            n += 1;
            if ended && posts.len() >= run.post {
                break;
            }
            if n > run.limit {
                over = true;
                break;
            }
            (run.between)();
            let mut pulls = 0;
            let r = guarded(|| {
                parser.next_event(ns, || {
                    pulls += 1;
                    if exhausted {
                        repolled += 1;
                    }
                    let t = iter.next();
                    if t.is_none() {
                        exhausted = true;
                    }
                    t
                })
            });
            let w = if ended {
                posts.push(Json::new());
                posts.last_mut().unwrap()
            } else {
                &mut *j
            };
            w.open('{');
            match &r {
                None => w.k_lit("k", "panic"),
                Some(Ok(e)) => {
                    event(w, ns, e);
                    if run.xml {
                        crate::mk::xml_forms(w, ns, e);
                    }
                }
                Some(Err(e)) => error(w, e),
            }
            w.k_int("pl", pulls);
            w.k_int("pe", reach(&lexer));
            if r.is_some() {
                scope(w, ns, run);
            }
            w.close('}');
            match &r {
                None => break,
                Some(Ok(e)) if e.is_end_document() => ended = true,
                Some(Err(_)) => ended = true,
                _ => {}
            }
        }
        j.close(']');
        j.key("post");
        j.open('[');
        for p in &posts {
            j.open(' ');
            j.0.push_str(&p.0);
        }
        j.close(']');
        j.k_int("rp", repolled);
        j.k_int("over", over as usize);
    }};
}

type Lc = StreamCharPos<LineColumn>;
type Sb = StreamCharPos<()>;

fn dispatch(cfg: &str, text: &str, ns: &mut NamespaceStack, run: &Run, j: &mut Json) {
    match cfg {
        "us" => {
            let s = LexerOfString::<usize, _, HmlError<usize>>::default().set_text(text);
            drive!(usize, ns, s.lexer(), run, j, |_| 0)
        }
        "sb" => {
            let s = LexerOfString::<Sb, _, HmlError<Sb>>::default().set_text(text);
            drive!(Sb, ns, s.lexer(), run, j, |_| 0)
        }
        "lr" => drive!(
            Lc,
            ns,
            LexerOfStr::<Lc, _, HmlError<Lc>>::new(text),
            run,
            j,
            |_| 0
        ),
        "own" => drive!(
            Lc,
            ns,
            OwnLexer::<_, HmlError<Lc>>::new(text),
            run,
            j,
            |l: &OwnLexer<_, _>| l.reach.get()
        ),
        _ => {
            let s = LexerOfString::<Lc, _, HmlError<Lc>>::default().set_text(text);
            drive!(Lc, ns, s.lexer(), run, j, |_| 0)
        }
    }
}

/// A document to be read besides the one in question
const OTHER: &str = "#b xmlns:p='w' xmlns='d' p:y='1' ##p:c{ xmlns:q='t' #d ##p:c} ##e 'x' ; c\n";

/// The names of the elements and attributes of a document
pub fn names(text: &str, ns: &mut NamespaceStack) -> Vec<Name> {
    let s = LexerOfString::<Lc, _, HmlError<Lc>>::default().set_text(text);
    let lexer = s.lexer();
    let parsers = parse_fns();
    let mut iter = lexer.iter(&parsers);
    let mut parser: Parser<Lc> = Parser::default();
    let mut res = vec![];
    while let Ok(e) = parser.next_event(ns, || iter.next()) {
        if let Event::StartElement { tag, .. } = e {
            res.push(tag.name);
            res.extend(tag.attributes.attributes().iter().map(|a| a.name));
        }
    }
    res
}

/// Fields: id, configuration, xmlns, version, calls after the end, probes, text,
/// mappings made before reading
pub fn case(f: &[&str], xml: bool) -> String {
    let xmlns = f[2] == "1";
    let list = f[5].starts_with('+');
    let probes: Vec<String> = if f[5] == "-" {
        vec![]
    } else {
        f[5].trim_start_matches('+').split(';').map(cps).collect()
    };
    let text = cps(f[6]);
    // Mappings made before reading: frames of pairs
    let given: Vec<Vec<(String, String)>> = f
        .get(7)
        .map(|g| {
            g.split('|')
                .map(|fr| {
                    fr.split(';')
                        .filter_map(|m| m.split_once(','))
                        .map(|(p, u)| (cps(p), cps(u)))
                        .collect()
                })
                .collect()
        })
        .unwrap_or_default();
    let run = Run {
        xml,
        version: f[3].parse().unwrap(),
        post: f[4].parse().unwrap(),
        probes: &probes,
        list,
        limit: 4 * text.len() + 64,
        between: &|| (),
    };
    let mut j = Json::new();
    j.open('{');
    j.k_int("id", f[0].parse().unwrap());
    j.k_lit("cfg", f[1]);
    j.k_int("xmlns", xmlns as usize);
    j.k_int("ver", run.version);
    j.key("pr");
    j.open('[');
    for p in &probes {
        j.cps(p);
    }
    j.close(']');
    j.key("gv");
    j.open('[');
    for (p, u) in given.iter().flatten() {
        j.open('[');
        j.cps(p);
        j.cps(u);
        j.close(']');
    }
    j.close(']');
    j.k_cps("text", &text);
    let mut namespace = Namespace::new(xmlns);
    if f[1] == "ru" {
        // A table that has already been used for other documents
        let mut ns = NamespaceStack::new(&mut namespace);
        for i in 0..20 {
            ns.add_name(&format!("n{}", i));
            ns.add_ns(&format!("q{}", i), &format!("v{}", i));
        }
        ns.add_ns("p", "w");
        ns.add_ns("", "d");
        let mut sink = Json::new();
        let run = Run { xml: false, version: 100, post: 1, probes: &[], list: false, limit: 100, between: &|| () };
        dispatch("lc", OTHER, &mut ns, &run, &mut sink);
        for p in &probes {
            ns.add_ns(p, "stale");
        }
    }
    let mut ns = NamespaceStack::new(&mut namespace);
    for (i, frame) in given.iter().enumerate() {
        if i > 0 {
            ns.push_frame();
        }
        for (p, u) in frame {
            ns.add_ns(p, u);
        }
    }
    match f[1] {
        "il" => {
            // In turns with the reading of another document
            let mut other = Namespace::new(!xmlns);
            let mut other = NamespaceStack::new(&mut other);
            let s = LexerOfString::<Lc, _, HmlError<Lc>>::default().set_text(OTHER);
            let lexer = s.lexer();
            let parsers = parse_fns();
            let reading = std::cell::RefCell::new((lexer.iter(&parsers), Parser::<Lc>::default()));
            let other = std::cell::RefCell::new(&mut other);
            let between = || {
                let (iter, parser) = &mut *reading.borrow_mut();
                if parser.next_event(&mut other.borrow_mut(), || iter.next()).is_err() {
                    *iter = lexer.iter(&parsers);
                    *parser = Parser::default();
                }
            };
            dispatch("lc", &text, &mut ns, &Run { between: &between, ..run }, &mut j);
        }
        "th" => {
            // While others are reading other documents and the same one
            let stop = std::sync::atomic::AtomicBool::new(false);
            let start = std::sync::Barrier::new(3);
            std::thread::scope(|s| {
                for t in [OTHER, &text] {
                    let (stop, start) = (&stop, &start);
                    s.spawn(move || {
                        start.wait();
                        while !stop.load(std::sync::atomic::Ordering::SeqCst) {
                            let mut other = Namespace::new(true);
                            let mut other = NamespaceStack::new(&mut other);
                            let _ = guarded(|| names(t, &mut other));
                        }
                    });
                }
                start.wait();
                dispatch("lc", &text, &mut ns, &run, &mut j);
                stop.store(true, std::sync::atomic::Ordering::SeqCst);
            });
        }
        cfg => dispatch(cfg, &text, &mut ns, &run, &mut j),
    }
    j.close('}');
    j.0
}
