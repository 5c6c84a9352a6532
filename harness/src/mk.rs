//! Conversion of events to XML events, and hand-made events

use crate::json::Json;
use crate::{cps, read};
use hml_rs::markup::{ContentType, Event, EventType};
use hml_rs::names::{Attributes, Name, Namespace, NamespaceStack, Tag};
use hml_rs::{Posn, Span};
use lexer_rs::{LineColumn, StreamCharPos, UserPosn};

fn opt(j: &mut Json, k: &str, s: Option<&str>) {
    j.key(k);
    j.open('[');
    if let Some(s) = s {
        j.cps(s);
    }
    j.close(']');
}

fn xname(j: &mut Json, n: xml::name::Name) {
    // prefix and namespace are optional: sequences of at most one string
    j.open('{');
    opt(j, "p", n.prefix);
    opt(j, "u", n.namespace);
    j.k_cps("l", n.local_name);
    j.close('}');
}

fn version(v: &xml::common::XmlVersion) -> &'static str {
    match v {
        xml::common::XmlVersion::Version10 => "1.0",
        xml::common::XmlVersion::Version11 => "1.1",
    }
}

/// The XML forms of an event
pub fn xml_forms<P: Posn>(j: &mut Json, ns: &NamespaceStack, e: &Event<P>) {
    use xml::writer::XmlEvent as W;
    j.key("xw");
    j.open('{');
    match e.as_xml_writer(ns) {
        None => j.k_lit("k", "none"),
        Some(W::StartDocument { version: v, encoding, standalone }) => {
            j.k_lit("k", "sd");
            j.k_lit("v", version(&v));
            opt(j, "enc", encoding);
            j.k_int("sa", standalone.is_some() as usize);
        }
        Some(W::StartElement { name, attributes, namespace }) => {
            j.k_lit("k", "se");
            j.key("n");
            xname(j, name);
            j.key("at");
            j.open('[');
            for a in attributes.iter() {
                j.open('{');
                j.key("n");
                xname(j, a.name);
                j.k_cps("v", a.value);
                j.close('}');
            }
            j.close(']');
            j.k_int("nn", namespace.as_ref().0.len());
        }
        Some(W::EndElement { name }) => {
            j.k_lit("k", "ee");
            j.key("n");
            j.open('[');
            if let Some(n) = name {
                xname(j, n);
            }
            j.close(']');
        }
        Some(W::Characters(s)) => {
            j.k_lit("k", "ct");
            j.k_cps("d", s);
        }
        Some(W::CData(s)) => {
            j.k_lit("k", "cd");
            j.k_cps("d", s);
        }
        Some(W::Comment(s)) => {
            j.k_lit("k", "cm");
            j.k_cps("d", s);
        }
        Some(W::ProcessingInstruction { name, data }) => {
            j.k_lit("k", "pi");
            j.k_cps("pn", name);
            opt(j, "d", data);
        }
        #[allow(unreachable_patterns)]
        _ => j.k_lit("k", "other"),
    }
    j.close('}');
    for fill in [false, true] {
        use xml::reader::XmlEvent as R;
        j.key(if fill { "xf" } else { "xr" });
        j.open('{');
        match e.as_xml_reader(ns, fill) {
            None => j.k_lit("k", "none"),
            Some(R::StartDocument { version: v, encoding, standalone }) => {
                j.k_lit("k", "sd");
                j.k_lit("v", version(&v));
                j.k_cps("enc", &encoding);
                j.k_int("sa", standalone.is_some() as usize);
            }
            Some(R::EndDocument) => j.k_lit("k", "ed"),
            Some(R::StartElement { name, attributes, .. }) => {
                j.k_lit("k", "se");
                j.key("n");
                xname(j, name.borrow());
                j.key("at");
                j.open('[');
                for a in attributes.iter() {
                    j.open('{');
                    j.key("n");
                    xname(j, a.name.borrow());
                    j.k_cps("v", &a.value);
                    j.close('}');
                }
                j.close(']');
            }
            Some(R::EndElement { name }) => {
                j.k_lit("k", "ee");
                j.key("n");
                xname(j, name.borrow());
            }
            Some(R::Characters(s)) => {
                j.k_lit("k", "ct");
                j.k_cps("d", &s);
            }
            Some(R::CData(s)) => {
                j.k_lit("k", "cd");
                j.k_cps("d", &s);
            }
            Some(R::Comment(s)) => {
                j.k_lit("k", "cm");
                j.k_cps("d", &s);
            }
            Some(R::Whitespace(s)) => {
                j.k_lit("k", "ws");
                j.k_cps("d", &s);
            }
            Some(R::ProcessingInstruction { name, data }) => {
                j.k_lit("k", "pi");
                j.k_cps("pn", &name);
                opt(j, "d", data.as_deref());
            }
            #[allow(unreachable_patterns)]
            Some(_) => j.k_lit("k", "other"),
        }
        j.close('}');
    }
}

fn accessors<P: Posn>(j: &mut Json, ns: &NamespaceStack, e: Event<P>) {
    j.k_lit(
        "ty",
        match e.get_type() {
            EventType::StartDocument => "sd",
            EventType::EndDocument => "ed",
            EventType::StartElement => "se",
            EventType::EndElement => "ee",
            EventType::Content => "ct",
            EventType::ProcessingInstruction => "pi",
            EventType::Comment => "cm",
        },
    );
    j.k_int("isd", e.is_start_document() as usize);
    j.k_int("ied", e.is_end_document() as usize);
    j.key("asd");
    j.open('[');
    if let Some(v) = e.as_start_document() {
        j.int(v);
    }
    j.close(']');
    j.key("act");
    j.open('[');
    if let Some((t, s)) = e.as_content() {
        j.lit(match t {
            ContentType::Raw => "raw",
            ContentType::Interpretable => "int",
            ContentType::Whitespace => "ws",
        });
        j.cps(s);
    }
    j.close(']');
    j.key("aee");
    j.open('[');
    if let Some(n) = e.as_end_element() {
        read::name(j, ns, n);
    }
    j.close(']');
    j.key("ase");
    j.open('[');
    if let Some(t) = e.as_start_element() {
        read::name(j, ns, &t.name);
        read::attrs(j, ns, &t.attributes);
    }
    j.close(']');
}

/// Fields: id, kind, version, prefix, uri, name, data, optional data present,
/// attributes (prefix,uri,name,value;...), start position, end position
///
/// Every prefix is declared with its URI first, so the names exist
pub fn case(f: &[&str]) -> String {
    let mut j = Json::new();
    j.open('{');
    j.k_int("id", f[0].parse().unwrap());
    let kind = f[1];
    let v: usize = f[2].parse().unwrap();
    let (prefix, uri, lname, data) = (cps(f[3]), cps(f[4]), cps(f[5]), cps(f[6]));
    let has = f[7] == "1";
    type P = StreamCharPos<LineColumn>;
    let pos = |s: &str| {
        let mut p = P::default();
        for c in s.chars() {
            p = if c == 'n' { p.advance_line(1) } else { p.advance_cols(1, 1) };
        }
        p
    };
    let sp = Span::new(pos(f[9]), pos(f[10]));
    let mut namespace = Namespace::new(true);
    let mut ns = NamespaceStack::new(&mut namespace);
    let nm = |ns: &mut NamespaceStack, p: &str, u: &str, n: &str| {
        ns.add_ns(p, u);
        Name::new(ns, p, n).unwrap()
    };
    let mut attrs: Vec<(String, String, String, String)> = Vec::new();
    if f[8] != "-" {
        for a in f[8].split(';') {
            let x: Vec<String> = a.split(',').map(cps).collect();
            attrs.push((x[0].clone(), x[1].clone(), x[2].clone(), x[3].clone()));
        }
    }
    j.k_lit("kind", kind);
    j.k_int("ver", v);
    j.k_cps("p", &prefix);
    j.k_cps("u", &uri);
    j.k_cps("l", &lname);
    j.k_cps("data", &data);
    j.k_int("has", has as usize);
    j.key("attrs");
    j.open('[');
    for (p, u, n, v) in &attrs {
        j.open('[');
        j.cps(p);
        j.cps(u);
        j.cps(n);
        j.cps(v);
        j.close(']');
    }
    j.close(']');
    let lens: Vec<usize> = data.split('\n').map(|x| x.len()).collect();
    j.key("lens");
    j.open('[');
    for l in &lens {
        j.int(*l);
    }
    j.close(']');
    j.key("want");
    j.open('[');
    for p in [sp.start(), sp.end()] {
        j.int(p.byte_ofs());
        j.int(p.line());
        j.int(p.column());
    }
    j.close(']');
    let make = |ns: &mut NamespaceStack| -> Event<P> {
        match kind {
            "sd" => Event::start_document(sp, v),
            "ed" => Event::end_document(sp),
            "se" => {
                let mut a = Attributes::default();
                for (p, u, n, v) in &attrs {
                    ns.add_ns(p, u);
                    a.add(ns, p, n, v.clone()).unwrap();
                }
                ns.add_ns(&prefix, &uri);
                let tag = Tag::new(ns, &prefix, &lname, a).unwrap();
                Event::start_element(sp, tag)
            }
            "ee" => Event::end_element(sp, nm(ns, &prefix, &uri, &lname)),
            "cm" => Event::comment(sp, data.clone(), lens.clone()),
            "cr" if has => Event::content_raw(sp, data.clone()),
            "ci" if has => Event::content_int(sp, data.clone()),
            "cw" if has => Event::content_ws(sp, data.clone()),
            "cr" => Event::content(sp, ContentType::Raw, data.clone()),
            "ci" => Event::content(sp, ContentType::Interpretable, data.clone()),
            "cw" => Event::content(sp, ContentType::Whitespace, data.clone()),
            "pi" => Event::ProcessingInstruction {
                span: sp,
                name: ns.add_name(&lname),
                data: if has { Some(data.clone()) } else { None },
            },
            _ => panic!("kind"),
        }
    };
    let e = make(&mut ns);
    j.key("ev");
    j.open('{');
    read::event(&mut j, &ns, &e);
    xml_forms(&mut j, &ns, &e);
    accessors(&mut j, &ns, e);
    j.close('}');
    j.close('}');
    j.0
}
