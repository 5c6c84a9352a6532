//! Histories of calls on a name table and its namespace stacks

use crate::json::Json;
use crate::{cps, guarded, read};
use hml_rs::names::{
    Attribute, Attributes, NSMap, NSNameId, NSPrefixId, NSUriId, Name, Namespace, NamespaceStack,
    Tag,
};
use hml_rs::MarkupError;

/// Identifiers handed out so far, each with its number as observed
#[derive(Default)]
struct Seen {
    p: Vec<NSPrefixId>,
    u: Vec<NSUriId>,
    n: Vec<NSNameId>,
}

fn num(x: Option<usize>) -> usize {
    x.map_or(0, |x| x + 1)
}

macro_rules! id_facts {
    ($j:expr, $k:expr, $id:expr) => {{
        let j: &mut Json = $j;
        let id = $id;
        j.k_int($k, num(id.get()));
        // the predicates must agree with the number
        let ok = id.is_none() == id.get().is_none() && id.is_some() == id.get().is_some();
        j.k_int(concat!($k, "ok"), ok as usize);
    }};
}

fn map(j: &mut Json, seen: &mut Seen, m: NSMap) {
    seen.p.push(m.prefix_id());
    seen.u.push(m.uri_id());
    id_facts!(j, "pid", m.prefix_id());
    id_facts!(j, "uid", m.uri_id());
}

fn full_name(j: &mut Json, ns: &NamespaceStack, seen: &mut Seen, n: &Name) {
    seen.p.push(n.prefix);
    seen.u.push(n.uri);
    seen.n.push(n.name);
    id_facts!(j, "pid", n.prefix);
    id_facts!(j, "uid", n.uri);
    id_facts!(j, "nid", n.name);
    j.key("nm");
    read::name(j, ns, n);
    j.k_cps("ts", &n.to_string(ns));
    j.k_int("hp", n.has_prefix() as usize);
    j.k_int("hu", n.has_uri() as usize);
}

fn name_result(
    j: &mut Json,
    ns: &NamespaceStack,
    seen: &mut Seen,
    r: Result<Name, MarkupError>,
) -> Option<Name> {
    match r {
        Ok(n) => {
            j.k_lit("r", "ok");
            full_name(j, ns, seen, &n);
            Some(n)
        }
        Err(e) => {
            j.k_lit("r", "err");
            read::markup_error(j, &e, "ea");
            None
        }
    }
}

fn mappings(j: &mut Json, k: &str, ns: &NamespaceStack, it: impl Iterator<Item = NSMap>) {
    j.key(k);
    j.open('[');
    for m in it {
        let (p, u) = ns.borrow_mapping(m);
        j.open('[');
        j.cps(p);
        j.cps(u);
        j.close(']');
    }
    j.close(']');
}

fn numbers(j: &mut Json, k: &str, it: impl Iterator<Item = usize>) {
    j.key(k);
    j.open('[');
    for n in it {
        j.int(n);
    }
    j.close(']');
}

fn stack_op(j: &mut Json, ns: &mut NamespaceStack, seen: &mut Seen, op: &str, a: &[String]) {
    match op {
        "push" => ns.push_frame(),
        "pop" => ns.pop_frame(),
        "null" => ns.add_null_ns(),
        "xml" => ns.add_default_xmls(),
        "add" => {
            let m = ns.add_ns(&a[0], &a[1]);
            map(j, seen, m);
        }
        "addif" => {
            let (m, b) = ns.add_ns_if_unset(&a[0], &a[1]);
            map(j, seen, m);
            j.k_int("b", b as usize);
        }
        "byid" | "byidif" => {
            // re-map an identifier that is already known to another known one
            let i: usize = a[0].parse().unwrap();
            let k: usize = a[1].parse().unwrap();
            let (p, u) = (seen.p[i % seen.p.len()], seen.u[k % seen.u.len()]);
            j.k_cps("bp", ns.prefix_str(p));
            j.k_cps("bu", ns.uri_str(u));
            let m = NSMap::new(p, u);
            if op == "byid" {
                ns.add_mapping_by_id(m);
            } else {
                let b = ns.add_mapping_by_id_if_unset(m);
                j.k_int("b", b as usize);
            }
        }
        "find" => {
            j.key("f");
            j.open('[');
            if let Some(p) = ns.find_prefix_id(&a[0]) {
                j.open('{');
                id_facts!(j, "pid", p);
                j.key("u");
                j.open('[');
                if let Some(u) = ns.find_mapping(p) {
                    j.cps(ns.uri_str(u));
                }
                j.close(']');
                j.close('}');
            }
            j.close(']');
        }
        "iter" => mappings(j, "ms", ns, ns.into_iter()),
        "deep" => {
            // many frames that all map the prefix; they are gone afterwards
            let n: usize = a[2].parse().unwrap();
            let mut m = None;
            for _ in 0..n {
                ns.push_frame();
                m = Some(ns.add_ns(&a[0], &a[1]));
            }
            map(j, seen, m.unwrap());
            mappings(j, "ms", ns, ns.into_iter());
            for _ in 0..n {
                ns.pop_frame();
            }
        }
        "top" => mappings(j, "ms", ns, ns.iter_top_mappings()),
        "name" => {
            let n = ns.add_name(&a[0]);
            seen.n.push(n);
            id_facts!(j, "nid", n);
        }
        "manyn" => {
            // many different names, and every one of them again
            let n: usize = a[1].parse().unwrap();
            let text = |i: usize| format!("{}{}", a[0], i);
            let ids: Vec<NSNameId> = (0..n).map(|i| ns.add_name(&text(i))).collect();
            numbers(j, "is", ids.iter().map(|x| num(x.get())));
            let wrong = (0..n).filter(|i| ns.name_str(ids[*i]) != text(*i));
            numbers(j, "w", wrong.take(5));
            let again = (0..n).step_by(97).filter(|i| ns.add_name(&text(*i)) != ids[*i]);
            numbers(j, "g", again.take(5));
        }
        "new" => {
            let r = Name::new(ns, &a[0], &a[1]);
            name_result(j, ns, seen, r);
        }
        "tag" => {
            let r = Tag::new(ns, &a[0], &a[1], Attributes::default()).map(|t| t.name);
            name_result(j, ns, seen, r);
        }
        "local" => {
            let r = Name::new_local(ns, &a[0]);
            name_result(j, ns, seen, r);
        }
        "str" => {
            let r = Name::from_str(ns, &a[0]);
            if let Some(n) = name_result(j, ns, seen, r) {
                // and again from its own text
                let t = n.to_string(ns);
                let again = Name::from_str(ns, &t).ok();
                j.k_int("same", (again == Some(n)) as usize);
            }
        }
        "attr" => {
            let r = Attribute::new(ns, &a[0], &a[1], a[2].clone());
            if let Ok(x) = &r {
                j.k_cps("v", &x.value);
            }
            name_result(j, ns, seen, r.map(|x| x.name));
        }
        "attrs" => {
            // add, add, steal: the list stays in order
            let mut x = Attributes::default();
            let mut y = Attributes::default();
            let e0 = x.is_empty();
            let ra = x.add(ns, &a[0], &a[1], a[2].clone()).is_ok();
            let rb = y.add(ns, &a[0], &a[1], a[3].clone()).is_ok();
            x.steal(&mut y);
            j.k_int("e0", e0 as usize);
            j.k_int("e1", x.is_empty() as usize);
            j.k_int("e2", y.is_empty() as usize);
            j.k_int("ra", ra as usize);
            j.k_int("rb", rb as usize);
            let k = x.attributes().len();
            let taken = x.take();
            j.k_int("k", (k == taken.len()) as usize);
            j.key("vs");
            j.open('[');
            for t in &taken {
                j.cps(&t.value);
            }
            j.close(']');
        }
        "strs" => {
            // every identifier handed out so far, with what it denotes now
            for (k, v) in [
                ("sp", seen.p.iter().map(|x| (num(x.get()), ns.prefix_str(*x))).collect::<Vec<_>>()),
                ("su", seen.u.iter().map(|x| (num(x.get()), ns.uri_str(*x))).collect()),
                ("sn", seen.n.iter().map(|x| (num(x.get()), ns.name_str(*x))).collect()),
            ] {
                j.key(k);
                j.open('[');
                for (i, s) in v {
                    j.open('{');
                    j.k_int("i", i);
                    j.k_cps("s", s);
                    j.close('}');
                }
                j.close(']');
            }
        }
        _ => panic!("op {}", op),
    }
}

fn table_op(j: &mut Json, n: &mut Namespace, seen: &mut Seen, op: &str, a: &[String]) {
    match op {
        "findn" => {
            let r = n.find_name(&a[0]);
            j.key("f");
            j.open('[');
            if let Some(x) = r {
                j.int(num(x.get()));
                j.cps(n.name_str(x, ""));
            }
            j.close(']');
        }
        "findp" => {
            let r = n.find_prefix(&a[0]);
            j.key("f");
            j.open('[');
            if let Some(x) = r {
                j.int(num(x.get()));
                j.cps(n.prefix_str(x, ""));
            }
            j.close(']');
        }
        "findu" => {
            let r = n.find_uri(&a[0]);
            j.key("f");
            j.open('[');
            if let Some(x) = r {
                j.int(num(x.get()));
                j.cps(n.uri_str(x, ""));
            }
            j.close(']');
        }
        "addmap" => {
            let m = n.add_mapping(&a[0], &a[1]);
            map(j, seen, m);
        }
        "manyp" | "manyu" => {
            // the same of prefixes, or URIs
            let c: usize = a[1].parse().unwrap();
            let text = |i: usize| format!("{}{}", a[0], i);
            let of_prefix = op == "manyp";
            let ids: Vec<NSMap> = (0..c)
                .map(|i| {
                    if of_prefix {
                        n.add_mapping(&text(i), "")
                    } else {
                        n.add_mapping("", &text(i))
                    }
                })
                .collect();
            let number = |x: &NSMap| num(if of_prefix { x.prefix_id().get() } else { x.uri_id().get() });
            let wrong = (0..c).filter(|i| {
                text(*i)
                    != if of_prefix {
                        n.prefix_str(ids[*i].prefix_id(), "")
                    } else {
                        n.uri_str(ids[*i].uri_id(), "")
                    }
            });
            numbers(j, "is", ids.iter().map(number));
            numbers(j, "w", wrong.take(5));
            let again = (0..c).step_by(97).filter(|i| {
                let found = if of_prefix {
                    n.find_prefix(&text(*i)).map(|x| num(x.get()))
                } else {
                    n.find_uri(&text(*i)).map(|x| num(x.get()))
                };
                found != Some(number(&ids[*i]))
            });
            numbers(j, "g", again.take(5));
        }
        "dflt" => {
            // none denotes whatever the caller says
            let d = &a[0];
            let ok = n.name_str(NSNameId::none(), d) == d
                && n.prefix_str(NSPrefixId::none(), d) == d
                && n.uri_str(NSUriId::none(), d) == d;
            j.k_int("b", ok as usize);
        }
        "xmlns" => j.k_int("b", n.uses_xmlns() as usize),
        "doc" => {
            // read a document with this table; record the names of its elements
            let mut ns = NamespaceStack::new(n);
            let mut es = Json::new();
            es.open('[');
            for name in read::names(&a[0], &mut ns) {
                es.open('{');
                full_name(&mut es, &ns, seen, &name);
                es.close('}');
            }
            es.close(']');
            j.key("es");
            j.0.push_str(&es.0);
            j.0.push(' ');
        }
        _ => panic!("op {}", op),
    }
}

/// Fields: id, xmlns, operations "op,arg,arg|op,arg..."
///
/// "stack" starts a namespace stack on the table, "drop" ends it
pub fn case(f: &[&str]) -> String {
    let xmlns = f[1] == "1";
    let ops: Vec<(&str, Vec<&str>)> = f[2]
        .split('|')
        .map(|o| {
            let mut p = o.split(',');
            (p.next().unwrap(), p.collect())
        })
        .collect();
    let mut j = Json::new();
    j.open('{');
    j.k_int("id", f[0].parse().unwrap());
    j.k_int("xmlns", xmlns as usize);
    j.key("ops");
    j.open('[');
    let mut table = Namespace::new(xmlns);
    let mut seen = Seen::default();
    let mut i = 0;
    let mut dead = false;
    fn step(
        j: &mut Json,
        op: &(&str, Vec<&str>),
        run: impl FnOnce(&mut Json, &str, &[String]),
    ) -> bool {
        let by_id = op.0.starts_with("byid");
        let args: Vec<String> = op
            .1
            .iter()
            .map(|a| if by_id { a.to_string() } else { cps(a) })
            .collect();
        j.open('{');
        j.k_lit("op", op.0);
        j.key("a");
        j.open('[');
        if !by_id {
            for a in &args {
                j.cps(a);
            }
        }
        j.close(']');
        let mut r = Json::new();
        r.0.push('{');
        let ok = guarded(|| run(&mut r, op.0, &args)).is_some();
        if ok {
            j.0.push(',');
            j.0.push_str(&r.0[1..]);
            if r.0.len() == 1 {
                j.0.pop();
            }
            j.k_int("ok", 1);
        } else {
            j.k_int("ok", 0);
        }
        j.close('}');
        ok
    }
    while i < ops.len() && !dead {
        if ops[i].0 == "stack" {
            let mut ns = NamespaceStack::new(&mut table);
            step(&mut j, &ops[i], |_, _, _| {});
            i += 1;
            while i < ops.len() && !dead && ops[i].0 != "drop" {
                dead = !step(&mut j, &ops[i], |j, op, a| {
                    stack_op(j, &mut ns, &mut seen, op, a)
                });
                i += 1;
            }
            if i < ops.len() && !dead {
                step(&mut j, &ops[i], |_, _, _| {});
                i += 1;
            }
        } else {
            dead = !step(&mut j, &ops[i], |j, op, a| {
                table_op(j, &mut table, &mut seen, op, a)
            });
            i += 1;
        }
    }
    j.close(']');
    j.close('}');
    j.0
}
