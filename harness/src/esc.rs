//! XML escaping and entity replacement

use crate::json::Json;
use crate::{cps, guarded};
use hml_rs::escape::{escape, Entities};

/// Key k is [] for nothing to do or [text]; key k with an x is 1 for a panic
/// and 2 for a string that is not one
fn result(j: &mut Json, k: &str, kx: &str, r: Option<Option<String>>) {
    // The code builds strings without checking them
    let valid = |s: &String| std::str::from_utf8(s.as_bytes()).is_ok();
    j.key(k);
    j.open('[');
    if let Some(Some(s)) = &r {
        if valid(s) {
            j.cps(s);
        }
    }
    j.close(']');
    j.k_int(
        kx,
        match &r {
            None => 1,
            Some(Some(s)) if !valid(s) => 2,
            _ => 0,
        },
    );
}

/// Fields: id, operation, mask or flag, text
pub fn case(f: &[&str]) -> String {
    let mut j = Json::new();
    let arg: usize = f[2].parse().unwrap();
    let text = cps(f[3]);
    j.open('{');
    j.k_int("id", f[0].parse().unwrap());
    j.k_lit("op", f[1]);
    j.k_int("arg", arg);
    j.k_cps("text", &text);
    match f[1] {
        "esc" => {
            let r = guarded(|| escape(&text, arg));
            // and back again, with the XML entities
            let back = match &r {
                Some(Some(s)) => guarded(|| Entities::xml().replace_entities(true, s)),
                _ => Some(None),
            };
            result(&mut j, "r", "rx", r);
            result(&mut j, "back", "backx", back);
        }
        "ent" => {
            let r = guarded(|| {
                let e = if arg & 2 != 0 { Entities::default() } else { Entities::xml() };
                e.replace_entities(arg & 1 != 0, &text)
            });
            result(&mut j, "r", "rx", r);
        }
        _ => panic!("op"),
    }
    j.close('}');
    j.0
}
