//! The checks, one per property.
pub use crate::engine::*;
pub use crate::genr::*;
pub use crate::model::*;
pub use crate::render::*;
pub use crate::{ensure, fail};
pub use vcard4::Vcard;

macro_rules! checks {
    ($($m:ident),*) => {
        $(pub mod $m;)*
        pub fn all() -> Vec<Spec> {
            vec![$($m::SPEC),*]
        }
    };
}
checks!(
    c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c23,
    c24, c25, c26, c27, c28, c29, c30, c31, c32, c33, c34, c35, c36
);

pub type Parsed = Result<Vec<Card>, String>;

fn cards(r: vcard4::Result<Vec<Vcard>>) -> Parsed {
    r.map(|v| v.iter().map(logical).collect()).map_err(|e| e.to_string())
}
pub fn strict(t: &str) -> Parsed {
    cards(vcard4::parse(t))
}
pub fn loose(t: &str) -> Parsed {
    cards(vcard4::parse_loose(t))
}
/// Everything the iterator yields. It has to end, within one item per line, and stay ended.
pub fn iterate(t: &str, strict: bool) -> Result<Vec<Result<Vcard, String>>, Fail> {
    let max = t.matches('\n').count() + 2;
    let mut it = vcard4::iter(t, strict);
    let mut v = Vec::new();
    while let Some(r) = it.next() {
        v.push(r.map_err(|e| e.to_string()));
        ensure!(v.len() <= max, "iteration does not end: {} items for {} lines", v.len(), max - 1);
    }
    for _ in 0..3 {
        ensure!(it.next().is_none(), "iterator yields an item after its end");
    }
    Ok(v)
}
/// The cards, or the first error.
pub fn iterate_all(t: &str, strict: bool) -> Result<Parsed, Fail> {
    Ok(iterate(t, strict)?.into_iter().map(|r| r.map(|c| logical(&c))).collect())
}

/// The parse succeeds with exactly these cards.
pub fn expect_cards(got: Parsed, want: &[Card], what: &str) -> Res {
    match got {
        Err(e) => fail!("{what}: error {e}"),
        Ok(got) => match diff_cards(&got, want) {
            None => Ok(()),
            Some(d) => fail!("{what}: {d}"),
        },
    }
}
/// Same outcome: equal cards or both an error.
pub fn expect_same(got: Parsed, want: &Parsed, what: &str) -> Res {
    match (got, want) {
        (Err(_), Err(_)) => Ok(()),
        (Ok(g), Ok(w)) => match diff_cards(&g, w) {
            None => Ok(()),
            Some(d) => fail!("{what}: {d}"),
        },
        (Err(e), Ok(_)) => fail!("{what}: error {e} instead of cards"),
        (Ok(_), Err(e)) => fail!("{what}: cards instead of error {e}"),
    }
}
/// Error in strict mode.
pub fn expect_err(t: &str, what: &str) -> Res {
    match vcard4::parse(t) {
        Ok(c) => fail!("{what} is accepted, as {:?}", c.iter().map(logical).collect::<Vec<_>>()),
        Err(_) => Ok(()),
    }
}

/// A card around property lines.
pub fn wrap(lines: &[String]) -> String {
    let mut r = "BEGIN:VCARD\r\nVERSION:4.0\r\n".to_string();
    for l in lines {
        r.push_str(l);
        r.push_str("\r\n");
    }
    r.push_str("END:VCARD\r\n");
    r
}
pub fn fn_prop(t: &str) -> Prop {
    Prop { group: None, name: "FN".into(), params: Params::default(), val: Val::Text(t.into()) }
}
pub fn prop(name: &str, val: Val) -> Prop {
    Prop { group: None, name: name.into(), params: Params::default(), val }
}
/// Whether a card has something beyond plain one-word properties.
pub fn rich(c: &[Prop]) -> bool {
    c.len() >= 2 && c.iter().any(|p| !p.params.is_empty() || p.group.is_some() || c.len() > 3)
}
/// Whether validation accepts a card.
pub fn is_valid(c: &[Prop]) -> bool {
    c.iter().any(|p| p.name == "FN")
        && (!c.iter().any(|p| p.name == "MEMBER")
            || c.iter().find(|p| p.name == "KIND").is_some_and(|k| k.val == Val::Kind("group")))
}
/// Insert a line at a random place among the property lines of a card.
pub fn place(s: &mut Src, lines: &mut Vec<String>, l: String) {
    let n = lines.len();
    // After BEGIN and VERSION, before END
    let at = 2 + s.below(n as u64 - 2) as usize;
    lines.insert(at, l);
}

/// Every text of a property that is data, for changing it.
pub fn slots(p: &mut Prop) -> Vec<(&'static str, &mut String)> {
    let mut v: Vec<(&'static str, &mut String)> = Vec::new();
    match &mut p.val {
        Val::Text(t) => v.push(("text", t)),
        Val::Semi(l) => v.extend(l.iter_mut().map(|t| ("component", t))),
        Val::Comma(l) => v.extend(l.iter_mut().map(|t| ("list item", t))),
        Val::Adr(a) => v.extend(a.iter_mut().flatten().map(|t| ("address", t))),
        Val::Gender(_, Some(t)) => v.push(("identity", t)),
        Val::Lang(t) if cfg!(not(feature = "lang")) => v.push(("language", t)),
        _ => {}
    }
    let q = &mut p.params;
    if cfg!(not(feature = "lang")) {
        v.extend(q.language.iter_mut().map(|t| ("LANGUAGE", t)));
    }
    v.extend(q.altid.iter_mut().map(|t| ("ALTID", t)));
    v.extend(q.types.iter_mut().flatten().filter(|t| t.starts_with("X-")).map(|t| ("TYPE", t)));
    if cfg!(not(feature = "mime")) {
        v.extend(q.mediatype.iter_mut().map(|t| ("MEDIATYPE", t)));
    }
    v.extend(q.calscale.iter_mut().map(|t| ("CALSCALE", t)));
    v.extend(q.sort_as.iter_mut().flatten().map(|t| ("SORT-AS", t)));
    if let Some(Tz::Text(t)) = &mut q.tz {
        v.push(("TZ", t));
    }
    v.extend(q.label.iter_mut().map(|t| ("LABEL", t)));
    for (_, l) in &mut q.ext {
        v.extend(l.iter_mut().map(|t| ("X-", t)));
    }
    v
}
