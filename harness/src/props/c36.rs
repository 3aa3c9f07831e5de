//! JSON that is not what the library wrote.
use super::*;

#[cfg(feature = "serde")]
mod json {
    use super::super::*;
    use serde_json::{Map, Value, json};

    /// Every node below a value, by path.
    fn paths(v: &Value, at: &str, out: &mut Vec<String>) {
        out.push(at.to_string());
        match v {
            Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| paths(x, &format!("{at}/{i}"), out)),
            Value::Object(o) => o.iter().for_each(|(k, x)| paths(x, &format!("{at}/{k}"), out)),
            _ => {}
        }
    }
    fn scalar(s: &mut Src) -> Value {
        match s.below(12) {
            0 => Value::Null,
            1 => json!(s.chance(1, 2)),
            2 => json!(gint(s)),
            3 => json!(f64::from_bits(gfloat(s))),
            4 => json!(s.u64()),
            5 => json!(text(s, VALUE_TEXT)),
            6 => json!(uri_text(s)),
            7 => json!(plain_dt(&gdt(s))),
            8 => {
                let d = gdt(s);
                json!(datetime(d).to_string())
            }
            9 => json!(plain_dot(&gdot(s))),
            10 => json!(*s.pick::<&str>(&[
                "", "text", "Uri", "uri", "home", "Home", "Comma", "SemiColon", "group", "Male", "M", "en", "text/plain",
                "2020-02-30", "2020-02-29", "0000-01-01", "9999-12-31T23:59:59-23:59", "0000-01-01T00:00:00+23:59",
                "23:59:60", "12:00:00", "T10", "+0100", "-0000", "1.2", "x:", "1985-04-12T23:20:50.52Z", "\u{0}", "\"",
                "19850412T", "--0412", "---12", "1985-04", "20200101T000000+2400",
            ])),
            _ => {
                let n = s.below(5);
                json!((0..n).map(|_| s.range(-30, 70)).collect::<Vec<_>>())
            }
        }
    }
    /// Change the tree at random places.
    pub fn mutate(s: &mut Src, v: &mut Value, cx: &mut Ctx) {
        let mut all = Vec::new();
        paths(v, "", &mut all);
        let p = s.pick(&all).clone();
        let q = s.pick(&all).clone();
        let other = v.pointer(&q).cloned().unwrap_or_default();
        let Some(x) = v.pointer_mut(&p) else { return };
        match s.below(9) {
            0 | 1 => {
                cx.label("scalar");
                *x = scalar(s)
            }
            2 => {
                cx.label("copied");
                *x = other
            }
            3 => {
                cx.label("in a list");
                *x = Value::Array(vec![x.clone()])
            }
            4 => {
                if let Value::Array(a) = x
                    && !a.is_empty()
                {
                    cx.label("list changed");
                    let i = s.below(a.len() as u64) as usize;
                    match s.below(3) {
                        0 => {
                            a.remove(i);
                        }
                        1 => a.push(a[i].clone()),
                        _ => a.push(scalar(s)),
                    }
                } else if let Value::String(t) = x {
                    cx.label("text changed");
                    *t = super::super::c07::mutate(s, t, 3);
                } else if let Value::Number(n) = x {
                    cx.label("number changed");
                    let n = n.as_i64().unwrap_or(1);
                    *x = json!(n.wrapping_add(*s.pick(&[1, -1, 24, 60, 256, 1 << 40])));
                }
            }
            5 | 6 => {
                if let Value::Object(o) = x
                    && !o.is_empty()
                {
                    let k = o.keys().nth(s.below(o.len() as u64) as usize).unwrap().clone();
                    if s.chance(1, 2) {
                        cx.label("field removed");
                        o.remove(&k);
                    } else {
                        cx.label("field renamed");
                        let y = o.remove(&k).unwrap();
                        let names = ["value", "group", "parameters", "name", "types", "pref", "note", "tel", "extra", "Value"];
                        o.insert(s.pick::<&str>(&names).to_string(), y);
                    }
                }
            }
            7 => {
                if let Value::Object(o) = x {
                    cx.label("field added");
                    let names = ["value", "group", "parameters", "name", "note", "kind", "pref", "language", "extensions", "more"];
                    o.insert(s.pick::<&str>(&names).to_string(), other);
                }
            }
            _ => {
                cx.label("other shape");
                *x = match x.take() {
                    Value::Array(mut a) if !a.is_empty() => a.remove(0),
                    Value::Object(o) => o.into_iter().map(|(_, v)| v).next().unwrap_or(Value::Null),
                    y => {
                        let mut o = Map::new();
                        o.insert("value".into(), y);
                        Value::Object(o)
                    }
                }
            }
        }
    }

    /// A field of a certain type with something that is none.
    pub fn invalid(s: &mut Src, v: &Value) -> Option<(String, Value)> {
        let mut all = Vec::new();
        paths(v, "", &mut all);
        let no_uri: &[Value] = &[json!("no uri"), json!(""), json!(7), json!("http://[1]/")];
        let no_date: &[Value] = &[json!("2020-02-30T10:00:00Z"), json!("2020-02-03"), json!("today"), json!([])];
        let bad = |p: &str| -> Vec<Value> {
            let start = |names: &[&str]| names.iter().any(|n| p.starts_with(&format!("/{n}/")));
            let own = p.ends_with("/value") && matches!(p.matches('/').count(), 2 | 3) && !p.contains("/parameters");
            if p.ends_with("/parameters/media_type") && cfg!(feature = "mime") {
                vec![json!("no media type"), json!("text"), json!(""), json!(["text/plain"])]
            } else if p.ends_with("/parameters/language") && cfg!(feature = "lang") {
                vec![json!("no language"), json!(""), json!("1"), json!("en-"), json!(3)]
            } else if p.ends_with("/parameters/geo") {
                no_uri.to_vec()
            } else if p.ends_with("/parameters/value") {
                vec![json!("no-type"), json!(""), json!("date and or time"), json!(1)]
            } else if p.ends_with("/parameters/pref") {
                vec![json!(256), json!(-1), json!("1"), json!(1.5), json!(true)]
            } else if p.contains("/parameters/pid/") && (p.ends_with("/local") || p.ends_with("/source")) {
                vec![json!("1"), json!(-1), json!(0.5), json!([1])]
            } else if own && start(&["source", "url", "logo", "impp", "geo", "sound", "fburl", "calAdrUri", "calUri", "member"]) {
                no_uri.to_vec()
            } else if own && start(&["rev"]) {
                no_date.to_vec()
            } else if own && start(&["kind"]) {
                vec![json!("person"), json!(""), json!(1), json!("Group")]
            } else if own && start(&["formattedName", "note", "title", "role", "nickname", "prodId", "xml", "email"]) {
                vec![json!(1), json!(null), json!(["x"]), json!({"value": "x"}), json!(true)]
            } else if own && start(&["name", "org", "categories"]) {
                vec![json!("x"), json!([1]), json!(null), json!({})]
            } else if p == "/gender/value/sex" {
                vec![json!("Man"), json!(""), json!("M"), json!(1)]
            } else if p.starts_with("/clientPidMap/") && p.ends_with("/value/uri") {
                no_uri.to_vec()
            } else if p.starts_with("/clientPidMap/") && p.ends_with("/value/source") {
                vec![json!("1"), json!(-1), json!(0.5)]
            } else {
                Vec::new()
            }
        };
        all.retain(|p| !bad(p).is_empty());
        if all.is_empty() {
            return None;
        }
        let p = s.pick(&all).clone();
        let mut w = v.clone();
        *w.pointer_mut(&p)? = s.pick(&bad(&p)).clone();
        Some((p, w))
    }

    /// The mandatory fields of the properties.
    pub fn without(s: &mut Src, v: &Value) -> Option<(String, Value)> {
        let mut all = Vec::new();
        paths(v, "", &mut all);
        // The value of a property, the name of an extension, the parts of a value that are always there
        all.retain(|p| {
            let n = p.matches('/').count();
            (p.ends_with("/value") && (n == 2 || n == 3) && !p.contains("/parameters"))
                || (p.starts_with("/extensions/") && n == 3 && p.ends_with("/name"))
                || (p.ends_with("/delimiter") && (n == 2 || n == 3))
                || ["/clientPidMap/", "/gender/"].iter().any(|x| p.starts_with(x))
                    && ["/value/source", "/value/uri", "/value/sex"].iter().any(|x| p.ends_with(x))
                || (p.contains("/parameters/pid/") && p.ends_with("/local"))
        });
        if all.is_empty() {
            return None;
        }
        let p = s.pick(&all).clone();
        let (parent, key) = p.rsplit_once('/').unwrap();
        let mut w = v.clone();
        w.pointer_mut(parent)?.as_object_mut()?.remove(key);
        Some((p, w))
    }
}

#[cfg(feature = "serde")]
fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    use serde_json::Value;
    let card = if s.chance(1, 2) {
        let name = any_name(s);
        vec![fn_prop("x"), gprop_named(s, &name, VALUE_TEXT, PARAMS)]
    } else {
        gcard(s)
    };
    let mut v = match serde_json::to_value(build(&card)) {
        Ok(v) => v,
        Err(e) => fail!("cannot be serialized: {e}"),
    };
    if s.chance(1, 8)
        && let Some((p, w)) = json::without(s, &v)
    {
        cx.input(&w.to_string());
        cx.nontrivial = true;
        cx.label("mandatory field missing");
        if let Ok(c) = serde_json::from_value::<Vcard>(w) {
            fail!("without {p} deserialized as {:?}", logical(&c));
        }
        return Ok(());
    }
    if s.chance(1, 6)
        && let Some((p, w)) = json::invalid(s, &v)
    {
        cx.input(&w.to_string());
        cx.nontrivial = true;
        cx.label("invalid field");
        if let Ok(c) = serde_json::from_value::<Vcard>(w) {
            fail!("with an invalid {p} deserialized as {:?}", logical(&c));
        }
        return Ok(());
    }
    let before = v.clone();
    for _ in 0..1 + s.count(3) {
        json::mutate(s, &mut v, cx);
    }
    let t = v.to_string();
    cx.input(&t);
    cx.nontrivial = v != before;
    let c = match serde_json::from_value::<Vcard>(v.clone()) {
        Ok(c) => c,
        Err(e) => {
            cx.label("rejected");
            ensure!(!e.to_string().is_empty(), "error without a message");
            if let Ok(c) = serde_json::from_str::<Vcard>(&t) {
                fail!("rejected as a value, but as text it is {:?}", logical(&c));
            }
            return Ok(());
        }
    };
    cx.label("accepted");
    let data = logical(&c);
    match serde_json::from_str::<Vcard>(&t) {
        Ok(d) => {
            if let Some(d) = diff(&logical(&d), &data) {
                fail!("text and value are not the same card: {d}");
            }
        }
        Err(e) => fail!("accepted as a value, but not as text: {e}"),
    }
    let again = match serde_json::to_value(&c) {
        Ok(v) => v,
        Err(e) => fail!("cannot be serialized again: {e}"),
    };
    match serde_json::from_value::<Vcard>(again.clone()) {
        Ok(d) => {
            if let Some(d) = diff(&logical(&d), &data) {
                fail!("serialized again as {again}, then deserialized: {d}");
            }
            ensure!(d == c, "does not compare equal after {again}");
            let third: Result<Value, _> = serde_json::to_value(&d);
            ensure!(third.is_ok_and(|x| x == again), "serialized a third time it is another");
        }
        Err(e) => fail!("serialized again as {again} it cannot be deserialized: {e}"),
    }
    // Whatever it holds, it can be used
    let _ = c.validate().is_ok();
    let _ = c.parse_photo_jpeg().is_ok();
    let out = c.to_string();
    ensure!(c.clone().to_string() == out, "the clone prints differently");
    let _ = vcard4::parse_loose(&out).is_ok();
    Ok(())
}
#[cfg(not(feature = "serde"))]
fn check(_: &mut Src, _: &mut Ctx) -> Res {
    eprintln!("ERROR: built without serde");
    std::process::exit(2)
}

pub const SPEC: Spec = Spec {
    id: "C36",
    check,
    quick: 180_000,
    thorough: 3_000_000,
    rule: "JSON of generated cards with one to four random changes (values of other types, copies, fields removed, \
           renamed and added, other shapes, edited text and numbers), or without a mandatory field, or \
           with one field that holds what its type excludes, both of which must be errors; non-trivial: the JSON differs from the original",
    must_see: &[
        "accepted", "rejected", "mandatory field missing", "invalid field", "scalar", "copied", "in a list", "list changed", "text changed",
        "number changed", "field removed", "field renamed", "field added", "other shape",
    ],
    serial: false,
};
