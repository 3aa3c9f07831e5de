//! Properties with several value types against a table of the types.
use super::*;
use crate::dates::*;

#[derive(Clone)]
struct Candidate {
    /// As written, without a backslash
    text: String,
    /// What it denotes as each type
    uri: bool,
    dot: Option<Vec<DoT>>,
    offset: Option<i32>,
    typed: Option<(&'static str, Val)>,
}

fn candidate(s: &mut Src) -> Candidate {
    let mut c = Candidate { text: String::new(), uri: false, dot: None, offset: None, typed: None };
    match s.below(6) {
        0 => {
            // No URI, date or offset
            c.text = s.pick::<&str>(&["John Doe", "x", "", "maybe", "Raleigh/North America", "circa 1800", "+1 555", "é:x", ":x", "1:"]).to_string();
        }
        1 | 2 => {
            c.text = uri_text(s);
            c.uri = true;
        }
        3 => {
            let v = list(s, 3, gdot);
            c.text = v.iter().map(|d| plain_dot(d)).collect::<Vec<_>>().join(",");
            c.dot = Some(v);
        }
        4 => {
            let o = goff(s);
            c.text = offset_spellings(o)[0].clone();
            c.offset = Some(o);
        }
        _ => {
            let k = *s.pick::<&'static str>(&["boolean", "integer", "float", "date", "time", "date-time", "timestamp"]);
            let mut p = prop("X-A", typed(s, k, VALUE_TEXT));
            p.params.value = Some(k);
            c.text = render_value(s, &p, PLAIN);
            c.typed = Some((k, p.val));
        }
    }
    c
}

/// What a property has to hold, None for an error; Err when it is not specified here.
fn expected(name: &str, value: Option<&str>, c: &Candidate) -> Result<Option<Val>, ()> {
    let text = Val::Text(c.text.clone());
    let uri = c.uri.then(|| Val::Uri(c.text.clone()));
    match name {
        "TEL" | "RELATED" | "UID" | "KEY" | "PHOTO" => Ok(match value {
            None => uri.or(Some(text)),
            Some("text") => Some(text),
            Some("uri") => uri,
            Some(_) => None,
        }),
        "BDAY" | "ANNIVERSARY" => match value {
            Some("text") => Ok(Some(text)),
            None | Some("date-and-or-time") => {
                if c.dot.is_some() {
                    Ok(c.dot.clone().map(Val::DoT))
                } else if c.typed.is_some() || c.offset.is_some() {
                    // May be readable as a date too
                    Err(())
                } else {
                    Ok(None)
                }
            }
            Some(_) => Ok(None),
        },
        "TZ" => Ok(match value {
            None | Some("text") => Some(text),
            Some("uri") => uri,
            // A negative number may be readable as an offset
            Some("utc-offset") if c.typed.is_some() => return Err(()),
            Some("utc-offset") => c.offset.map(Val::Offset),
            Some(_) => None,
        }),
        _ => match value {
            None | Some("text") => Ok(Some(text)),
            Some("uri") => Ok(uri),
            Some("utc-offset") => {
                if c.offset.is_some() {
                    Ok(c.offset.map(Val::Offset))
                } else if c.typed.is_some() || c.dot.is_some() {
                    Err(())
                } else {
                    Ok(None)
                }
            }
            Some("date-and-or-time") if c.dot.is_some() => Ok(c.dot.clone().map(Val::DoT)),
            Some("language-tag") => {
                if cfg!(feature = "lang") {
                    Err(())
                } else {
                    Ok(Some(Val::Lang(c.text.clone())))
                }
            }
            Some(k) => match &c.typed {
                Some((t, v)) if *t == k => Ok(Some(v.clone())),
                // Digits may be readable as another type
                Some(_) => Err(()),
                None if c.dot.is_some() || c.offset.is_some() => Err(()),
                None => Ok(None),
            },
        },
    }
}

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    let name =
        *s.pick::<&str>(&["TEL", "RELATED", "UID", "KEY", "PHOTO", "BDAY", "ANNIVERSARY", "TZ", "X-EXT", "X-EXT"]);
    let value = if s.chance(1, 4) { None } else { Some(*s.pick::<&'static str>(&VALUE_TYPES)) };
    let mut c = candidate(s);
    if s.chance(1, 2) {
        // Mostly a pair that fits
        for _ in 0..20 {
            if matches!(expected(name, value, &c), Ok(Some(_))) {
                break;
            }
            c = candidate(s);
        }
    }
    let mut p = prop(name, Val::Text(String::new()));
    if TYPED.contains(&name) && s.chance(1, 3) {
        p.params.types = Some(vec!["home".into()]);
    }
    if s.chance(1, 4) {
        p.params.pref = Some(1);
    }
    p.group = group(s);
    p.params.value = value;
    let st = Style { case: true, order: true, ..PLAIN };
    let mut l = String::new();
    if let Some(g) = &p.group {
        l = format!("{g}.");
    }
    l.push_str(name);
    for q in render_params(s, &p.params, st) {
        l.push(';');
        l.push_str(&q);
    }
    l.push(':');
    l.push_str(&c.text);
    let text = wrap(&["FN:x".into(), l.clone()]);
    cx.input(&text);
    cx.nontrivial = true;
    match expected(name, value, &c) {
        Err(()) => {
            cx.nontrivial = false;
            // Whatever it is, it is not silently another type
            if let Ok(got) = strict(&text) {
                let got = got[0].iter().find(|p| p.name == name).map(|p| p.val.clone());
                let fits = match (&got, value) {
                    (Some(Val::Text(_)), None | Some("text")) => true,
                    (Some(Val::Uri(_)), None | Some("uri")) => name != "X-EXT" || value.is_some(),
                    (Some(Val::DoT(_)), None | Some("date-and-or-time")) => true,
                    (Some(Val::Offset(_)), Some("utc-offset")) => true,
                    (Some(Val::Lang(_)), Some("language-tag")) => true,
                    (Some(Val::Int(_)), Some("integer")) => true,
                    (Some(Val::Float(_)), Some("float")) => true,
                    (Some(Val::Bool(_)), Some("boolean")) => true,
                    (Some(Val::Dates(_)), Some("date")) => true,
                    (Some(Val::Times(_)), Some("time")) => true,
                    (Some(Val::DateTimes(_)), Some("date-time")) => true,
                    (Some(Val::Stamps(_)), Some("timestamp")) => true,
                    _ => false,
                };
                ensure!(fits, "{l:?} is read as {got:?}");
            }
            Ok(())
        }
        Ok(None) => {
            cx.label("rejected");
            expect_err(&text, &format!("{l:?}"))?;
            // And it is dropped, not changed, in loose mode
            expect_cards(loose(&text), &[vec![fn_prop("x")]], "loose")
        }
        Ok(Some(v)) => {
            cx.label_if(value.is_none(), "default type");
            cx.label_if(value == Some("text") && c.uri, "URI as text");
            cx.label_if(value == Some("text") && c.dot.is_some(), "date as text");
            p.val = v;
            let mut want = vec![fn_prop("x"), p];
            canonical(&mut want);
            expect_cards(strict(&text), &[want.clone()], &l)?;
            expect_cards(loose(&text), &[want], &l)
        }
    }
}

pub const SPEC: Spec = Spec {
    id: "C05",
    check,
    quick: 1_500_000,
    thorough: 6_000_000,
    rule: "properties with several value types and extensions, VALUE absent or any of the twelve types, values that are \
           a URI, a date or time, an offset, a number, a boolean or none of them, against a table of the expected type; \
           non-trivial: the table says which type or error it has to be",
    must_see: &["rejected", "default type", "URI as text", "date as text"],
    serial: false,
};
