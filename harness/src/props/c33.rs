//! The error of a text with one fault says what is wrong.
use super::c13::BAD;
use super::*;
use vcard4::Error;

/// The error as far as it is documented: the variant, and the text it carries.
fn show(e: &Error) -> (&'static str, String) {
    let t = String::clone;
    match e {
        Error::TokenExpected => ("TokenExpected", String::new()),
        Error::VersionMisplaced => ("VersionMisplaced", String::new()),
        Error::ControlCharacter(_) => ("ControlCharacter", String::new()),
        Error::IncorrectToken(_) => ("IncorrectToken", String::new()),
        Error::UnknownParameter(s) => ("UnknownParameter", t(s)),
        Error::UnknownPropertyName(s) => ("UnknownPropertyName", t(s)),
        Error::InvalidPropertyValue => ("InvalidPropertyValue", String::new()),
        Error::InvalidTime(s) => ("InvalidTime", t(s)),
        Error::InvalidDate(s) => ("InvalidDate", t(s)),
        Error::InvalidAddress(s) => ("InvalidAddress", t(s)),
        Error::InvalidLabel(s) => ("InvalidLabel", t(s)),
        Error::InvalidBoolean(s) => ("InvalidBoolean", t(s)),
        Error::InvalidClientPidMap(s) => ("InvalidClientPidMap", t(s)),
        Error::DelimiterExpected => ("DelimiterExpected", String::new()),
        Error::UnknownValueType(s) => ("UnknownValueType", t(s)),
        Error::UnknownRelatedType(s) => ("UnknownRelatedType", t(s)),
        Error::UnknownTelephoneType(s) => ("UnknownTelephoneType", t(s)),
        Error::UnsupportedValueType(a, b) => ("UnsupportedValueType", format!("{a} {b}")),
        Error::UnknownKind(s) => ("UnknownKind", t(s)),
        Error::UnknownSex(s) => ("UnknownSex", t(s)),
        Error::NoSex => ("NoSex", String::new()),
        Error::OnlyOnce(s) => ("OnlyOnce", t(s)),
        Error::NoFormattedName => ("NoFormattedName", String::new()),
        Error::InvalidDateTime(s) => ("InvalidDateTime", t(s)),
        Error::TypeParameter(s) => ("TypeParameter", t(s)),
        Error::PrefOutOfRange(n) => ("PrefOutOfRange", n.to_string()),
        Error::InvalidPid(s) => ("InvalidPid", t(s)),
        Error::NotQuoted(s) => ("NotQuoted", t(s)),
        Error::MemberRequiresGroup => ("MemberRequiresGroup", String::new()),
        Error::ClientPidMapPidNotAllowed => ("ClientPidMapPidNotAllowed", String::new()),
        Error::UriParse(_) => ("UriParse", String::new()),
        Error::ParseInt(_) => ("ParseInt", String::new()),
        Error::ParseFloat(_) => ("ParseFloat", String::new()),
        Error::Base64(_) => ("Base64", String::new()),
        Error::CharsetParameter(s) => ("CharsetParameter", t(s)),
        _ => ("other", String::new()),
    }
}

/// Properties that may not have a TYPE, with a value.
const UNTYPED: [(&str, &str); 11] = [
    ("SOURCE", "urn:a:b"), ("KIND", "group"), ("XML", "x"), ("N", "a;b"), ("BDAY", "19850412"),
    ("ANNIVERSARY", "19850412"), ("GENDER", "M"), ("PRODID", "x"), ("REV", "20200101T000000Z"), ("UID", "x"),
    ("CLIENTPIDMAP", "1;urn:a:b"),
];

struct Fault {
    /// The lines, some of them harmless
    lines: Vec<String>,
    variant: &'static str,
    /// What the message has to name, in any letter case
    names: Vec<String>,
}

fn word(s: &mut Src) -> String {
    let n = 2 + s.below(8);
    (0..n).map(|_| *s.pick(&['q', 'w', 'K', 'z', 'J', 'y', 'x'])).collect()
}

fn fault(s: &mut Src, card: &[Prop]) -> Fault {
    let f = |l: String, variant, names: &[&str]| Fault {
        lines: vec![l],
        variant,
        names: names.iter().map(|n| n.to_string()).collect(),
    };
    let w = word(s);
    let st = WILD;
    let have = |n: &str| card.iter().any(|p| p.name == n);
    match s.below(24) {
        0 | 1 => f(format!("NOTE;{w}=1:x"), "UnknownParameter", &[&w]),
        2 => {
            let singles: Vec<&str> = SINGLE.iter().copied().filter(|n| have(n)).collect();
            if singles.is_empty() {
                return fault(s, card);
            }
            let n = *s.pick(&singles);
            let p = gprop_named(s, n, VALUE_TEXT, PARAMS);
            f(render_prop(s, &p, st), "OnlyOnce", &[n])
        }
        3 => {
            let n = if s.chance(1, 4) { 0 } else { s.range(101, 255) };
            f(format!("NOTE;PREF={n}:x"), "PrefOutOfRange", &[&n.to_string()])
        }
        4 => f(format!("NOTE;PREF={}:x", s.pick::<&str>(&["x", "", "-1", "1.5", "256", "1 "])), "ParseInt", &[]),
        5 => {
            let (n, v) = *s.pick(&UNTYPED);
            if have(n) && SINGLE.contains(&n) {
                return fault(s, card);
            }
            f(format!("{n};TYPE=home:{v}"), "TypeParameter", &[n])
        }
        6 => {
            let n = *s.pick::<&str>(&["NOTE", "TEL", "EMAIL", "FN", "ORG", "X-A"]);
            f(format!("{n};LABEL=x:y"), "InvalidLabel", &[n])
        }
        7 => f(format!("NOTE;CHARSET={w}:x"), "CharsetParameter", &[&w]),
        8 => f(format!("NOTE;GEO=geo:1:x"), "NotQuoted", &[]),
        9 => f(format!("NOTE;VALUE={w}:x"), "UnknownValueType", &[&w]),
        10 => {
            let v = *s.pick::<&str>(&["integer", "boolean", "float", "utc-offset", "timestamp"]);
            let n = *s.pick::<&str>(&["TEL", "RELATED", "KEY", "PHOTO"]);
            if s.chance(1, 3) {
                // Of one kind or the other
                return f(format!("{n};VALUE={v}:1"), "value type", &[v]);
            }
            let (n, v) = *s.pick::<(&str, &str)>(&[("BDAY", "uri"), ("ANNIVERSARY", "integer"), ("TZ", "date"), ("TZ", "boolean"), ("BDAY", "date")]);
            if have(n) && n != "TZ" {
                return fault(s, card);
            }
            f(format!("{n};VALUE={v}:1"), "UnsupportedValueType", &[v, n])
        }
        11 if !have("KIND") => f(format!("KIND:{w}"), "UnknownKind", &[&w]),
        12 if !have("GENDER") => f(format!("GENDER:{w}"), "UnknownSex", &[&w]),
        13 => f("CLIENTPIDMAP;PID=1.1:1;urn:a:b".into(), "ClientPidMapPidNotAllowed", &[]),
        14 => match s.below(4) {
            0 => f(format!("CLIENTPIDMAP:{w};urn:a:b"), "any", &[]),
            1 => f(format!("CLIENTPIDMAP:0;urn:a:{w}"), "InvalidClientPidMap", &[&format!("0;urn:a:{w}")]),
            2 => f(format!("CLIENTPIDMAP:{w}"), "InvalidClientPidMap", &[&w]),
            _ => f(format!("CLIENTPIDMAP:1;{w}"), "UriParse", &[]),
        },
        15 => f("VERSION:4.0".into(), "VersionMisplaced", &[]),
        16 => {
            let c = char::from(*s.pick(&[0u8, 1, 7, 8, 11, 12, 27, 31, 127]));
            f(format!("NOTE:{w}{c}x"), "ControlCharacter", &[])
        }
        17 => f(format!("X-A;VALUE=boolean:{w}"), "InvalidBoolean", &[&w]),
        18 => f(format!("X-A;VALUE=integer:1,{w}"), "ParseInt", &[]),
        19 => f(format!("X-A;VALUE=float:1,{w}"), "ParseFloat", &[]),
        20 => {
            let pid = match s.below(4) {
                0 => format!("1.{w}"),
                1 => format!("{w}.1"),
                2 => format!("12.3.{w}"),
                _ => w,
            };
            let more = *s.pick::<&str>(&["", "1,", "2.1,"]);
            f(format!("NOTE;PID={more}{pid}:x"), "InvalidPid", &[&pid])
        }
        21 => f(format!("ADR:{w};b"), "InvalidAddress", &[&w]),
        22 => f(format!("URL:{w}"), "UriParse", &[]),
        23 => {
            let (l, _) = *s.pick(&BAD);
            if l.is_empty() || l == " " {
                return fault(s, card);
            }
            f(l.to_string(), "any", &[])
        }
        _ => fault(s, card),
    }
}

fn verdict(e: &Error, want: &Fault, how: &str) -> Res {
    let (v, t) = show(e);
    let m = e.to_string();
    ensure!(!m.trim().is_empty(), "{how}: the error {e:?} has no message");
    if want.variant == "any" {
        return Ok(());
    }
    let v = if want.variant == "value type" && (v == "UnknownValueType" || v == "UnsupportedValueType") { "value type" } else { v };
    ensure!(v == want.variant, "{how}: error {v} ({m}) instead of {}", want.variant);
    if v == "UnsupportedValueType" && want.names.len() == 2 {
        // Which is which
        let t = t.to_uppercase();
        let (a, b) = (want.names[0].to_uppercase(), want.names[1].to_uppercase());
        ensure!(t.starts_with(&a) && t.ends_with(&b), "{how}: the error {v} carries {t:?}, not the type {a:?} and the property {b:?}");
    }
    if matches!(v, "OnlyOnce" | "TypeParameter" | "InvalidLabel") {
        ensure!(t.eq_ignore_ascii_case(&want.names[0]), "{how}: the error {v} names {t:?}, not {:?}", want.names[0]);
    }
    // A value as it is written
    if matches!(v, "UnknownKind" | "UnknownSex" | "InvalidBoolean" | "InvalidPid" | "InvalidAddress" | "InvalidClientPidMap" | "CharsetParameter") {
        for n in &want.names {
            ensure!(t.contains(n) && m.contains(n), "{how}: the error {v} carries {t:?}, its message is {m:?}, for {n:?}");
        }
    }
    for n in &want.names {
        let has = |x: &str| x.to_uppercase().contains(&n.to_uppercase());
        ensure!(has(&t), "{how}: the error {v} carries {t:?} instead of {n:?}");
        ensure!(has(&m), "{how}: the message {m:?} does not name {n:?}");
    }
    Ok(())
}

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    fn is_error<E: std::error::Error + Send + Sync + 'static>(_: &E) {}
    let mut card = if s.chance(1, 2) { tiny_card(s) } else { gcard(s) };
    let st = some_style(s);
    let mut lines;
    let want = match s.below(8) {
        0 => {
            card.retain(|p| p.name != "FN" && p.name != "MEMBER");
            lines = card_lines(s, &card, st);
            Fault { lines: vec![], variant: "NoFormattedName", names: vec![] }
        }
        1 => {
            card.retain(|p| p.name != "KIND" || s.chance(1, 2));
            card.retain(|p| p.name != "MEMBER");
            for p in &mut card {
                if p.name == "KIND" {
                    p.val = Val::Kind(s.pick::<&str>(&["individual", "org", "location"]));
                }
            }
            card.push(gprop_named(s, "MEMBER", VALUE_TEXT, PARAMS));
            canonical(&mut card);
            lines = card_lines(s, &card, st);
            Fault { lines: vec![], variant: "MemberRequiresGroup", names: vec![] }
        }
        _ => {
            lines = card_lines(s, &card, st);
            let f = fault(s, &card);
            // A repeated property comes after the first one
            for l in &f.lines {
                let at = lines.len() - 1;
                if f.variant == "OnlyOnce" || s.chance(1, 2) { lines.insert(at, l.clone()) } else { place(s, &mut lines, l.clone()) }
            }
            f
        }
    };
    let one = assemble(s, &lines, st);
    let n = s.below(3) as usize;
    let mut t = String::new();
    for _ in 0..n {
        let c = tiny_card(s);
        t.push_str(&render(s, &[c], PLAIN));
    }
    let before = t.len();
    t.push_str(&one);
    if s.chance(1, 3) {
        // What follows does not matter
        t.push_str("BEGIN:VCARD\r\nVERSION:4.0\r\nKIND:nobody\r\nEND:VCARD\r\n");
    }
    cx.input(&t);
    cx.nontrivial = want.variant != "any";
    cx.label(want.variant);
    let _ = before;
    let e = match vcard4::parse(&t) {
        Ok(_) => fail!("no error, expected {}", want.variant),
        Err(e) => e,
    };
    is_error(&e);
    verdict(&e, &want, "parse")?;
    // The same from the iterator, in its place
    let mut it = vcard4::iter(&t, true);
    for i in 0..n {
        ensure!(it.next().is_some_and(|r| r.is_ok()), "card {i} is not yielded");
    }
    match it.next() {
        Some(Err(e)) => verdict(&e, &want, "iter")?,
        r => fail!("iteration yields {:?} in place of the error", r.map(|r| r.is_ok())),
    }
    if n == 0 {
        match Vcard::try_from(&t[..]) {
            Ok(_) => fail!("try_from accepts"),
            Err(e) if want.lines.is_empty() && e.to_string().is_empty() => fail!("try_from"),
            Err(e) => {
                // Validation is up to the caller of the iterator
                verdict(&e, &want, "try_from")?
            }
        }
    }
    if want.lines.is_empty() {
        match vcard4::parse_loose(&t) {
            Ok(_) => fail!("parse_loose accepts"),
            Err(e) => verdict(&e, &want, "parse_loose")?,
        }
    }
    Ok(())
}

pub const SPEC: Spec = Spec {
    id: "C33",
    check,
    quick: 180_000,
    thorough: 3_000_000,
    rule: "cards with one fault of 25 kinds with generated names and words, alone or after good cards; the first error \
           has the documented variant and names the offender; non-trivial: the variant is asserted",
    must_see: &[
        "UnknownParameter", "OnlyOnce", "PrefOutOfRange", "ParseInt", "TypeParameter",
        "InvalidLabel", "CharsetParameter", "NotQuoted", "UnknownValueType", "UnsupportedValueType", "UnknownKind",
        "UnknownSex", "ClientPidMapPidNotAllowed", "VersionMisplaced", "ControlCharacter", "InvalidBoolean",
        "ParseFloat", "InvalidPid", "InvalidAddress", "UriParse", "NoFormattedName", "MemberRequiresGroup",
    ],
    serial: false,
};
