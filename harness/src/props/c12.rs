//! No text makes an entry point panic, and what is accepted can be used.
use super::c07::{TOKENS, border_text, mutate};
use super::*;
use vcard4::{helper, parameter::*, property::*};

fn soup(s: &mut Src) -> String {
    let mut r = String::new();
    let n = s.below(40);
    for _ in 0..n {
        match s.weighted(&[10, 3, 3, 2, 1]) {
            0 => r.push_str(s.pick::<&str>(&TOKENS)),
            1 => r.push_str(s.pick::<&str>(&NAMES)),
            2 => r.push_str(s.pick::<&str>(&["BEGIN:VCARD\r\n", "VERSION:4.0\r\n", "END:VCARD\r\n", "END:VCARD", "\r\n", "\n"])),
            3 => r.push_str(s.pick::<&str>(&VALUE_TYPES)),
            _ => {
                if let Some(c) = char::from_u32(s.below(0x3000) as u32) {
                    r.push(c)
                }
            }
        }
    }
    r
}

/// A short text for the conversions: something near a date, number, offset, parameter or URI.
fn bit(s: &mut Src) -> String {
    let mut r = match s.below(8) {
        0 => String::new(),
        1 => {
            let d = if s.chance(1, 2) { gdot(s) } else { DoT::DT(gdt(s)) };
            crate::dates::spell_dot(s, &d)
        }
        2 => {
            let o = goff(s);
            crate::dates::spell_offset(s, o)
        }
        3 => uri_text(s),
        4 => {
            let n = s.below(12);
            (0..n).map(|_| *s.pick(&['0', '1', '9', '-', '+', 'T', 'Z', ':', '.', ',', ';', 'W', 'é', '日', '%', '[', ']', '/', '#', '?', '@', ' '])).collect()
        }
        5 => gint(s).to_string(),
        6 => text(s, ANY_TEXT),
        _ => {
            let k = *s.pick::<&str>(&VALUE_TYPES);
            let p = prop("X-A", typed(s, k, VALUE_TEXT));
            render_value(s, &p, WILD)
        }
    };
    if s.chance(1, 2) {
        r = mutate(s, &r, 3);
    }
    if s.chance(1, 50) {
        r = r.repeat(200);
    }
    r
}

/// Use a card in every way.
pub fn exercise(c: &Vcard) -> Res {
    let out = c.to_string();
    let d = c.clone();
    ensure!(d.to_string() == out, "the clone prints differently");
    let _ = c == &d;
    let _ = d.validate();
    let _ = d.parse_photo_jpeg();
    let _ = format!("{c:?}").len();
    Ok(())
}

fn conversions(b: &str) {
    let _ = helper::parse_utc_offset(b);
    let _ = helper::parse_time(b);
    let _ = helper::parse_time_list(b);
    let _ = helper::parse_date(b);
    let _ = helper::parse_date_list(b);
    let _ = helper::parse_date_time(b);
    let _ = helper::parse_date_time_list(b);
    let _ = helper::parse_timestamp(b);
    let _ = helper::parse_timestamp_list(b);
    let _ = helper::parse_date_and_or_time_list(b);
    let _ = helper::parse_boolean(b);
    let _ = helper::parse_integer_list(b);
    let _ = helper::parse_float_list(b);
    let _ = UriProperty::try_from(b);
    macro_rules! from_str {
        ($($t:ty),*) => { $(if let Ok(v) = b.parse::<$t>() { let _ = (v.to_string(), v == v.clone()); })* };
    }
    from_str!(
        vcard4::Uri, vcard4::Date, vcard4::DateTime, DateAndOrTime, UtcOffsetProperty, DeliveryAddress, ClientPidMap,
        Gender, Sex, Kind, Pid, TypeParameter, TelephoneType, RelatedType, ValueType
    );
}

fn long(s: &mut Src) -> String {
    let n = 20_000 + s.below(60_000) as usize;
    let l = match s.below(5) {
        0 => {
            let unit = *s.pick::<&str>(&["a", "\\", ",", ";", "é", "\"", ":", "\\,", ".", "a;", "1,", " ", "\r\n ", "a=", "%41"]);
            let v = unit.repeat(n);
            match s.below(9) {
                0 => format!("NOTE:{v}"),
                1 => format!("N:{v}"),
                2 => format!("ADR:{v}"),
                3 => format!("NOTE;X-A={v}:x"),
                4 => format!("NOTE;X-A=\"{v}\":x"),
                5 => format!("X-A;VALUE=integer:{v}"),
                6 => format!("BDAY:{v}"),
                7 => format!("URL:http://a/{v}"),
                _ => format!("{v}:x"),
            }
        }
        // A long list of good items
        1 | 2 => {
            let (head, item) = *s.pick::<(&str, &str)>(&[
                ("X-A;VALUE=integer:", "1"),
                ("X-A;VALUE=float:", "1.5"),
                ("NICKNAME:", "a"),
                ("CATEGORIES:", ""),
                ("X-A;VALUE=uri:", "a:b"),
            ]);
            format!("{head}{}{item}", format!("{item},").repeat(n))
        }
        3 => {
            let n = n / 8;
            let (head, item) = *s.pick::<(&str, &str)>(&[
                ("X-A;VALUE=date:", "20200102"),
                ("X-A;VALUE=time:", "10Z"),
                ("X-A;VALUE=date-time:", "20200102T10"),
                ("X-A;VALUE=timestamp:", "20200102T101112Z"),
                ("X-A;VALUE=date-and-or-time:", "--0102"),
                ("BDAY:", "2020"),
            ]);
            format!("{head}{}{item}", format!("{item},").repeat(n))
        }
        // Parameters, properties or lines
        _ => match s.below(8) {
            0 => format!("NOTE;{}TYPE=home:x", "TYPE=home,work;".repeat(n / 4)),
            1 => format!("NOTE;{}PREF=1:x", "X-A=b;".repeat(n / 4)),
            2 => format!("NOTE;TYPE={}home:x", "home,".repeat(n / 2)),
            3 => format!("NOTE;PID={}1:x", "1.1,".repeat(n / 2)),
            4 => format!("{}NOTE:x", "NOTE:a\r\n".repeat(n / 8)),
            5 => format!("{}NOTE:x", "X-A:\r\n".repeat(n / 8)),
            6 => format!("NOTE;SORT-AS={}a:x", "a,".repeat(n / 2)),
            _ => format!("N:{};;;;", "a\\,".repeat(n)),
        },
    };
    match s.below(6) {
        0 => wrap(&["FN:x".into()]).repeat(n / 10),
        1 => format!("{}{}", "\r\n".repeat(n), wrap(&["FN:x".into(), l])),
        _ => wrap(&["FN:x".into(), l]),
    }
}

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    let kind = s.weighted(&[8, 6, 6, 3, 6]);
    let t = match kind {
        0 => border_text(s, cx),
        1 => soup(s),
        2 => {
            let n = s.below(6);
            let l: Vec<String> = (0..n).map(|_| soup(s)).collect();
            wrap(&l)
        }
        3 => {
            let t = border_text(s, cx);
            mutate(s, &t, 40)
        }
        _ => bit(s),
    };
    if s.chance(1, 800) {
        cx.label("long");
        let t = long(s);
        cx.input(&t);
        cx.nontrivial = true;
        // The stack that threads have unless told otherwise
        return std::thread::scope(|scope| {
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn_scoped(scope, || match guarded(|| read_all(&t)) {
                    Ok(r) => r,
                    Err((msg, loc)) => Err(Fail(format!("panic at {loc}: {}", clip(&msg, 500)))),
                })
                .unwrap()
                .join()
                .unwrap_or_else(|_| Err(Fail("panic while unwinding".into())))
        });
    }
    cx.label(["card", "tokens", "tokens in a card", "heavily mutated", "value"][kind]);
    cx.input(&t);
    cx.nontrivial = !t.is_empty();
    if kind == 4 {
        cx.evals = 25;
        conversions(&t);
        for n in ["BDAY", "REV", "TZ;VALUE=utc-offset", "TZ;VALUE=uri", "GEO", "ADR", "N", "CLIENTPIDMAP", "GENDER", "NOTE;TZ", "NOTE;PID", "NOTE;GEO", "NOTE;TYPE", "TEL", "PHOTO;TYPE=JPEG;ENCODING=b"] {
            let sep = if n.starts_with("NOTE") { "=" } else { ":" };
            let end = if n.starts_with("NOTE") { ":x" } else { "" };
            let w = wrap(&["FN:x".into(), format!("{n}{sep}{t}{end}")]);
            for c in vcard4::parse(&w).into_iter().flatten() {
                cx.label("accepted");
                exercise(&c)?;
            }
        }
        for v in VALUE_TYPES {
            let w = wrap(&["FN:x".into(), format!("X-A;VALUE={v}:{t}")]);
            for c in vcard4::parse_loose(&w).into_iter().flatten() {
                exercise(&c)?;
            }
        }
    }
    cx.label_if(vcard4::parse(&t).is_ok(), "accepted");
    cx.label_if(vcard4::parse_loose(&t).is_ok(), "accepted loosely");
    read_all(&t)
}

/// Read the text in every way and use what comes out.
fn read_all(t: &str) -> Res {
    for c in vcard4::parse(t).into_iter().flatten() {
        exercise(&c)?;
    }
    for c in vcard4::parse_loose(t).into_iter().flatten() {
        exercise(&c)?;
    }
    for strict in [true, false] {
        for c in iterate(t, strict)?.into_iter().flatten() {
            exercise(&c)?;
        }
    }
    let _ = Vcard::try_from(t);
    Ok(())
}

pub const SPEC: Spec = Spec {
    id: "C12",
    check,
    quick: 60_000,
    thorough: 4_000_000,
    rule: "texts of cards with unusual lines or edits, token sequences bare or in a card, heavily edited texts, value \
           texts (dates, offsets, numbers, URIs, parameters with edits, any Unicode) given to every conversion, every \
           property and every VALUE, and values of up to 240000 characters; each through parse, parse_loose, both \
           iterations and try_from, and every card obtained is printed, cloned, compared, validated, searched for \
           photos and dropped, with overflow checks; non-trivial: not empty",
    must_see: &["card", "tokens", "tokens in a card", "heavily mutated", "value", "accepted", "accepted loosely"],
    serial: false,
};
