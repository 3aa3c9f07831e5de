//! Spellings of dates and times against the value they were made from, and spellings of nothing.
use super::*;
use crate::dates::*;
use vcard4::helper;

const KINDS: [&str; 7] = ["date", "time", "date-time", "timestamp", "date-and-or-time", "utc-offset", "date"];

fn spell(s: &mut Src, v: &Val) -> Vec<String> {
    match v {
        Val::Dates(l) => l.iter().map(|d| spell_date(s, *d)).collect(),
        Val::Times(l) => l.iter().map(|d| spell_time(s, *d, true)).collect(),
        Val::DateTimes(l) => l.iter().map(|d| spell_dt(s, *d)).collect(),
        Val::Stamps(l) => l.iter().map(|d| spell_stamp(s, *d)).collect(),
        Val::DoT(l) => l.iter().map(|d| spell_dot(s, d)).collect(),
        Val::Offset(o) => vec![spell_offset(s, *o)],
        v => panic!("{v:?}"),
    }
}

/// Decode through the helper functions.
fn helper(kind: &str, t: &str) -> Result<Val, String> {
    let e = |e: vcard4::Error| e.to_string();
    Ok(match kind {
        "date" => Val::Dates(helper::parse_date_list(t).map_err(e)?.into_iter().map(|d| l_date(&d)).collect()),
        "time" => Val::Times(helper::parse_time_list(t).map_err(e)?.iter().map(|(t, o)| l_time(t, o)).collect()),
        "date-time" => Val::DateTimes(helper::parse_date_time_list(t).map_err(e)?.iter().map(l_dt).collect()),
        "timestamp" => Val::Stamps(helper::parse_timestamp_list(t).map_err(e)?.iter().map(l_dt).collect()),
        "date-and-or-time" => {
            Val::DoT(helper::parse_date_and_or_time_list(t).map_err(e)?.iter().map(l_dot).collect())
        }
        _ => Val::Offset(helper::parse_utc_offset(t).map_err(e)?.whole_seconds()),
    })
}
fn helper_one(kind: &str, t: &str) -> Result<Val, String> {
    let e = |e: vcard4::Error| e.to_string();
    Ok(match kind {
        "date" => Val::Dates(vec![l_date(&helper::parse_date(t).map_err(e)?)]),
        "time" => {
            let (t, o) = helper::parse_time(t).map_err(e)?;
            Val::Times(vec![l_time(&t, &o)])
        }
        "date-time" => Val::DateTimes(vec![l_dt(&helper::parse_date_time(t).map_err(e)?)]),
        "timestamp" => Val::Stamps(vec![l_dt(&helper::parse_timestamp(t).map_err(e)?)]),
        "date-and-or-time" => {
            let d: vcard4::property::DateAndOrTime = t.parse().map_err(e)?;
            Val::DoT(vec![l_dot(&d)])
        }
        _ => {
            let p: vcard4::property::UtcOffsetProperty = t.parse().map_err(e)?;
            Val::Offset(p.value.whole_seconds())
        }
    })
}

/// A property line for a value.
fn line(s: &mut Src, kind: &str, t: &str, items: usize) -> (String, &'static str) {
    match (kind, s.below(3)) {
        ("date-and-or-time", 0) => (format!("BDAY:{t}"), "BDAY"),
        ("date-and-or-time", 1) => (format!("ANNIVERSARY;VALUE=date-and-or-time:{t}"), "ANNIVERSARY"),
        ("timestamp", 0 | 1) if items == 1 => (format!("REV:{t}"), "REV"),
        ("utc-offset", 0) => (format!("TZ;VALUE=utc-offset:{t}"), "TZ"),
        _ => (format!("X-V;VALUE={kind}:{t}"), "X-V"),
    }
}

fn invalid_date(s: &mut Src) -> String {
    let D { y, m, d } = gdate(s);
    let (m, d) = match s.below(4) {
        0 => (0, d),
        1 => (s.range(13, 99) as u8, d),
        2 => (m, 0),
        _ => {
            let first = days_in(y, m) as i64 + 1;
            let last = if s.chance(1, 2) { 99 } else { first };
            (m, s.range(first, last) as u8)
        }
    };
    if s.chance(1, 2) { format!("{y:04}{m:02}{d:02}") } else { format!("{y:04}-{m:02}-{d:02}") }
}
fn invalid_time(s: &mut Src) -> String {
    let t = gtime(s);
    let (mut h, mut m, mut x) = (t.h, t.m, t.s);
    let z = spell_zone(s, t.off);
    match s.below(4) {
        0 => h = s.range(24, 99) as u8,
        1 => m = s.range(60, 99) as u8,
        2 => x = s.range(61, 99) as u8,
        _ => {
            let c = clock_spellings(t, false);
            return format!("{}{}", s.pick(&c), invalid_zone(s));
        }
    }
    if s.chance(1, 2) { format!("{h:02}{m:02}{x:02}{z}") } else { format!("{h:02}:{m:02}:{x:02}{z}") }
}
fn spell_zone(s: &mut Src, off: i32) -> String {
    let z = zone_spellings(off);
    s.pick(&z).clone()
}
fn invalid_zone(s: &mut Src) -> String {
    let sign = *s.pick::<&str>(&["+", "-"]);
    match s.below(5) {
        0 => format!("{sign}{:02}{:02}", s.range(26, 99), s.below(60)),
        1 => format!("{sign}{:02}{:02}", s.below(24), s.range(60, 99)),
        2 => sign.to_string(),
        3 => format!("{sign}{}x", s.range(10, 23)),
        _ => format!("{sign}{:02}{:02}{}", s.below(24), s.below(60), s.pick::<&str>(&["0", "Z", " ", "x", "+01"])),
    }
}
fn junk(s: &mut Src, t: &str) -> String {
    let j = *s.pick::<&str>(&["x", " ", ";", "T", "é", "日", "/", ".", "\\n", "!"]);
    // A leading T is part of the ISO 8601 form of a time
    if j == "T" || s.chance(1, 2) { format!("{t}{j}") } else { format!("{j}{t}") }
}

/// A text of the type that denotes nothing.
fn invalid(s: &mut Src, kind: &str) -> String {
    let complete_t = |s: &mut Src| {
        let t = gtime(s);
        format!("{:02}{:02}{:02}{}", t.h, t.m, t.s, spell_zone(s, t.off))
    };
    match kind {
        "date" => match s.below(5) {
            0 => String::new(),
            1 => {
                let d = gdate(s);
                let t = spell_date(s, d);
                junk(s, &t)
            }
            2 => s.pick::<&str>(&["today", "20", "2020-", "abcd-01-01", "2020/01/01", "--", "-", "---", "T102200"]).to_string(),
            _ => invalid_date(s),
        },
        "time" => match s.below(5) {
            0 => String::new(),
            1 => {
                let t = complete_t(s);
                junk(s, &t)
            }
            2 => s.pick::<&str>(&["noon", "1", "10:2", "--", "-", "10.22.00x", "Z", "+0100", "::"]).to_string(),
            _ => invalid_time(s),
        },
        "date-time" | "timestamp" => match s.below(6) {
            0 => String::new(),
            1 => {
                let d = gdt(s);
                let t = format!("{}T{}", date_spellings(d.d)[0], complete_t(s));
                junk(s, &t)
            }
            2 => {
                let d = gdate(s);
                let t = complete_t(s);
                // No separator, or not the right one
                format!("{}{}{t}", date_spellings(d)[0], s.pick::<&str>(&[" ", "", "t", "-"]))
            }
            3 => {
                let d = gdate(s);
                date_spellings(d)[0].clone()
            }
            4 => {
                let d = invalid_date(s);
                let d = if kind == "timestamp" { d.replace('-', "") } else { d };
                format!("{d}T{}", complete_t(s))
            }
            _ => {
                let d = gdate(s);
                let t = invalid_time(s);
                let t = if kind == "timestamp" { t.replace(':', "") } else { t };
                format!("{}T{t}", date_spellings(d)[0])
            }
        },
        "date-and-or-time" => match s.below(5) {
            0 => String::new(),
            1 => format!("T{}", invalid_time(s)),
            2 => invalid_date(s),
            3 => {
                let t = invalid(s, "date-time");
                if read_dot(&t).is_some() || !t.contains('T') { format!("{t}x") } else { t }
            }
            _ => {
                let d = gdot(s);
                let t = spell_dot(s, &d);
                junk(s, &t)
            }
        },
        _ => match s.below(3) {
            0 => s.pick::<&str>(&["", "z", "0100", "UTC", "+", "-", "+1x", "Z0", "+01:0x", "A"]).to_string(),
            1 => invalid_zone(s),
            _ => {
                let o = goff(s);
                let t = spell_offset(s, o);
                junk(s, &t)
            }
        },
    }
}

/// A spelling with one character changed.
pub fn near(s: &mut Src, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    let n = 1 + s.weighted(&[4, 1]);
    for _ in 0..n {
        let x = *s.pick(&['0', '1', '2', '3', '5', '6', '9', '-', '+', ':', 'T', 'Z', '/', ' ', '.', 'x', '_']);
        let at = s.below(c.len() as u64 + 1) as usize;
        match s.below(4) {
            0 if at < c.len() => {
                c.remove(at);
            }
            1 => c.insert(at, x),
            2 if at + 1 < c.len() => c.swap(at, at + 1),
            _ if at < c.len() => c[at] = x,
            _ => {}
        }
    }
    c.into_iter().collect()
}

/// Neighbours of spellings: either a spelling of another value or of nothing.
fn check_near(s: &mut Src, cx: &mut Ctx) -> Res {
    let kind = *s.pick::<&str>(&KINDS);
    // Of the type, or of another one
    let of = if s.chance(1, 4) { *s.pick::<&str>(&KINDS) } else { kind };
    let v = typed(s, of, VALUE_TEXT);
    let first = spell(s, &v).remove(0);
    let t = if of != kind && s.chance(1, 2) { first } else { near(s, &first) };
    cx.label("near");
    cx.nontrivial = true;
    let (l, name) = line(s, kind, &t, 1);
    let text = wrap(&["FN:x".into(), l]);
    cx.input(&text);
    match any_item(kind, &t) {
        Some(v) => {
            cx.label("near: another spelling");
            match helper_one(kind, &t) {
                Ok(g) => ensure!(g == v, "{kind} {t:?} is read as {g:?}, expected {v:?}"),
                Err(e) => fail!("{kind} {t:?}: {e}"),
            }
            ensure!(strict(&text).is_ok(), "{name} {t:?} is rejected");
        }
        None if lenient(kind, &t) => cx.label("near: not specified"),
        None => {
            cx.label("near: nothing");
            if let Ok(v) = helper_one(kind, &t) {
                fail!("{kind} {t:?} is read as {v:?}");
            }
            expect_err(&text, &format!("{name} with {kind} {t:?}"))?;
        }
    }
    Ok(())
}

/// Forms outside RFC 6350 that the library may read: week and ordinal dates, signed years, fractions, a T before a time,
/// leap seconds and offsets of a day and more.
fn lenient(kind: &str, t: &str) -> bool {
    debug_assert!(t.is_ascii());
    let zone_over = |t: &str| {
        let at = t.len().saturating_sub(5);
        [at, t.len().saturating_sub(3)].iter().any(|i| {
            t.get(*i..).is_some_and(|z| ["+24", "-24", "+25", "-25"].iter().any(|o| z.starts_with(o)))
        })
    };
    let date = |d: &str| {
        let digits = |d: &str| d.bytes().all(|c| c.is_ascii_digit());
        // Year and day, year and week, with and without hyphens
        any_date(d).is_some()
            || d.starts_with('+')
            || d.len() == 8 && digits(&d[..4]) && &d[4..5] == "-" && digits(&d[5..])
            || d.len() == 7 && digits(d)
            || d.contains('W')
    };
    let time = |t: &str| {
        let t = t.strip_prefix('T').unwrap_or(t);
        any_time(t, true).is_some() || t.contains(['.', ',']) || t.contains("60") || t.starts_with("24") || zone_over(t)
    };
    let dt = |t: &str| t.split_once('T').is_some_and(|(d, t)| date(d) && time(t));
    match kind {
        "date" => date(t),
        "time" => time(t),
        "date-time" => dt(t),
        "timestamp" => {
            // A signed year
            let d = t.strip_prefix(['+', '-']).unwrap_or(t);
            d.get(8..9) == Some("T") && dt(d)
        }
        // The T of a time and another one
        "date-and-or-time" => dt(t) || date(t) || time(t.strip_prefix('T').unwrap_or(t)),
        _ => zone_over(t),
    }
}

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    if s.chance(1, 3) {
        return check_near(s, cx);
    }
    let kind = *s.pick::<&str>(&KINDS);
    let v = typed(s, kind, VALUE_TEXT);
    let mut items = spell(s, &v);
    if s.chance(1, 3) {
        // One of the items denotes nothing
        cx.label("invalid");
        let bad = invalid(s, kind);
        let n = items.len();
        let at = s.below(n as u64) as usize;
        if bad.is_empty() && n > 1 {
            cx.label("empty item");
        }
        items[at] = bad.clone();
        let t = items.join(",");
        let (l, name) = line(s, kind, &t, n);
        let text = wrap(&["FN:x".into(), l]);
        cx.input(&text);
        cx.nontrivial = true;
        if let Ok(v) = helper(kind, &t) {
            fail!("helper reads {kind} {t:?} as {v:?}");
        }
        if let Ok(v) = helper_one(kind, &bad) {
            fail!("{kind} {bad:?} is read as {v:?}");
        }
        return expect_err(&text, &format!("{name} with {kind} {t:?}"));
    }
    let t = items.join(",");
    let (l, name) = line(s, kind, &t, items.len());
    let text = wrap(&["FN:x".into(), l]);
    cx.input(&text);
    cx.nontrivial = true;
    cx.label_if(items.len() > 1, "list");
    cx.label_if(t.contains("--"), "omitted parts");
    cx.label_if(t.contains("-00") && kind == "utc-offset", "negative offset below an hour");
    match helper(kind, &t) {
        Ok(g) => ensure!(g == v, "helper reads {kind} {t:?} as {g:?}, expected {v:?}"),
        Err(e) => fail!("helper: {kind} {t:?}: {e}"),
    }
    if items.len() == 1 {
        match helper_one(kind, &t) {
            Ok(g) => ensure!(g == v, "{kind} {t:?} is read as {g:?}, expected {v:?}"),
            Err(e) => fail!("{kind} {t:?}: {e}"),
        }
    }
    match strict(&text) {
        Ok(c) => {
            let p = c[0].iter().find(|p| p.name == name);
            let want = match (&v, name) {
                (Val::Stamps(l), "REV") => Val::Stamp(l[0]),
                _ => v.clone(),
            };
            ensure!(p.is_some_and(|p| p.val == want), "{name} {t:?} is read as {p:?}, expected {want:?}");
            Ok(())
        }
        Err(e) => fail!("{name} {t:?}: {e}"),
    }
}

pub const SPEC: Spec = Spec {
    id: "C03",
    check,
    quick: 1_500_000,
    thorough: 60_000_000,
    rule: "calendar values (years 0-9999, month ends, leap days, offsets of any minute) in every supported spelling, \
           single and in lists, through the helper functions and as property values; one third are corrupted to denote \
           nothing and have to be rejected; one third are spellings with one or two characters changed, or of another type, \
           which an independent reader of the grammar tells to be another value or nothing; non-trivial: all",
    must_see: &["near: another spelling", "near: nothing", "invalid", "empty item", "list", "omitted parts", "negative offset below an hour"],
    serial: false,
};
