//! Spellings of dates and times, and an independent strict reader of the RFC 6350 forms.
use crate::engine::Src;
use crate::genr::days_in;
use crate::model::*;

// Spellings

/// Every spelling of a date. `list_item` is true where a comma would end the value.
pub fn date_spellings(d: D) -> Vec<String> {
    let D { y, m, d } = d;
    let mut v = vec![format!("{y:04}{m:02}{d:02}"), format!("{y:04}-{m:02}-{d:02}")];
    if d == 1 {
        v.push(format!("{y:04}-{m:02}"));
        if m == 1 {
            v.push(format!("{y:04}"));
        }
    }
    if y == 0 {
        v.push(format!("--{m:02}{d:02}"));
        if d == 1 {
            v.push(format!("--{m:02}"));
        }
        if m == 1 {
            v.push(format!("---{d:02}"));
        }
    }
    v
}
pub fn zone_spellings(off: i32) -> Vec<String> {
    let (sign, a) = if off < 0 { ('-', -off) } else { ('+', off) };
    let mut v = vec![format!("{sign}{:02}{:02}", a / 3600, a / 60 % 60)];
    if a % 3600 == 0 {
        v.push(format!("{sign}{:02}", a / 3600));
    }
    if off == 0 {
        v.extend(["Z".to_string(), String::new(), "-0000".into(), "-00".into()]);
    }
    v
}
/// Spellings of the UTC offset type, which has no omitted form.
pub fn offset_spellings(off: i32) -> Vec<String> {
    zone_spellings(off).into_iter().filter(|z| !z.is_empty()).collect()
}
/// Spellings of a time without zone.
pub fn clock_spellings(t: T, truncated: bool) -> Vec<String> {
    let T { h, m, s, .. } = t;
    let mut v = vec![format!("{h:02}{m:02}{s:02}"), format!("{h:02}:{m:02}:{s:02}")];
    if s == 0 {
        v.push(format!("{h:02}{m:02}"));
        v.push(format!("{h:02}:{m:02}"));
        if m == 0 {
            v.push(format!("{h:02}"));
        }
    }
    if truncated && h == 0 {
        v.push(format!("-{m:02}{s:02}"));
        if s == 0 {
            v.push(format!("-{m:02}"));
        }
        if m == 0 {
            v.push(format!("--{s:02}"));
        }
    }
    v
}
pub fn spell_date(s: &mut Src, d: D) -> String {
    let v = date_spellings(d);
    s.pick(&v).clone()
}
pub fn spell_time(s: &mut Src, t: T, truncated: bool) -> String {
    let c = clock_spellings(t, truncated);
    let z = zone_spellings(t.off);
    format!("{}{}", s.pick(&c), s.pick(&z))
}
pub fn spell_dt(s: &mut Src, d: DT) -> String {
    format!("{}T{}", spell_date(s, d.d), spell_time(s, d.t, false))
}
pub fn spell_stamp(s: &mut Src, d: DT) -> String {
    let z = zone_spellings(d.t.off);
    format!(
        "{:04}{:02}{:02}T{:02}{:02}{:02}{}",
        d.d.y,
        d.d.m,
        d.d.d,
        d.t.h,
        d.t.m,
        d.t.s,
        s.pick(&z)
    )
}
pub fn spell_dot(s: &mut Src, d: &DoT) -> String {
    match *d {
        DoT::D(d) => spell_date(s, d),
        DoT::T(t) => format!("T{}", spell_time(s, t, true)),
        DoT::DT(d) => spell_dt(s, d),
    }
}
pub fn spell_offset(s: &mut Src, o: i32) -> String {
    let v = offset_spellings(o);
    s.pick(&v).clone()
}

// Strict reader of the complete basic forms, those the library prints

fn num(s: &str) -> Option<u32> {
    if !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit()) { s.parse().ok() } else { None }
}
pub fn read_date(s: &str) -> Option<D> {
    if s.len() != 8 || !s.is_ascii() {
        return None;
    }
    let (y, m, d) = (num(&s[..4])?, num(&s[4..6])?, num(&s[6..])?);
    if !(1..=12).contains(&m) || d < 1 || d > days_in(y as i32, m as u8) as u32 {
        return None;
    }
    Some(D { y: y as i32, m: m as u8, d: d as u8 })
}
/// Offset: Z or ±HHMM.
pub fn read_zone(s: &str) -> Option<i32> {
    if s == "Z" {
        return Some(0);
    }
    if s.len() != 5 || !s.is_ascii() {
        return None;
    }
    let sign = match &s[..1] {
        "+" => 1,
        "-" => -1,
        _ => return None,
    };
    let (h, m) = (num(&s[1..3])?, num(&s[3..])?);
    if h > 23 || m > 59 {
        return None;
    }
    Some(sign * (h * 3600 + m * 60) as i32)
}
/// HHMMSS with a zone.
pub fn read_time(s: &str) -> Option<T> {
    if s.len() < 7 || !s.is_ascii() {
        return None;
    }
    let (h, m, sec) = (num(&s[..2])?, num(&s[2..4])?, num(&s[4..6])?);
    if h > 23 || m > 59 || sec > 59 {
        return None;
    }
    Some(T { h: h as u8, m: m as u8, s: sec as u8, ns: 0, off: read_zone(&s[6..])? })
}
pub fn read_dt(s: &str) -> Option<DT> {
    let (d, t) = s.split_once('T')?;
    Some(DT { d: read_date(d)?, t: read_time(t)? })
}
pub fn read_dot(s: &str) -> Option<DoT> {
    if let Some(t) = s.strip_prefix('T') {
        return read_time(t).map(DoT::T);
    }
    if s.contains('T') { read_dt(s).map(DoT::DT) } else { read_date(s).map(DoT::D) }
}

// Reader of every spelling

/// Digits in place of d, other characters as they are.
fn shaped(t: &str, shape: &str) -> bool {
    t.len() == shape.len()
        && t.bytes().zip(shape.bytes()).all(|(a, b)| if b == b'd' { a.is_ascii_digit() } else { a == b })
}
fn part(t: &str, from: usize, len: usize) -> i64 {
    t[from..from + len].parse().unwrap()
}
fn some_date(y: i64, m: i64, d: i64) -> Option<D> {
    if !(1..=12).contains(&m) || d < 1 || d > days_in(y as i32, m as u8) as i64 {
        return None;
    }
    Some(D { y: y as i32, m: m as u8, d: d as u8 })
}
/// A date in any spelling.
pub fn any_date(t: &str) -> Option<D> {
    if shaped(t, "dddddddd") {
        some_date(part(t, 0, 4), part(t, 4, 2), part(t, 6, 2))
    } else if shaped(t, "dddd-dd-dd") {
        some_date(part(t, 0, 4), part(t, 5, 2), part(t, 8, 2))
    } else if shaped(t, "dddd-dd") {
        some_date(part(t, 0, 4), part(t, 5, 2), 1)
    } else if shaped(t, "dddd") {
        some_date(part(t, 0, 4), 1, 1)
    } else if shaped(t, "--dddd") {
        some_date(0, part(t, 2, 2), part(t, 4, 2))
    } else if shaped(t, "--dd") {
        some_date(0, part(t, 2, 2), 1)
    } else if shaped(t, "---dd") {
        some_date(0, 1, part(t, 3, 2))
    } else {
        None
    }
}
/// An offset in any spelling, without the omitted one.
pub fn any_offset(t: &str) -> Option<i32> {
    let sign = if t.starts_with('-') { -1 } else { 1 };
    let t = t.replacen('-', "+", 1);
    let (h, m) = if shaped(&t, "+dddd") {
        (part(&t, 1, 2), part(&t, 3, 2))
    } else if shaped(&t, "+dd") {
        (part(&t, 1, 2), 0)
    } else {
        return (t == "Z").then_some(0);
    };
    (h < 24 && m < 60).then_some(sign * (h * 3600 + m * 60) as i32)
}
/// A time in any spelling.
pub fn any_time(t: &str, truncated: bool) -> Option<T> {
    // The zone starts at a sign that is not one of omitted parts
    let lead = t.bytes().take_while(|c| *c == b'-').count();
    let zone = t[lead..].find(['Z', '+', '-']).map_or(t.len(), |i| i + lead);
    let (c, z) = (&t[..zone], &t[zone..]);
    let (h, m, s) = if shaped(c, "dddddd") {
        (part(c, 0, 2), part(c, 2, 2), part(c, 4, 2))
    } else if shaped(c, "dd:dd:dd") {
        (part(c, 0, 2), part(c, 3, 2), part(c, 6, 2))
    } else if shaped(c, "dddd") {
        (part(c, 0, 2), part(c, 2, 2), 0)
    } else if shaped(c, "dd:dd") {
        (part(c, 0, 2), part(c, 3, 2), 0)
    } else if shaped(c, "dd") {
        (part(c, 0, 2), 0, 0)
    } else if truncated && shaped(c, "-dddd") {
        (0, part(c, 1, 2), part(c, 3, 2))
    } else if truncated && shaped(c, "-dd") {
        (0, part(c, 1, 2), 0)
    } else if truncated && shaped(c, "--dd") {
        (0, 0, part(c, 2, 2))
    } else {
        return None;
    };
    if h > 23 || m > 59 || s > 59 {
        return None;
    }
    let off = if z.is_empty() { 0 } else { any_offset(z)? };
    Some(T { h: h as u8, m: m as u8, s: s as u8, ns: 0, off })
}
pub fn any_dt(t: &str) -> Option<DT> {
    let (d, t) = t.split_once('T')?;
    Some(DT { d: any_date(d)?, t: any_time(t, false)? })
}
pub fn any_stamp(t: &str) -> Option<DT> {
    let (d, c) = t.split_once('T')?;
    if d.len() != 8 || c.len() < 6 || !shaped(c.get(..6)?, "dddddd") {
        return None;
    }
    any_dt(t)
}
pub fn any_dot(t: &str) -> Option<DoT> {
    if let Some(t) = t.strip_prefix('T') {
        return any_time(t, true).map(DoT::T);
    }
    if t.contains('T') { any_dt(t).map(DoT::DT) } else { any_date(t).map(DoT::D) }
}
/// A single item of a type.
pub fn any_item(kind: &str, t: &str) -> Option<Val> {
    Some(match kind {
        "date" => Val::Dates(vec![any_date(t)?]),
        "time" => Val::Times(vec![any_time(t, true)?]),
        "date-time" => Val::DateTimes(vec![any_dt(t)?]),
        "timestamp" => Val::Stamps(vec![any_stamp(t)?]),
        "date-and-or-time" => Val::DoT(vec![any_dot(t)?]),
        _ => Val::Offset(any_offset(t)?),
    })
}
