//! Independent reader of printed cards: RFC 6350 content lines with the conventions the library documents.
//! It shares no code with the library and accepts only the printed (canonical) form.
use crate::dates::*;
use crate::model::*;
use unicode_segmentation::UnicodeSegmentation;

/// Unfolded content lines of a printed card, after checking the physical form.
pub fn lines(out: &str) -> Result<Vec<String>, String> {
    if !out.ends_with("\r\n") {
        return Err("does not end with CRLF".into());
    }
    let bare = out.replace("\r\n", "");
    if bare.contains(['\r', '\n']) {
        return Err("CR or LF that is not a line ending".into());
    }
    let mut logical: Vec<String> = Vec::new();
    let mut cuts: Vec<Vec<usize>> = Vec::new();
    for (i, l) in out[..out.len() - 2].split("\r\n").enumerate() {
        if let Some(rest) = l.strip_prefix([' ', '\t']) {
            if !l.starts_with(' ') {
                return Err(format!("continuation line {i} starts with a tab"));
            }
            if i == 0 {
                return Err("starts with a continuation".into());
            }
            if rest.is_empty() {
                return Err(format!("empty continuation line {i}"));
            }
            cuts.last_mut().unwrap().push(logical.last().unwrap().len());
            logical.last_mut().unwrap().push_str(rest);
        } else {
            if l.is_empty() {
                return Err(format!("empty line {i}"));
            }
            logical.push(l.to_string());
            cuts.push(Vec::new());
        }
        if l.len() > 75 {
            let rest = l.strip_prefix(' ').unwrap_or(l);
            if UnicodeSegmentation::graphemes(rest, true).count() > 1 {
                return Err(format!("line {i} has {} octets", l.len()));
            }
        }
    }
    for (l, cuts) in logical.iter().zip(&cuts) {
        if !cuts.is_empty() {
            let bounds: std::collections::HashSet<usize> =
                UnicodeSegmentation::grapheme_indices(&l[..], true).map(|(i, _)| i).collect();
            for c in cuts {
                if !bounds.contains(c) {
                    return Err(format!("fold inside a grapheme at octet {c} of {l:?}"));
                }
            }
        }
    }
    Ok(logical)
}

fn name_ok(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'-')
}

pub struct Line {
    pub group: Option<String>,
    pub name: String,
    /// Name, raw value, quoted
    pub params: Vec<(String, String, bool)>,
    pub value: String,
}

/// Split a content line.
pub fn split_line(l: &str) -> Result<Line, String> {
    let end = l.find([';', ':']).ok_or("no delimiter")?;
    let full = &l[..end];
    let (group, name) = match full.split_once('.') {
        Some((g, n)) => (Some(g.to_string()), n),
        None => (None, full),
    };
    if !name_ok(name) || group.as_ref().is_some_and(|g| !name_ok(g)) {
        return Err(format!("name {full:?}"));
    }
    let mut rest = &l[end..];
    let mut params = Vec::new();
    while let Some(r) = rest.strip_prefix(';') {
        let eq = r.find('=').ok_or("parameter without =")?;
        let key = &r[..eq];
        if !name_ok(key) {
            return Err(format!("parameter name {key:?}"));
        }
        let v = &r[eq + 1..];
        if let Some(q) = v.strip_prefix('"') {
            let n = q.find('"').ok_or("quote without end")?;
            params.push((key.to_string(), q[..n].to_string(), true));
            rest = &q[n + 1..];
        } else {
            let mut esc = false;
            let mut n = None;
            for (i, c) in v.char_indices() {
                if c == ':' || c == ';' && !esc {
                    n = Some(i);
                    break;
                }
                esc = c == '\\' && !esc;
            }
            let n = n.ok_or("parameter without end")?;
            params.push((key.to_string(), v[..n].to_string(), false));
            rest = &v[n..];
        }
    }
    let value = rest.strip_prefix(':').ok_or_else(|| format!("expected a colon at {rest:?}"))?;
    Ok(Line { group, name: name.to_string(), params, value: value.to_string() })
}

/// Undo the escapes; what is not an escape is an error.
pub fn unescape(s: &str) -> Result<String, String> {
    let mut r = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            r.push(match it.next() {
                Some('\\') => '\\',
                Some('n') => '\n',
                Some(',') => ',',
                Some(';') => ';',
                o => return Err(format!("escape {o:?} in {s:?}")),
            });
        } else {
            r.push(c);
        }
    }
    Ok(r)
}
/// Split at a delimiter that is not escaped, items are raw.
pub fn split_raw(s: &str, d: char) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            v.last_mut().unwrap().push(c);
            if let Some(n) = it.next() {
                v.last_mut().unwrap().push(n);
            }
        } else if c == d {
            v.push(String::new());
        } else {
            v.last_mut().unwrap().push(c);
        }
    }
    v
}
fn split(s: &str, d: char) -> Result<Vec<String>, String> {
    split_raw(s, d).iter().map(|s| unescape(s)).collect()
}

fn read_type(s: String) -> Result<String, String> {
    if s == "home" || s == "work" || TEL_TYPES.contains(&&s[..]) || REL_TYPES.contains(&&s[..]) || s.starts_with("X-")
    {
        Ok(s)
    } else {
        Err(format!("TYPE {s:?}"))
    }
}

fn read_params(l: &Line) -> Result<Params, String> {
    let mut p = Params::default();
    for (k, raw, quoted) in &l.params {
        let one = || unescape(raw);
        let dup = |b: bool| if b { Err(format!("parameter {k} twice")) } else { Ok(()) };
        match &k[..] {
            "LANGUAGE" => {
                dup(p.language.is_some())?;
                p.language = Some(one()?)
            }
            "VALUE" => {
                dup(p.value.is_some())?;
                p.value = Some(VALUE_TYPES.iter().find(|v| *v == raw).ok_or_else(|| format!("VALUE {raw}"))?)
            }
            "PREF" => {
                dup(p.pref.is_some())?;
                let n: u8 = raw.parse().map_err(|_| format!("PREF {raw}"))?;
                if n.to_string() != *raw || !(1..=100).contains(&n) {
                    return Err(format!("PREF {raw}"));
                }
                p.pref = Some(n)
            }
            "ALTID" => {
                dup(p.altid.is_some())?;
                p.altid = Some(one()?)
            }
            "PID" => {
                dup(p.pid.is_some())?;
                let mut v = Vec::new();
                for item in raw.split(',') {
                    let n = |s: &str| -> Result<u64, String> {
                        let n: u64 = s.parse().map_err(|_| format!("PID {raw}"))?;
                        if n.to_string() == s { Ok(n) } else { Err(format!("PID {raw}")) }
                    };
                    v.push(match item.split_once('.') {
                        Some((a, b)) => (n(a)?, Some(n(b)?)),
                        None => (n(item)?, None),
                    });
                }
                p.pid = Some(v)
            }
            "TYPE" => {
                dup(p.types.is_some())?;
                p.types = Some(split(raw, ',')?.into_iter().map(read_type).collect::<Result<_, _>>()?)
            }
            "MEDIATYPE" => {
                dup(p.mediatype.is_some())?;
                p.mediatype = Some(one()?)
            }
            "CALSCALE" => {
                dup(p.calscale.is_some())?;
                p.calscale = Some(one()?)
            }
            "SORT-AS" => {
                dup(p.sort_as.is_some())?;
                p.sort_as = Some(split(raw, ',')?)
            }
            "GEO" => {
                dup(p.geo.is_some())?;
                if !quoted {
                    return Err("GEO not quoted".into());
                }
                p.geo = Some(one()?)
            }
            "TZ" => {
                dup(p.tz.is_some())?;
                p.tz = Some(if *quoted {
                    Tz::Uri(raw.clone())
                } else if let Some(o) = read_zone(raw) {
                    Tz::Offset(o)
                } else {
                    Tz::Text(one()?)
                })
            }
            "LABEL" => {
                dup(p.label.is_some())?;
                p.label = Some(one()?)
            }
            k if k.to_ascii_uppercase().starts_with("X-") || k == "ENCODING" => {
                p.ext.push((k.to_string(), split(raw, ',')?))
            }
            k => return Err(format!("parameter {k}")),
        }
    }
    Ok(p)
}

fn each<X>(s: &str, f: impl Fn(&str) -> Option<X>) -> Result<Vec<X>, String> {
    s.split(',').map(|i| f(i).ok_or_else(|| format!("item {i:?} of {s:?}"))).collect()
}
fn canon<X: std::str::FromStr + ToString>(s: &str) -> Option<X> {
    s.parse::<X>().ok().filter(|n| n.to_string() == s)
}

pub fn read_typed(v: &str, raw: &str) -> Result<Val, String> {
    Ok(match v {
        "text" => Val::Text(unescape(raw)?),
        "uri" => Val::Uri(raw.into()),
        "date" => Val::Dates(each(raw, read_date)?),
        "time" => Val::Times(each(raw, read_time)?),
        "date-time" => Val::DateTimes(each(raw, read_dt)?),
        "date-and-or-time" => Val::DoT(each(raw, read_dot)?),
        "timestamp" => Val::Stamps(each(raw, read_dt)?),
        "boolean" => Val::Bool(match raw {
            "true" => true,
            "false" => false,
            _ => return Err(format!("boolean {raw:?}")),
        }),
        "integer" => Val::Int(each(raw, canon)?),
        "float" => Val::Float(each(raw, |i| {
            let body = i.strip_prefix('-').unwrap_or(i);
            let (a, b) = body.split_once('.').unwrap_or((body, "0"));
            let digits = |s: &str| !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit());
            if digits(a) && digits(b) { i.parse::<f64>().ok().map(|f| f.to_bits()) } else { None }
        })?),
        "utc-offset" => Val::Offset(read_zone(raw).ok_or_else(|| format!("offset {raw:?}"))?),
        _ => Val::Lang(unescape(raw)?),
    })
}

fn read_value(l: &Line, p: &Params) -> Result<Val, String> {
    let raw = &l.value[..];
    let text = || unescape(raw).map(Val::Text);
    let has_scheme = |s: &str| {
        s.split_once(':').is_some_and(|(a, _)| {
            a.starts_with(|c: char| c.is_ascii_alphabetic())
                && a.bytes().all(|c| c.is_ascii_alphanumeric() || b"+-.".contains(&c))
        })
    };
    match &l.name[..] {
        "XML" | "FN" | "NICKNAME" | "TITLE" | "ROLE" | "EMAIL" | "NOTE" | "PRODID" => text(),
        "SOURCE" | "URL" | "LOGO" | "MEMBER" | "IMPP" | "GEO" | "SOUND" | "FBURL" | "CALADRURI" | "CALURI" => {
            Ok(Val::Uri(raw.into()))
        }
        "KIND" => KINDS.iter().find(|k| **k == raw).map(|k| Val::Kind(k)).ok_or_else(|| format!("KIND {raw:?}")),
        "N" | "ORG" => Ok(Val::Semi(split(raw, ';')?)),
        "CATEGORIES" => Ok(Val::Comma(split(raw, ',')?)),
        "PHOTO" | "TEL" | "RELATED" | "UID" | "KEY" => match p.value {
            Some("text") => text(),
            Some("uri") => Ok(Val::Uri(raw.into())),
            Some(v) => Err(format!("VALUE={v} for {}", l.name)),
            None if has_scheme(raw) => Ok(Val::Uri(raw.into())),
            None => text(),
        },
        "BDAY" | "ANNIVERSARY" => match p.value {
            Some("text") => text(),
            None | Some("date-and-or-time") => read_typed("date-and-or-time", raw),
            Some(v) => Err(format!("VALUE={v} for {}", l.name)),
        },
        "GENDER" => {
            let (s, i) = match raw.split_once(';') {
                Some((s, i)) => (s, Some(unescape(i)?)),
                None => (raw, None),
            };
            let s = SEXES.iter().find(|x| **x == s).ok_or_else(|| format!("sex {s:?}"))?;
            Ok(Val::Gender(s, i))
        }
        "ADR" => {
            let v = split(raw, ';')?;
            if v.len() != 7 {
                return Err(format!("ADR with {} components", v.len()));
            }
            let mut v = v.into_iter().map(|s| if s.is_empty() { None } else { Some(s) });
            Ok(Val::Adr(std::array::from_fn(|_| v.next().unwrap())))
        }
        "LANG" => Ok(Val::Lang(unescape(raw)?)),
        "TZ" => match p.value {
            None | Some("text") => text(),
            Some("uri") => Ok(Val::Uri(raw.into())),
            Some("utc-offset") => read_typed("utc-offset", raw),
            Some(v) => Err(format!("VALUE={v} for TZ")),
        },
        "REV" => read_dt(raw).map(Val::Stamp).ok_or_else(|| format!("REV {raw:?}")),
        "CLIENTPIDMAP" => {
            let (n, u) = raw.split_once(';').ok_or("CLIENTPIDMAP without semicolon")?;
            let n: u64 = canon(n).filter(|n| *n > 0).ok_or_else(|| format!("CLIENTPIDMAP {raw:?}"))?;
            Ok(Val::PidMap(n, u.into()))
        }
        n if n.to_ascii_uppercase().starts_with("X-") => read_typed(p.value.unwrap_or("text"), raw),
        n => Err(format!("property {n}")),
    }
}

pub fn read_line(l: &str) -> Result<Prop, String> {
    let line = split_line(l).map_err(|e| format!("{e} in {l:?}"))?;
    let params = read_params(&line).map_err(|e| format!("{e} in {l:?}"))?;
    let val = read_value(&line, &params).map_err(|e| format!("{e} in {l:?}"))?;
    Ok(Prop { group: line.group, name: line.name, params, val })
}

/// Read a printed card.
pub fn read_card(out: &str) -> Result<Card, String> {
    let l = lines(out)?;
    if l.len() < 3 || l[0] != "BEGIN:VCARD" || l[1] != "VERSION:4.0" || l[l.len() - 1] != "END:VCARD" {
        return Err(format!("structure: {:?} … {:?}", l.first(), l.last()));
    }
    let mut card: Card = l[2..l.len() - 1].iter().map(|l| read_line(l)).collect::<Result<_, _>>()?;
    canonical(&mut card);
    Ok(card)
}
