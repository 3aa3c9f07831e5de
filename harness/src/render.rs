//! Writes the data of a card in one of its many legal spellings.
use crate::dates::*;
use crate::engine::Src;
use crate::model::*;

/// Which freedoms to use.
#[derive(Clone, Copy, Default)]
pub struct Style {
    /// Letter case of names and keywords
    pub case: bool,
    /// Mixed line endings, else CRLF
    pub endings: bool,
    /// Random folds
    pub folds: bool,
    /// Order of properties of different kinds and of parameters
    pub order: bool,
    /// Optional escapes, quotes, repeated TYPE, CHARSET
    pub escapes: bool,
    /// Forms of dates and times
    pub dates: bool,
    /// Version 3.0, blank lines between cards, no final line ending
    pub frame: bool,
}
pub const PLAIN: Style =
    Style { case: false, endings: false, folds: false, order: false, escapes: false, dates: false, frame: false };
pub const WILD: Style =
    Style { case: true, endings: true, folds: true, order: true, escapes: true, dates: true, frame: true };

/// A style with some of the freedoms.
pub fn some_style(s: &mut Src) -> Style {
    let b = |s: &mut Src| s.chance(1, 2);
    Style {
        case: b(s),
        endings: b(s),
        folds: b(s),
        order: b(s),
        escapes: b(s),
        dates: b(s),
        frame: b(s),
    }
}

pub fn recase(s: &mut Src, t: &str, on: bool) -> String {
    if !on {
        return t.to_string();
    }
    match s.below(4) {
        0 => t.to_string(),
        1 => t.to_ascii_uppercase(),
        2 => t.to_ascii_lowercase(),
        _ => t
            .chars()
            .map(|c| if s.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
            .collect(),
    }
}

/// Escape the text of a value. `semi`: a raw semicolon would be a delimiter.
pub fn esc(s: &mut Src, t: &str, semi: bool, st: Style) -> String {
    let mut r = String::new();
    for c in t.chars() {
        match c {
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str(if st.escapes && s.chance(1, 3) { "\\N" } else { "\\n" }),
            ',' => r.push_str("\\,"),
            ';' if semi || st.escapes && s.chance(1, 3) => r.push_str("\\;"),
            c => r.push(c),
        }
    }
    r
}

/// Parameter text. Returns the raw text, and whether it has to be quoted.
fn param_raw(s: &mut Src, items: &[String], list: bool, st: Style) -> (String, bool) {
    let mut r = String::new();
    let mut quote = false;
    for (i, t) in items.iter().enumerate() {
        if i > 0 {
            r.push(',');
        }
        for c in t.chars() {
            match c {
                '\\' => r.push_str("\\\\"),
                '\n' => r.push_str(if st.escapes && s.chance(1, 3) { "\\N" } else { "\\n" }),
                ',' if list || st.escapes && s.chance(1, 4) => r.push_str("\\,"),
                ';' => {
                    if st.escapes && s.chance(1, 2) {
                        r.push_str("\\;");
                    } else {
                        quote = true;
                        r.push(';')
                    }
                }
                ':' => {
                    quote = true;
                    r.push(':')
                }
                c => r.push(c),
            }
        }
    }
    (r, quote)
}
fn param(s: &mut Src, items: &[String], list: bool, st: Style) -> String {
    let (r, quote) = param_raw(s, items, list, st);
    if quote || st.escapes && s.chance(1, 3) { format!("\"{r}\"") } else { r }
}

pub fn render_params(s: &mut Src, p: &Params, st: Style) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    let key = |s: &mut Src, k: &str| recase(s, k, st.case);
    let one = std::slice::from_ref::<String>;
    let maybe_quote = |s: &mut Src, t: String| if st.escapes && s.chance(1, 4) { format!("\"{t}\"") } else { t };
    if let Some(t) = &p.language {
        v.push(format!("{}={}", key(s, "LANGUAGE"), param(s, one(t), false, st)));
    }
    if let Some(t) = p.value {
        let t = recase(s, t, st.case);
        v.push(format!("{}={}", key(s, "VALUE"), maybe_quote(s, t)));
    }
    if let Some(n) = p.pref {
        v.push(format!("{}={}", key(s, "PREF"), maybe_quote(s, n.to_string())));
    }
    if let Some(t) = &p.altid {
        v.push(format!("{}={}", key(s, "ALTID"), param(s, one(t), false, st)));
    }
    if let Some(l) = &p.pid {
        let l: Vec<String> = l
            .iter()
            .map(|(a, b)| match b {
                Some(b) => format!("{a}.{b}"),
                None => a.to_string(),
            })
            .collect();
        v.push(format!("{}={}", key(s, "PID"), maybe_quote(s, l.join(","))));
    }
    if let Some(l) = &p.types {
        // TYPE may be repeated, the order is kept
        let mut groups: Vec<Vec<String>> = vec![vec![]];
        for t in l {
            let known = !t.starts_with("X-");
            let t = if known {
                recase(s, t, st.case)
            } else if st.case && s.chance(1, 4) {
                t.replacen("X-", "x-", 1)
            } else if st.escapes && s.chance(1, 3) && implicit_ext(&t[2..]) {
                // The prefix may be omitted
                t[2..].to_string()
            } else {
                t.clone()
            };
            if st.escapes && !groups.last().unwrap().is_empty() && s.chance(1, 3) {
                groups.push(vec![]);
            }
            groups.last_mut().unwrap().push(t);
        }
        let texts: Vec<String> =
            groups.iter().map(|g| format!("{}={}", key(s, "TYPE"), param(s, g, true, st))).collect();
        // Kept together here, separated below in order
        v.extend(texts);
    }
    if let Some(t) = &p.mediatype {
        v.push(format!("{}={}", key(s, "MEDIATYPE"), param(s, one(t), false, st)));
    }
    if let Some(t) = &p.calscale {
        v.push(format!("{}={}", key(s, "CALSCALE"), param(s, one(t), false, st)));
    }
    if let Some(l) = &p.sort_as {
        v.push(format!("{}={}", key(s, "SORT-AS"), param(s, l, true, st)));
    }
    if let Some(t) = &p.geo {
        v.push(format!("{}=\"{t}\"", key(s, "GEO")));
    }
    if let Some(t) = &p.tz {
        let t = match t {
            // Cannot be quoted
            Tz::Text(t) => t.replace('\\', "\\\\").replace('\n', "\\n").replace(';', "\\;"),
            Tz::Uri(u) => format!("\"{u}\""),
            Tz::Offset(o) => {
                if st.dates {
                    spell_offset(s, *o)
                } else {
                    offset_spellings(*o)[0].clone()
                }
            }
        };
        v.push(format!("{}={t}", key(s, "TZ")));
    }
    if let Some(t) = &p.label {
        v.push(format!("{}={}", key(s, "LABEL"), param(s, one(t), false, st)));
    }
    for (k, l) in &p.ext {
        // The case of the name is data
        v.push(format!("{k}={}", param(s, l, true, st)));
    }
    if st.escapes && s.chance(1, 12) {
        v.push(format!("{}=UTF-8", key(s, "CHARSET")));
    }
    if st.order {
        // Any order, but that of repeated and of extension parameters is data
        let class = |t: &String| -> u8 {
            let k = t.split('=').next().unwrap().to_ascii_uppercase();
            if k == "TYPE" {
                1
            } else if k.starts_with("X-") || k == "ENCODING" {
                2
            } else {
                0
            }
        };
        let original = v.clone();
        s.shuffle(&mut v);
        for c in [1, 2] {
            let mut it = original.iter().filter(|t| class(t) == c);
            for x in v.iter_mut().filter(|t| class(t) == c) {
                *x = it.next().unwrap().clone();
            }
        }
    }
    v
}

/// Whether an unknown type keeps its meaning without the prefix.
fn implicit_ext(t: &str) -> bool {
    let l = t.to_lowercase();
    !(l == "home"
        || l == "work"
        || l.starts_with("x-")
        || TEL_TYPES.contains(&&l[..])
        || REL_TYPES.contains(&&l[..]))
}

fn join<X>(s: &mut Src, v: &[X], mut f: impl FnMut(&mut Src, &X) -> String) -> String {
    v.iter().map(|x| f(s, x)).collect::<Vec<_>>().join(",")
}

/// Spellings of a number.
fn int(s: &mut Src, n: i64, st: Style) -> String {
    if st.dates && n >= 0 && s.chance(1, 6) {
        format!("+{n}")
    } else if st.dates && s.chance(1, 8) {
        if n < 0 { format!("-0{}", n.unsigned_abs()) } else { format!("0{n}") }
    } else {
        n.to_string()
    }
}
fn float(s: &mut Src, b: u64, st: Style) -> String {
    let f = f64::from_bits(b);
    if st.dates && s.chance(1, 5) { format!("{f:e}") } else { f.to_string() }
}

pub fn render_value(s: &mut Src, p: &Prop, st: Style) -> String {
    let b = st.dates;
    match &p.val {
        Val::Text(t) => esc(s, t, false, st),
        Val::Semi(l) => l.iter().map(|t| esc(s, t, true, st)).collect::<Vec<_>>().join(";"),
        Val::Comma(l) => l.iter().map(|t| esc(s, t, false, st)).collect::<Vec<_>>().join(","),
        Val::Uri(u) => u.clone(),
        Val::Kind(k) => k.to_string(),
        Val::Gender(x, None) => x.to_string(),
        Val::Gender(x, Some(i)) => format!("{x};{}", esc(s, i, false, st)),
        Val::Adr(a) => {
            let a: Vec<String> = a.iter().map(|t| esc(s, t.as_deref().unwrap_or(""), true, st)).collect();
            a.join(";")
        }
        Val::DoT(l) => join(s, l, |s, d| if b { spell_dot(s, d) } else { plain_dot(d) }),
        Val::Stamp(d) => {
            if b {
                spell_stamp(s, *d)
            } else {
                plain_dt(d)
            }
        }
        Val::Stamps(l) => join(s, l, |s, d| if b { spell_stamp(s, *d) } else { plain_dt(d) }),
        Val::DateTimes(l) => join(s, l, |s, d| if b { spell_dt(s, *d) } else { plain_dt(d) }),
        Val::Dates(l) => join(s, l, |s, d| if b { spell_date(s, *d) } else { date_spellings(*d)[0].clone() }),
        Val::Times(l) => join(s, l, |s, t| if b { spell_time(s, *t, true) } else { plain_time(t) }),
        Val::Offset(o) => {
            if b {
                spell_offset(s, *o)
            } else {
                offset_spellings(*o)[0].clone()
            }
        }
        Val::Lang(t) => esc(s, t, false, st),
        Val::PidMap(n, u) => format!("{n};{u}"),
        Val::Int(l) => join(s, l, |s, n| int(s, *n, st)),
        Val::Float(l) => join(s, l, |s, n| float(s, *n, st)),
        Val::Bool(v) => {
            let t = v.to_string();
            recase(s, &t, st.case)
        }
    }
}
pub fn plain_time(t: &T) -> String {
    format!("{}{}", clock_spellings(*t, false)[0], zone_spellings(t.off)[0])
}
pub fn plain_dt(d: &DT) -> String {
    format!("{}T{}", date_spellings(d.d)[0], plain_time(&d.t))
}
pub fn plain_dot(d: &DoT) -> String {
    match d {
        DoT::D(d) => date_spellings(*d)[0].clone(),
        DoT::T(t) => format!("T{}", plain_time(t)),
        DoT::DT(d) => plain_dt(d),
    }
}

/// One content line, unfolded, without its ending.
pub fn render_prop(s: &mut Src, p: &Prop, st: Style) -> String {
    let mut r = String::new();
    if let Some(g) = &p.group {
        r.push_str(g);
        r.push('.');
    }
    let ext = rank(&p.name) == NAMES.len();
    r.push_str(&if ext { p.name.clone() } else { recase(s, &p.name, st.case) });
    for t in render_params(s, &p.params, st) {
        r.push(';');
        r.push_str(&t);
    }
    r.push(':');
    r.push_str(&render_value(s, p, st));
    r
}

/// The content lines of a card, unfolded.
pub fn card_lines(s: &mut Src, card: &[Prop], st: Style) -> Vec<String> {
    let mut idx: Vec<usize> = (0..card.len()).collect();
    if st.order {
        s.shuffle(&mut idx);
        // Properties of the same kind keep their order
        let kind = |i: usize| rank(&card[i].name);
        let mut pos: std::collections::HashMap<usize, Vec<usize>> = Default::default();
        for (i, p) in card.iter().enumerate().rev() {
            pos.entry(rank(&p.name)).or_default().push(i);
        }
        for i in idx.iter_mut() {
            let k = kind(*i);
            *i = pos.get_mut(&k).unwrap().pop().unwrap();
        }
    }
    let version = if st.frame && s.chance(1, 3) { "VERSION:3.0" } else { "VERSION:4.0" };
    let mut v = vec![recase(s, "BEGIN:VCARD", st.case), recase(s, version, st.case)];
    for i in idx {
        v.push(render_prop(s, &card[i], st));
    }
    v.push(recase(s, "END:VCARD", st.case));
    v
}

pub fn ending(s: &mut Src, st: Style) -> &'static str {
    if st.endings && s.chance(1, 2) { "\n" } else { "\r\n" }
}

/// Insert folds at random positions inside a line.
pub fn fold(s: &mut Src, line: &str, many: bool) -> String {
    let n = line.chars().count();
    if n < 2 {
        return line.to_string();
    }
    let mut r = String::new();
    let dense = s.chance(1, 10);
    let rate = if many { 12 } else { 60 };
    let mut prev = '\0';
    for (i, c) in line.chars().enumerate() {
        if i > 0 && (dense || s.chance(1, rate)) {
            // After a raw CR a bare LF would become part of a CRLF
            let f = if prev == '\r' { s.below(2) } else { s.below(4) };
            r.push_str(["\r\n ", "\r\n\t", "\n ", "\n\t"][f as usize]);
        }
        r.push(c);
        prev = c;
    }
    r
}

/// Assemble lines into text.
pub fn assemble(s: &mut Src, lines: &[String], st: Style) -> String {
    let mut r = String::new();
    for l in lines {
        if st.folds && s.chance(1, 3) {
            r.push_str(&fold(s, l, s_many(l)));
        } else {
            r.push_str(l);
        }
        r.push_str(ending(s, st));
    }
    r
}
fn s_many(l: &str) -> bool {
    l.len() < 60
}

pub fn blank(s: &mut Src, st: Style) -> String {
    let mut r = String::new();
    if st.frame {
        for _ in 0..s.count(3) {
            r.push_str(if s.chance(1, 2) { "\n" } else { "\r\n" });
        }
    }
    r
}

/// Cards to text.
pub fn render(s: &mut Src, cards: &[Card], st: Style) -> String {
    let mut r = blank(s, st);
    for (i, c) in cards.iter().enumerate() {
        let lines = card_lines(s, c, st);
        r.push_str(&assemble(s, &lines, st));
        if i + 1 < cards.len() {
            r.push_str(&blank(s, st));
        }
    }
    if st.frame {
        if s.chance(1, 5) {
            let n = r.trim_end_matches(['\r', '\n']).len();
            r.truncate(n);
        } else {
            r.push_str(&blank(s, st));
        }
    }
    r
}
