//! Generators of the data of cards, within what a vCard can represent.
use crate::engine::Src;
use crate::model::*;

pub const WORDS: [&str; 12] =
    ["a", "John", "Doe", "x", "", "Jane Q", "42", "home", "N/A", "+1-555", "Straße", "O'Neil"];
const PIECES: [&str; 40] = [
    ",", ";", ":", "\\", "\n", "\t", " ", "=", ".", "-", "\\n", "\\N", "\\,", "\\;", "\\\\", ";;", ",,", "\n\n", "\n ",
    " \n", "\nEND:VCARD\n", "END:VCARD", "BEGIN:VCARD", "\nBEGIN:VCARD\nVERSION:4.0\n", "VERSION:4.0", "\nNOTE:evil",
    "\nX-EVIL;TYPE=x:y\n", "TYPE=home", "mailto:a@b.c", "--0412", "20200101T000000Z", "+0100", "&amp;", "%0A", "'", "(",
    "é", "https://example.com/?q=1,2;3", "^n", "{}",
];
const UNI: [&str; 22] = [
    "é", "ß", "日本", "中", "Ω", "😀", "👩‍👩‍👧", "🇩🇪", "e\u{301}", "\u{202e}", "\u{a0}", "\u{feff}", "\u{2028}", "\u{85}",
    "नि", "각", "ก็", "\u{10ffff}", "ﬀ", "\u{200d}", "\u{e9}\u{e9}", "ı",
];

#[derive(Clone, Copy)]
pub struct TextOpt {
    pub newline: bool,
    pub quote: bool,
    pub long: bool,
    /// Characters the parser would refuse, only for output checks
    pub cr: bool,
}
pub const VALUE_TEXT: TextOpt = TextOpt { newline: true, quote: true, long: true, cr: false };
pub const PARAM_TEXT: TextOpt = TextOpt { newline: true, quote: false, long: true, cr: false };
pub const ANY_TEXT: TextOpt = TextOpt { newline: true, quote: true, long: true, cr: true };

fn word(s: &mut Src) -> String {
    let n = 1 + s.below(8);
    (0..n)
        .map(|_| {
            *s.pick(&[
                'a', 'b', 'c', 'n', 'N', 'r', 't', 'A', 'Z', 'x', 'X', '0', '1', '9', '-', '_', '.', '/', '@', '+', '*',
                '#', '!', '?', '<', '>', '[', ']', '|', '~', '`', '$',
            ])
        })
        .collect()
}

/// Arbitrary text: words, delimiters and their escapes, line breaks, text that looks like vCard lines, Unicode.
pub fn text(s: &mut Src, o: TextOpt) -> String {
    let mut r = String::new();
    match s.weighted(&[3, 4, 6, 2, 1, 1]) {
        0 => r.push_str(s.pick::<&str>(&WORDS)),
        1 => {
            let n = 1 + s.count(5);
            for i in 0..n {
                if i > 0 {
                    r.push(' ');
                }
                r.push_str(&word(s));
            }
        }
        2 => {
            let n = 1 + s.below(10);
            for _ in 0..n {
                match s.weighted(&[3, 5, 1, 1]) {
                    0 => r.push_str(&word(s)),
                    1 => r.push_str(s.pick::<&str>(&PIECES)),
                    2 => r.push_str(s.pick::<&str>(&UNI)),
                    _ => {
                        if o.quote {
                            r.push('"');
                        }
                        if o.cr {
                            r.push_str(s.pick::<&str>(&["\r", "\r\n", "\n\r", "\r\n "]));
                        }
                    }
                }
            }
        }
        3 => {
            let n = 1 + s.below(12);
            for _ in 0..n {
                r.push_str(s.pick::<&str>(&UNI));
            }
        }
        4 => {
            // Any characters at all, other than controls
            let n = s.below(30);
            for _ in 0..n {
                let max = *s.pick(&[0x7eu32, 0xff, 0x7ff, 0xffff, 0x10ffff]);
                let c = 0x20 + s.below(max as u64 - 0x20 + 1) as u32;
                if let Some(c) = char::from_u32(c)
                    && c != '\u{7f}'
                {
                    r.push(c);
                }
            }
        }
        _ => {
            if o.long {
                let unit = match s.below(7) {
                    0 => "a",
                    1 => "é",
                    2 => "日",
                    3 => "a ",
                    4 => "\\",
                    5 => "👩‍👩‍👧",
                    _ => "e\u{301}",
                };
                let max = match s.below(240) {
                    0 => 70_000,
                    1..20 => 3000,
                    _ => 160,
                };
                let n = s.below(max) as usize;
                r.push_str(&unit.repeat(n));
                if s.chance(1, 6) {
                    // A grapheme longer than a line
                    r.push('o');
                    r.push_str(&"\u{301}".repeat(20 + s.below(40) as usize));
                }
                r.push_str(&word(s));
            }
        }
    }
    if !o.newline {
        r = r.replace('\n', " ");
    }
    if !o.quote {
        r = r.replace('"', "'");
    }
    r
}

pub fn simple_text(s: &mut Src) -> String {
    s.pick::<&str>(&WORDS).to_string()
}

/// A URI as the library prints it.
pub fn uri_text(s: &mut Src) -> String {
    fn seg(s: &mut Src, extra: &[&str]) -> String {
        let n = 1 + s.below(4);
        let mut r = String::new();
        for _ in 0..n {
            match s.below(4) {
                0 | 1 => r.push_str(s.pick::<&str>(&["a", "b7", "Path", "x-y", "Z_z", "0"])),
                2 => r.push_str(s.pick::<&str>(&["%20", "%C3%A9", "~", "!", "$", "'", "*", "+"])),
                _ => r.push_str(s.pick::<&str>(extra)),
            }
        }
        r
    }
    let sub = [",", ";", "=", "@", ":", "&", "(", ")", "."];
    match s.below(9) {
        0 => "https://example.com/a".to_string(),
        1 => format!("mailto:{}@example.com", s.pick::<&str>(&["a", "john.doe", "x+y"])),
        2 => format!("tel:+1-{}-{}", 100 + s.below(900), 1000 + s.below(9000)),
        3 => format!(
            "urn:uuid:{:08x}-{:04x}-4{:03x}-8{:03x}-{:012x}",
            s.below(1 << 32),
            s.below(1 << 16),
            s.below(1 << 12),
            s.below(1 << 12),
            s.below(1 << 48)
        ),
        4 => format!("geo:{}.{},{}.{}", s.range(-90, 90), s.below(10000), s.range(-180, 180), s.below(10000)),
        5 => {
            let n = 1 + s.below(40);
            let mut r = "data:image/jpeg;base64,".to_string();
            for _ in 0..n {
                r.push_str(s.pick::<&str>(&["AAAA", "/9j/", "+Zz0", "QUJD"]));
            }
            r
        }
        6 => {
            let mut r = format!("tel:+{};ext={}", s.below(100000), s.below(100));
            r.push_str(&seg(s, &sub));
            r
        }
        _ => {
            let mut r = format!(
                "{}://{}{}",
                s.pick::<&str>(&["http", "https", "ftp", "xmpp", "ldap", "im", "sip"]),
                s.pick::<&str>(&["example.com", "a.b.example.org", "127.0.0.1", "[::1]", "localhost"]),
                s.pick::<&str>(&["", ":8080", ":65535"])
            );
            let n = 1 + s.below(3);
            for _ in 0..n {
                r.push('/');
                r.push_str(&seg(s, &sub));
            }
            if s.chance(1, 3) {
                r.push('?');
                r.push_str(&seg(s, &[",", ";", "=", "&", "/", "?", ":"]));
            }
            if s.chance(1, 4) {
                r.push('#');
                r.push_str(&seg(s, &[",", ";", "=", "/"]));
            }
            if s.chance(1, 12) {
                r.push_str(&"/long-path".repeat(12));
                if r.contains('#') {
                    r = r.replace('#', "/");
                }
            }
            r
        }
    }
}

/// Well-formed language tag in its usual letter case.
pub fn lang_text(s: &mut Src) -> String {
    let mut r = s.pick::<&str>(&["en", "fr", "de", "zh", "sr", "kab", "i-klingon", "x-private"]).to_string();
    if r.len() > 3 {
        return r;
    }
    if r == "zh" && s.chance(1, 4) {
        r.push_str("-yue");
    }
    if s.chance(1, 3) {
        r.push_str(s.pick::<&str>(&["-Latn", "-Cyrl", "-Hans"]));
    }
    if s.chance(1, 2) {
        r.push_str(s.pick::<&str>(&["-US", "-DE", "-419"]));
    }
    if s.chance(1, 5) {
        r.push_str(s.pick::<&str>(&["-1996", "-rozaj", "-valencia"]));
    }
    if s.chance(1, 6) {
        r.push_str(s.pick::<&str>(&["-u-co-phonebk", "-a-bbb-ccc"]));
    }
    if s.chance(1, 6) {
        r.push_str("-x-priv");
    }
    r
}

/// Language: any text when it is not parsed.
pub fn lang_any(s: &mut Src, o: TextOpt) -> String {
    if cfg!(not(feature = "lang")) && s.chance(1, 4) { text(s, o) } else { lang_text(s) }
}

/// Well-formed media type in lower case.
pub fn mime_text(s: &mut Src) -> String {
    let mut r = s
        .pick::<&str>(&[
            "text/plain",
            "image/jpeg",
            "application/pgp-keys",
            "audio/ogg",
            "application/vnd.example.foo+xml",
            "text/vcard",
            "application/octet-stream",
        ])
        .to_string();
    if s.chance(1, 3) {
        r.push_str(s.pick::<&str>(&[
            "; charset=utf-8", ";charset=utf-8", "; version=4.0", ";q=1;a=b", ";profile=AbC", "; a=X; b=yZ;c=0.9",
        ]));
    }
    r
}

pub fn days_in(y: i32, m: u8) -> u8 {
    match m {
        2 => 28 + (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)) as u8,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

pub fn gdate(s: &mut Src) -> D {
    let y = match s.below(6) {
        0 => 2000,
        1 => 0,
        2 => s.range(1900, 2100) as i32,
        3 => *s.pick(&[1, 4, 99, 100, 400, 999, 1000, 1600, 1900, 1996, 2004, 2400, 9999]),
        _ => s.range(0, 9999) as i32,
    };
    let m = if s.chance(1, 4) { 1 } else { s.range(1, 12) as u8 };
    let d = match s.below(5) {
        0 => 1,
        1 => days_in(y, m),
        _ => s.range(1, days_in(y, m) as i64) as u8,
    };
    D { y, m, d }
}
pub fn goff(s: &mut Src) -> i32 {
    let mins = match s.below(5) {
        0 | 1 => 0,
        2 => 60 * s.range(-23, 23),
        3 => *s.pick(&[-30, 30, -1, 1, -59, 59, -570, 345, 330, -60, 60, 1439, -1439]),
        _ => s.range(-1439, 1439),
    };
    mins as i32 * 60
}
pub fn gtime(s: &mut Src) -> T {
    let f = |s: &mut Src, max: i64| match s.below(4) {
        0 => 0,
        1 => max as u8,
        _ => s.range(0, max) as u8,
    };
    if s.chance(1, 12) {
        return T { h: 0, m: 0, s: 0, ns: 0, off: goff(s) };
    }
    T { h: f(s, 23), m: f(s, 59), s: f(s, 59), ns: 0, off: goff(s) }
}
pub fn gdt(s: &mut Src) -> DT {
    // Hours from the ends of what can be told, past them in UTC
    if s.chance(1, 25) {
        let mut t = gtime(s);
        return if s.chance(1, 2) {
            (t.h, t.off) = (t.h % 3, t.off.abs());
            DT { d: D { y: 0, m: 1, d: 1 }, t }
        } else {
            (t.h, t.off) = (23 - t.h % 3, -t.off.abs());
            DT { d: D { y: 9999, m: 12, d: 31 }, t }
        };
    }
    DT { d: gdate(s), t: gtime(s) }
}
pub fn gdot(s: &mut Src) -> DoT {
    match s.below(3) {
        0 => DoT::D(gdate(s)),
        1 => DoT::T(gtime(s)),
        _ => DoT::DT(gdt(s)),
    }
}
pub fn list<X>(s: &mut Src, max: usize, mut f: impl FnMut(&mut Src) -> X) -> Vec<X> {
    let n = 1 + many(s, max - 1);
    (0..n).map(|_| f(s)).collect()
}
/// Up to `max`, but now and then a lot more.
pub fn many(s: &mut Src, max: usize) -> usize {
    let n = s.count(max);
    if s.chance(1, 60) {
        let max = if s.chance(1, 20) { 400 } else { 40 };
        return n + s.below(max) as usize;
    }
    n
}
/// A number that is often small.
pub fn natural(s: &mut Src) -> u64 {
    match s.below(4) {
        0 => 1 + s.below(9),
        1 => s.below(1000),
        2 => *s.pick(&[1, 0, 2, 10, 255, 256, 65535, 65536, u32::MAX as u64, 1 << 32, i64::MAX as u64, 1 << 63, u64::MAX]),
        _ => {
            let n = s.u64();
            n >> s.below(64)
        }
    }
}
const NAME_CHARS: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-";
fn name_chars(s: &mut Src) -> String {
    let max = if s.chance(1, 8) { 60 } else { 10 };
    let n = 1 + s.below(max);
    (0..n).map(|_| *s.pick(NAME_CHARS) as char).collect()
}
pub fn gint(s: &mut Src) -> i64 {
    match s.below(5) {
        0 => s.range(-9, 9),
        1 => *s.pick(&[i64::MIN, i64::MAX, i64::MIN + 1, -1, 1 << 53, (1 << 53) + 1, u32::MAX as i64, i32::MIN as i64]),
        2 => s.u64() as i64,
        _ => s.range(-100000, 100000),
    }
}
pub fn gfloat(s: &mut Src) -> u64 {
    let f = match s.below(6) {
        0 => s.range(-20, 20) as f64,
        1 => *s.pick(&[0.1, -0.0, 0.5, 1e-7, 1e300, f64::MIN_POSITIVE, f64::MAX, f64::MIN, 5e-324, 1.0 / 3.0]),
        2 => s.range(-1000000, 1000000) as f64 / 1000.0,
        3 => s.u64() as i64 as f64,
        _ => {
            let f = f64::from_bits(s.u64());
            if f.is_finite() { f } else { 1.5 }
        }
    };
    f.to_bits()
}

pub fn group(s: &mut Src) -> Option<String> {
    if s.chance(1, 4) {
        if s.chance(1, 4) {
            return Some(name_chars(s));
        }
        if s.chance(1, 8) {
            return Some(s.pick(&NAMES).to_string());
        }
        Some(s.pick::<&str>(&["item1", "home", "G-2", "a", "X-ABC", "TZ", "FN", "0", "Item1", "-"]).to_string())
    } else {
        None
    }
}
pub fn xname(s: &mut Src) -> String {
    if s.chance(1, 4) {
        return format!("{}{}", if s.chance(1, 6) { "x-" } else { "X-" }, name_chars(s));
    }
    if s.chance(1, 4) {
        // Like one of the others
        let n = match s.below(3) {
            0 => *s.pick(&PARAM_NAMES),
            _ => *s.pick(&NAMES),
        };
        return match s.below(4) {
            0 => format!("X-{}", n.to_lowercase()),
            1 => format!("X-{n}-{n}"),
            _ => format!("X-{n}"),
        };
    }
    s.pick::<&str>(&["X-FOO", "X-A", "x-lower", "X-Mixed-Case-9", "X-ABLabel", "X-1", "X-FN", "X-VALUE", "X-TZ"]).to_string()
}

#[cfg_attr(not(feature = "serde"), allow(dead_code))]
/// Fractions of a second, which are kept by everything but the vCard text.
pub fn add_fractions(s: &mut Src, card: &mut Card) {
    fn t(s: &mut Src, t: &mut T) {
        if s.chance(2, 3) {
            t.ns = fraction(s);
        }
    }
    for p in card {
        match &mut p.val {
            Val::DoT(v) => v.iter_mut().for_each(|d| match d {
                DoT::T(x) => t(s, x),
                DoT::DT(x) => t(s, &mut x.t),
                DoT::D(_) => {}
            }),
            Val::Stamp(d) => t(s, &mut d.t),
            Val::DateTimes(v) | Val::Stamps(v) => v.iter_mut().for_each(|d| t(s, &mut d.t)),
            Val::Times(v) => v.iter_mut().for_each(|d| t(s, d)),
            _ => {}
        }
    }
}
pub fn fraction(s: &mut Src) -> u32 {
    match s.below(4) {
        0 => *s.pick(&[500_000_000, 100_000_000, 1, 1000, 1_000_000, 999_999_999, 999_000_000, 123_456_789, 10]),
        1 => s.below(1000) as u32 * 1_000_000,
        _ => s.below(1_000_000_000) as u32,
    }
}

pub fn gtype(s: &mut Src) -> String {
    match s.below(5) {
        0 => s.pick::<&str>(&["home", "work"]).to_string(),
        1 => s.pick::<&str>(&TEL_TYPES).to_string(),
        2 => s.pick::<&str>(&REL_TYPES).to_string(),
        3 => format!("X-{}", s.pick::<&str>(&["foo", "JPEG", "Custom", "x", "home", "X-foo", "pref", "INTERNET", ""])),
        _ => format!("X-{}", text(s, PARAM_TEXT)),
    }
}

/// Text of the TZ parameter: cannot be quoted, must not look like an offset.
pub fn tz_param_text(s: &mut Src) -> String {
    let t = match s.below(3) {
        0 => s.pick::<&str>(&["Raleigh/North America", "UTC", "CET", "a;b,c", "", "z", "0100", "+1", "+01000"]).to_string(),
        _ => text(s, PARAM_TEXT).replace(':', "."),
    };
    let looks = t == "Z" || t.starts_with(['+', '-']) && t.len() > 2 && t[1..].bytes().all(|c| c.is_ascii_digit());
    if looks { format!("x{t}") } else { t }
}

/// Which parameters to generate.
#[derive(Clone, Copy)]
pub struct ParamOpt {
    /// Probability of each parameter is 1 in this
    pub rarity: u64,
    pub text: TextOpt,
}
pub const PARAMS: ParamOpt = ParamOpt { rarity: 9, text: PARAM_TEXT };

/// Parameters other than VALUE.
pub fn gparams(s: &mut Src, name: &str, o: ParamOpt) -> Params {
    let mut p = Params::default();
    if s.chance(1, 2) {
        return p;
    }
    let r = o.rarity;
    let t = |s: &mut Src| if s.chance(1, 2) { text(s, o.text) } else { simple_text(s) };
    if s.chance(1, r) {
        p.language = Some(lang_any(s, o.text));
    }
    if s.chance(1, r) {
        p.pref = Some(if s.chance(1, 2) { *s.pick(&[1, 2, 50, 99, 100]) } else { 1 + s.below(100) as u8 });
    }
    if s.chance(1, r) {
        p.altid = Some(t(s));
    }
    if name != "CLIENTPIDMAP" && s.chance(1, r) {
        p.pid = Some(list(s, 4, |s| {
            (natural(s), if s.chance(1, 2) { Some(natural(s)) } else { None })
        }));
    }
    if (TYPED.contains(&name) || name.to_uppercase().starts_with("X-")) && s.chance(2, r) {
        p.types = Some(list(s, 4, |s| {
            let t = gtype(s);
            if o.text.quote { t } else { t.replace('"', "'") }
        }));
    }
    if s.chance(1, r) {
        p.mediatype =
            Some(if cfg!(not(feature = "mime")) && s.chance(1, 4) { text(s, o.text) } else { mime_text(s) });
    }
    if s.chance(1, r) {
        p.calscale = Some(if s.chance(1, 2) { "gregorian".into() } else { t(s) });
    }
    if s.chance(1, r) {
        p.sort_as = Some(list(s, 3, t));
    }
    if s.chance(1, r) {
        p.geo = Some(uri_text(s));
    }
    if s.chance(1, r) {
        p.tz = Some(match s.below(3) {
            0 => Tz::Text(tz_param_text(s)),
            1 => Tz::Offset(goff(s)),
            _ => Tz::Uri(uri_text(s)),
        });
    }
    if name == "ADR" && s.chance(3, r) {
        p.label = Some(t(s));
    }
    if s.chance(2, r) {
        let n = 1 + many(s, 2);
        for _ in 0..n {
            let k = if s.chance(1, 5) { "ENCODING".to_string() } else { xname(s) };
            p.ext.push((k, list(s, 3, t)));
        }
    }
    p
}

fn adr(s: &mut Src) -> [Option<String>; 7] {
    std::array::from_fn(|_| {
        if s.chance(1, 2) {
            Some(text(s, VALUE_TEXT)).filter(|t| !t.is_empty())
        } else {
            None
        }
    })
}

/// Text for a property that reads text as a URI when it is one.
fn text_not_uri(s: &mut Src, p: &mut Params, o: TextOpt) -> Val {
    let t = text(s, o);
    if t.contains(':') || s.chance(1, 3) {
        p.value = Some("text");
    }
    Val::Text(t)
}

/// Value of a property with the VALUE parameter it needs.
pub fn gval(s: &mut Src, name: &str, p: &mut Params, o: TextOpt) -> Val {
    let opt = |s: &mut Src, p: &mut Params, v: &'static str| {
        if s.chance(1, 6) {
            p.value = Some(v);
        }
    };
    match name {
        "XML" | "FN" | "NICKNAME" | "TITLE" | "ROLE" | "EMAIL" | "NOTE" | "PRODID" => {
            opt(s, p, "text");
            Val::Text(text(s, o))
        }
        "SOURCE" | "URL" | "LOGO" | "MEMBER" | "IMPP" | "GEO" | "SOUND" | "FBURL" | "CALADRURI" | "CALURI" => {
            opt(s, p, "uri");
            Val::Uri(uri_text(s))
        }
        "KIND" => {
            opt(s, p, "text");
            Val::Kind(s.pick::<&str>(&KINDS))
        }
        "N" | "ORG" => {
            let n = if name == "N" && s.chance(1, 2) { 5 } else { 1 + s.below(7) as usize + many(s, 0) };
            Val::Semi((0..n).map(|_| text(s, o)).collect())
        }
        "CATEGORIES" => {
            let n = 1 + s.below(6) as usize + many(s, 0);
            Val::Comma((0..n).map(|_| text(s, o)).collect())
        }
        "PHOTO" | "TEL" | "RELATED" | "UID" | "KEY" => {
            if s.chance(1, 2) {
                opt(s, p, "uri");
                Val::Uri(uri_text(s))
            } else {
                text_not_uri(s, p, o)
            }
        }
        "BDAY" | "ANNIVERSARY" => {
            if s.chance(1, 3) {
                p.value = Some("text");
                Val::Text(text(s, o))
            } else {
                opt(s, p, "date-and-or-time");
                Val::DoT(list(s, 3, gdot))
            }
        }
        "GENDER" => {
            let sex = *s.pick::<&'static str>(&SEXES);
            Val::Gender(sex, if s.chance(1, 2) { Some(text(s, o)) } else { None })
        }
        "ADR" => Val::Adr(adr(s)),
        "LANG" => {
            opt(s, p, "language-tag");
            Val::Lang(lang_any(s, o))
        }
        "TZ" => match s.below(3) {
            0 => {
                opt(s, p, "text");
                Val::Text(text(s, o))
            }
            1 => {
                p.value = Some("uri");
                Val::Uri(uri_text(s))
            }
            _ => {
                p.value = Some("utc-offset");
                Val::Offset(goff(s))
            }
        },
        "REV" => {
            opt(s, p, "timestamp");
            Val::Stamp(gdt(s))
        }
        "CLIENTPIDMAP" => Val::PidMap(natural(s).max(1), uri_text(s)),
        _ => {
            let t = s.below(13);
            if t == 0 {
                return Val::Text(text(s, o));
            }
            let v = VALUE_TYPES[t as usize - 1];
            p.value = Some(v);
            typed(s, v, o)
        }
    }
}

/// A value of a type.
pub fn typed(s: &mut Src, v: &str, o: TextOpt) -> Val {
    match v {
        "text" => Val::Text(text(s, o)),
        "uri" => Val::Uri(uri_text(s)),
        "date" => Val::Dates(list(s, 4, gdate)),
        "time" => Val::Times(list(s, 4, gtime)),
        "date-time" => Val::DateTimes(list(s, 4, gdt)),
        "date-and-or-time" => Val::DoT(list(s, 4, gdot)),
        "timestamp" => Val::Stamps(list(s, 4, gdt)),
        "boolean" => Val::Bool(s.chance(1, 2)),
        "integer" => Val::Int(list(s, 5, gint)),
        "float" => Val::Float(list(s, 5, gfloat)),
        "utc-offset" => Val::Offset(goff(s)),
        _ => Val::Lang(lang_any(s, o)),
    }
}

pub fn gprop_named(s: &mut Src, name: &str, o: TextOpt, po: ParamOpt) -> Prop {
    let mut params = gparams(s, name, po);
    let val = gval(s, name, &mut params, o);
    Prop { group: group(s), name: name.to_string(), params, val }
}

pub fn any_name(s: &mut Src) -> String {
    let i = s.below(NAMES.len() as u64 + 5) as usize;
    if i < NAMES.len() { NAMES[i].to_string() } else { xname(s) }
}

/// A valid card in canonical order.
pub fn gcard_with(s: &mut Src, o: TextOpt, po: ParamOpt) -> Card {
    let mut card = Vec::new();
    let nfn = 1 + s.chance(1, 5) as usize;
    for _ in 0..nfn {
        card.push(gprop_named(s, "FN", o, po));
    }
    let max = s.size;
    let n = s.below(max);
    for _ in 0..n {
        // Lets a failing case be shrunk by deleting the choices of a property
        if s.below(16) == 0 {
            continue;
        }
        let name = any_name(s);
        if SINGLE.contains(&&name[..]) && card.iter().any(|p| p.name == name) {
            continue;
        }
        let p = gprop_named(s, &name, o, po);
        let again = if !SINGLE.contains(&&name[..]) && s.chance(1, 4) { 1 + many(s, 0) } else { 0 };
        card.push(p);
        for _ in 0..again {
            card.push(gprop_named(s, &name, o, po));
        }
    }
    fix_members(&mut card);
    canonical(&mut card);
    card
}
pub fn gcard(s: &mut Src) -> Card {
    gcard_with(s, VALUE_TEXT, PARAMS)
}

/// MEMBER needs KIND group.
pub fn fix_members(card: &mut Card) {
    if card.iter().any(|p| p.name == "MEMBER") {
        if let Some(k) = card.iter_mut().find(|p| p.name == "KIND") {
            k.val = Val::Kind("group");
        } else {
            card.push(Prop { group: None, name: "KIND".into(), params: Params::default(), val: Val::Kind("group") });
        }
    }
}
/// Small card with a recognisable name.
pub fn tiny_card(s: &mut Src) -> Card {
    let mut c = vec![Prop {
        group: None,
        name: "FN".into(),
        params: Params::default(),
        val: Val::Text(format!("Card {}", s.below(1000))),
    }];
    if s.chance(1, 2) {
        c.push(gprop_named(s, "NOTE", VALUE_TEXT, PARAMS));
    }
    c
}
