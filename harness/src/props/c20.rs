//! Values that are not of the syntax of their property, and numbers read exactly.
use super::*;

/// Text that is no URI.
fn no_uri(s: &mut Src) -> String {
    // A backslash as data, escaped: a URI may have none
    raw_no_uri(s).replace('\\', "\\\\")
}
fn raw_no_uri(s: &mut Src) -> String {
    match s.below(7) {
        0 => s.pick::<&str>(&["", "x", "/a/b", "example.com", "//a/b", "?q", "#f", ":", ":x", "1:", "+:x", "http", "a b:c", "é:x", "ht tp://a", "_a:b", "-:", "a_b:c", "{}:x"]).to_string(),
        1 => {
            // A character that no URI may have
            let mut u: Vec<char> = uri_text(s).chars().collect();
            let at = s.below(u.len() as u64 + 1) as usize;
            u.insert(at, *s.pick(&[' ', '"', '<', '>', '\\', '^', '`', '{', '|', '}', 'é', '日', '\t']));
            u.into_iter().collect()
        }
        2 => {
            let u = uri_text(s);
            // A scheme has to start with a letter
            format!("{}{u}", s.pick::<&str>(&["1", "+", ".", "-", "%41"]))
        }
        3 => {
            let u = uri_text(s);
            let (_, rest) = u.split_once(':').unwrap();
            // No scheme, if the rest has none
            if rest.contains(':') { ":".into() } else { rest.to_string() }
        }
        4 => format!("{}%{}", "https://example.com/a", s.pick::<&str>(&["", "4", "zz", "4g", "%", "-1", "é"])),
        5 => format!("http://{}", s.pick::<&str>(&["[", "[::1", "a]b", "a:b:c", "[::g]", "a:port", "a:99999x"])),
        _ => s.pick::<&str>(&["a#b#c:", "http://a/#b#c", "urn:a b", "tel:+1 555", "mailto:a b@c"]).to_string(),
    }
}

fn no_int(s: &mut Src) -> String {
    match s.below(5) {
        0 => s.pick::<&str>(&["", "x", "1.0", "1e3", "0x10", "--1", "+-1", "1_000", " 1", "1 ", "٣", "-", "+", "1;2", "½"]).to_string(),
        1 => format!("{}", i64::MAX as i128 + 1 + s.below(1000) as i128),
        2 => format!("{}", i64::MIN as i128 - 1 - s.below(1000) as i128),
        3 => format!("{}{}", s.range(1, 9), s.u64().max(1 << 63)),
        _ => {
            let n = gint(s).to_string();
            format!("{n}{}", s.pick::<&str>(&["x", " ", ".", "-", "e", "é", ";"]))
        }
    }
}
fn no_float(s: &mut Src) -> String {
    match s.below(3) {
        0 => s.pick::<&str>(&["", "x", "1,0,", "0x1p3", "--1", "1.2.3", "1e", "e1", " 1", "1 ", ".", "-", "+", "1f", "1_0", "1.0d"]).to_string(),
        _ => {
            let f = f64::from_bits(gfloat(s));
            format!("{f}{}", s.pick::<&str>(&["x", " ", ".1.", "-", "e", "é", ";"]))
        }
    }
}

/// A spelling of exactly this number.
fn exact_float(s: &mut Src, f: f64) -> String {
    let a = f.abs();
    let sign = if f.is_sign_negative() { "-" } else if s.chance(1, 6) { "+" } else { "" };
    let mut t = match s.below(5) {
        0 => format!("{a}"),
        1 => format!("{a:e}"),
        2 => format!("{a:E}"),
        // More digits than needed, still the nearest
        3 => format!("{a:.40e}"),
        _ => {
            let t = format!("{a}");
            if t.contains('.') { format!("{t}000") } else { format!("{t}.0") }
        }
    };
    if s.chance(1, 8) {
        t.insert_str(0, "00");
    }
    format!("{sign}{t}")
}

fn components(s: &mut Src, n: usize) -> String {
    (0..n)
        .map(|_| {
            let t = text(s, TextOpt { long: false, ..VALUE_TEXT });
            esc(s, &t, true, WILD)
        })
        .collect::<Vec<_>>()
        .join(";")
}

/// A value of a time type that is not of this one.
fn other_time_type(s: &mut Src, k: &str) -> String {
    let (y, mo, d) = (1000 + s.below(9000), 1 + s.below(12), 1 + s.below(28));
    let (h, mi, se) = (s.below(24), s.below(60), s.below(60));
    let date = match s.below(7) {
        0 | 1 => format!("{y}{mo:02}{d:02}"),
        2 => format!("{y}-{mo:02}-{d:02}"),
        3 => format!("{y}-{mo:02}"),
        4 => format!("{y}"),
        5 => format!("--{mo:02}{d:02}"),
        _ => format!("---{d:02}"),
    };
    let time = match s.below(3) {
        0 => format!("{h:02}"),
        1 => format!("{h:02}{mi:02}"),
        _ => format!("{h:02}{mi:02}{se:02}"),
    };
    let zone = match s.below(4) {
        0 => "Z".into(),
        1 => format!("+{h:02}"),
        2 => format!("-{h:02}{mi:02}"),
        _ => String::new(),
    };
    let full = date.len() == 8 || date.len() == 10;
    let zoned = format!("T{time}{zone}");
    let both = format!("{date}{zoned}");
    let offset = format!("{}{h:02}{mi:02}", if s.chance(1, 2) { "+" } else { "-" });
    let n = s.below(3);
    match (k, n) {
        ("date", 0) => offset.replace('-', "+"),
        ("date", 1) => zoned,
        ("date", _) => both,
        ("time", 0) if full => date,
        ("time", 0) => format!("--{mo:02}{d:02}"),
        ("time", _) => both,
        ("date-time", 0) => offset,
        ("date-time", 1) => zoned,
        ("date-time", _) => date,
        ("timestamp", 0) => offset,
        ("timestamp", 1) if !full || time.len() < 6 => both,
        ("timestamp", 1) => time,
        ("timestamp", _) => date,
        ("utc-offset", 0) => date,
        ("utc-offset", 1) => both,
        ("utc-offset", _) => zoned,
        // Either or both, but a zone is neither
        _ => offset.replace('-', "+"),
    }
}

/// A line in error, with what it has.
fn bad(s: &mut Src) -> (String, &'static str) {
    match s.below(13) {
        12 => {
            let k = *s.pick::<&str>(&["date", "time", "date-time", "timestamp", "date-and-or-time", "utc-offset"]);
            let t = other_time_type(s, k);
            let l = match s.below(3) {
                0 if k == "date-and-or-time" => format!("BDAY:{t}"),
                0 if k == "timestamp" => format!("REV:{t}"),
                0 if k == "utc-offset" => format!("TZ;VALUE=utc-offset:{t}"),
                1 if k != "utc-offset" => {
                    let good = match k {
                        "date" => "2020",
                        "time" => "10",
                        "date-time" => "20200102T10",
                        "timestamp" => "20200102T101112Z",
                        _ => "--0102",
                    };
                    format!("X-A;VALUE={k}:{}", if s.chance(1, 2) { format!("{good},{t}") } else { format!("{t},{good}") })
                }
                _ => format!("X-A;VALUE={k}:{t}"),
            };
            (l, "other time type")
        }
        0 => {
            let k = *s.pick::<&str>(&KINDS);
            let t = match s.below(3) {
                0 => s.pick::<&str>(&["", "person", "groups", "grou", "thing", "x-own", " ", "application"]).to_string(),
                1 => format!("{k}{}", s.pick::<&str>(&["s", " ", ";", ",", "\\n", "é"])),
                _ => format!("{}{k}", s.pick::<&str>(&[" ", "x", ",", "\\"])),
            };
            (format!("KIND:{t}"), "KIND")
        }
        1 => {
            let t = s.pick::<&str>(&["X", "MF", "male", "female", "1", " M", "M ", "MM", "M,F", ",", "é", "?", "other"]);
            let i = if s.chance(1, 2) { ";x" } else { "" };
            (format!("GENDER:{t}{i}"), "GENDER")
        }
        2 => {
            let n = 1 + s.below(6) as usize;
            (format!("ADR:{}", components(s, n)), "ADR")
        }
        3 => {
            let u = uri_text(s);
            let t = match s.below(6) {
                0 => u,
                1 => format!(";{u}"),
                2 => format!("{};{u}", s.pick::<&str>(&["0", "x", "-1", "1.5", " 1", "1 ", "18446744073709551616", "é"])),
                3 => format!("{}", 1 + s.below(9)),
                4 => format!("{};", 1 + s.below(9)),
                _ => format!("{};{}", 1 + s.below(9), no_uri(s)),
            };
            (format!("CLIENTPIDMAP:{t}"), "CLIENTPIDMAP")
        }
        4 | 5 => {
            let n = s.pick::<&str>(&["SOURCE", "URL", "LOGO", "MEMBER", "IMPP", "GEO", "SOUND", "FBURL", "CALADRURI", "CALURI"]);
            (format!("{n}:{}", no_uri(s)), "URI property")
        }
        6 => {
            let n = s.pick::<&str>(&["TEL", "RELATED", "UID", "KEY", "TZ", "X-A"]);
            (format!("{n};VALUE=uri:{}", no_uri(s)), "declared URI")
        }
        7 | 8 => {
            let mut v = list(s, 4, |s| gint(s).to_string());
            let n = v.len();
            let b = no_int(s);
            if b.contains(',') {
                return bad(s);
            }
            v[s.below(n as u64) as usize] = b;
            (format!("X-A;VALUE=integer:{}", v.join(",")), "integer")
        }
        9 => {
            let mut v = list(s, 4, |s| f64::from_bits(gfloat(s)).to_string());
            let n = v.len();
            v[s.below(n as u64) as usize] = no_float(s);
            (format!("X-A;VALUE=float:{}", v.join(",")), "float")
        }
        10 => {
            let t = s.pick::<&str>(&["", "yes", "no", "1", "0", "tru", "truee", "true,false", "t", " true", "false ", "é", "\\ntrue"]);
            (format!("X-A;VALUE=boolean:{t}"), "boolean")
        }
        _ => {
            let k = *s.pick::<&str>(&["date", "time", "date-time", "timestamp", "date-and-or-time", "utc-offset"]);
            let t = text(s, TextOpt { newline: false, long: false, ..VALUE_TEXT });
            // Something without any digit is none of these
            let t: String = t.chars().filter(|c| !c.is_numeric()).collect();
            if t == "Z" || t.contains(['"']) {
                return bad(s);
            }
            let t = esc(s, &t, false, WILD);
            let l = match s.below(4) {
                0 if k == "date-and-or-time" => format!("BDAY:{t}"),
                0 if k == "timestamp" => format!("REV:{t}"),
                0 if k == "utc-offset" => format!("TZ;VALUE=utc-offset:{t}"),
                _ => format!("X-A;VALUE={k}:{t}"),
            };
            (l, "time type")
        }
    }
}

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    cx.nontrivial = true;
    if s.chance(1, 3) {
        // Numbers exactly
        let (want, line) = if s.chance(1, 2) {
            let v: Vec<i64> = list(s, 6, gint);
            let t: Vec<String> = v
                .iter()
                .map(|n| {
                    let sign = if *n < 0 { "-" } else if s.chance(1, 6) { "+" } else { "" };
                    format!("{sign}{}{}", if s.chance(1, 8) { "000" } else { "" }, n.unsigned_abs())
                })
                .collect();
            cx.label("integers");
            (Val::Int(v), format!("X-A;VALUE=integer:{}", t.join(",")))
        } else {
            let v: Vec<u64> = list(s, 6, gfloat);
            let t: Vec<String> = v.iter().map(|f| exact_float(s, f64::from_bits(*f))).collect();
            cx.label("floats");
            (Val::Float(v), format!("X-A;VALUE=float:{}", t.join(",")))
        };
        let t = wrap(&["FN:x".into(), line]);
        cx.input(&t);
        let mut p = prop("X-A", want);
        p.params.value = Some(if matches!(p.val, Val::Int(_)) { "integer" } else { "float" });
        return expect_cards(strict(&t), &[vec![fn_prop("x"), p]], "parse");
    }
    let (mut l, what) = bad(s);
    cx.label(what);
    if s.chance(1, 4) {
        l.insert_str(0, "item1.");
    }
    if s.chance(1, 4) {
        let at = l.find([';', ':']).unwrap();
        l.insert_str(at, ";PREF=1");
    }
    let t = wrap(&["FN:x".into(), "KIND:group".into(), l.clone()]);
    // One KIND only
    let t = if what == "KIND" { wrap(&["FN:x".into(), l.clone()]) } else { t };
    cx.input(&t);
    expect_err(&t, &format!("{l:?}"))?;
    match loose(&t) {
        Ok(c) => ensure!(
            c.len() == 1 && c[0].iter().all(|p| p.name == "FN" || what != "KIND" && p.name == "KIND"),
            "loose parsing keeps {l:?} as {c:?}"
        ),
        Err(e) => fail!("parse_loose: {e}"),
    }
    Ok(())
}

pub const SPEC: Spec = Spec {
    id: "C20",
    check,
    quick: 2_000_000,
    thorough: 10_000_000,
    rule: "values near but outside the syntax of KIND, GENDER, ADR, CLIENTPIDMAP, the URI properties, and VALUE uri, \
           integer, float, boolean and the time types, alone or as one item of a list, with or without group and \
           parameter: rejected, and dropped in loose mode; one third are integers and floats over their whole range in \
           various exact spellings, read back bit for bit; every case is non-trivial",
    must_see: &[
        "KIND", "GENDER", "ADR", "CLIENTPIDMAP", "URI property", "declared URI", "integer", "float", "boolean",
        "time type", "other time type", "integers", "floats",
    ],
    serial: false,
};
