//! Whatever is accepted can be printed and read again.
use super::*;

pub const TOKENS: [&str; 62] = [
    ":", ";", ",", "=", "\"", "\\", "\\n", "\\,", "\\;", "\\\\", ".", "-", " ", "\t", "'", "T", "Z", "+", "0", "1", "00",
    "é", "日", "\r\n", "\n", "\r\n ", "\n\t", "X-", "x-a", "NOTE", "FN", "TZ", "GEO", "TYPE", "VALUE", "VALUE=", "text",
    "uri", "TYPE=home,work", ";TYPE=x:y", "PREF=1", "PID=1.2", "ALTID=", "SORT-AS=", "LABEL=", "CHARSET=UTF-8",
    "ENCODING=b", "MEDIATYPE=text/plain", "LANGUAGE=en", "X-P=", "date", "utc-offset", "--", "19850412", "T102200",
    "102200", "-0030", "urn:a", "item1.", "\u{1}", "\r", "\u{7f}",
];

/// Small random changes.
pub fn mutate(s: &mut Src, text: &str, times: u64) -> String {
    let mut c: Vec<char> = text.chars().collect();
    let n = 1 + s.below(times);
    for _ in 0..n {
        if c.is_empty() {
            break;
        }
        let at = s.below(c.len() as u64) as usize;
        match s.below(5) {
            0 => {
                c.remove(at);
            }
            1 | 2 => {
                let t: Vec<char> = s.pick::<&str>(&TOKENS).chars().collect();
                c.splice(at..at, t);
            }
            3 => {
                // Copy a piece elsewhere
                let len = (1 + s.below(12) as usize).min(c.len() - at);
                let piece: Vec<char> = c[at..at + len].to_vec();
                let to = s.below(c.len() as u64) as usize;
                c.splice(to..to, piece);
            }
            _ => {
                let len = (1 + s.below(6) as usize).min(c.len() - at);
                let t: Vec<char> = s.pick::<&str>(&TOKENS).chars().collect();
                c.splice(at..at + len, t);
            }
        }
    }
    c.into_iter().collect()
}

/// Lines in unusual but accepted forms.
pub fn lenient_line(s: &mut Src) -> String {
    let t = text(s, TextOpt { newline: false, ..VALUE_TEXT });
    let q = t.replace(['"', ':', ';'], "");
    match s.below(16) {
        0 => format!("NOTE:{t}"),
        1 => format!("NOTE;ALTID={q}:{t}"),
        2 => format!("NOTE;ALTID=\"{}\":{t}", t.replace('"', "")),
        3 => format!("N:{t}"),
        4 => format!("ADR:{t};;;;;;;{q}"),
        5 => format!("GENDER:M;{t}"),
        6 => format!("TZ:{t}"),
        7 => format!("TEL;TYPE={q}:{t}"),
        8 => format!("X-A;X-B={q},{q};X-C=\"{q}\":{t}"),
        9 => format!("NOTE;TZ={q}:{t}"),
        10 => format!("BDAY:{}", s.pick::<&str>(&["102200", "10:22", "T10", "1985-W15-5", "1985102", "--0412", "T-2200.5", "19850412T102200.25Z", "19850412T24", "T102200,19850412", "1985", "198504"])),
        11 => format!("X-N;VALUE={}:{}", s.pick::<&str>(&["integer", "float"]), s.pick::<&str>(&["+1", "007", "-0", "1,2,3", "1e5", "nan", "inf", "-infinity", ".5", "5.", "1E-400"])),
        12 => format!("NOTE;SORT-AS={q},,{q}:{t}"),
        13 => format!("PHOTO;VALUE=uri:{t}"),
        14 => format!("NOTE;CHARSET=UTF-8;PREF=+1;PID=+1.007:{t}"),
        _ => format!("NOTE;VALUE={}:{t}", s.pick::<&str>(&VALUE_TYPES)),
    }
}

/// A text near the border of what is accepted.
pub fn border_text(s: &mut Src, cx: &mut Ctx) -> String {
    let st = some_style(s);
    let n = 1 + s.below(2);
    let cards: Vec<Card> = (0..n).map(|_| gcard(s)).collect();
    let mut t = render(s, &cards, st);
    match s.below(3) {
        0 => {}
        1 => {
            cx.label("unusual line");
            let k = 1 + s.below(4);
            for _ in 0..k {
                let l = lenient_line(s);
                let at = t.to_uppercase().find("END:VCARD");
                if let Some(at) = at.filter(|a| t.is_char_boundary(*a)) {
                    t.insert_str(at, &format!("{l}\r\n"));
                }
            }
        }
        _ => {
            cx.label("mutated");
            t = mutate(s, &t, 6);
        }
    }
    t
}

fn nan_free(c: &mut Card) {
    for p in c {
        if let Val::Float(v) = &mut p.val {
            for b in v {
                if f64::from_bits(*b).is_nan() {
                    *b = f64::NAN.to_bits();
                }
            }
        }
    }
}

/// No form of a parameter value can have both a double quote and a colon, which several TYPE parameters
/// together can: printed with single quotes.
fn strip_quotes(c: &mut Card) -> bool {
    let mut lost = false;
    for t in c.iter_mut().filter_map(|p| p.params.types.as_mut()) {
        if t.iter().any(|t| t.contains('"')) && (t.iter().any(|t| t.contains(':')) || t[0].starts_with('"')) {
            lost = true;
            t.iter_mut().for_each(|t| *t = t.replace('"', "'"));
        }
    }
    lost
}

fn again(c: &Vcard, what: &str, cx: &mut Ctx) -> Res {
    let out = c.to_string();
    let back = match vcard4::parse(&out) {
        Ok(b) => b,
        Err(e) => fail!("{what}: printed as {out:?}, which is an error: {e}"),
    };
    ensure!(back.len() == 1, "{what}: printed as {} cards", back.len());
    let (mut a, mut b) = (logical(c), logical(&back[0]));
    let mut lost = strip_fractions(&mut a);
    cx.label_if(lost, "fraction of a second");
    lost |= strip_quotes(&mut a);
    nan_free(&mut a);
    nan_free(&mut b);
    if let Some(d) = diff(&b, &a) {
        fail!("{what}: printed as {out:?}: {d}");
    }
    let has_nan = a.iter().any(|p| matches!(&p.val, Val::Float(v) if v.iter().any(|b| f64::from_bits(*b).is_nan())));
    ensure!(lost || has_nan || *c == back[0], "{what}: does not compare equal");
    let out2 = back[0].to_string();
    ensure!(out == out2, "{what}: printed as {out:?}, then as {out2:?}");
    Ok(())
}

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    let t = border_text(s, cx);
    cx.input(&t);
    if let Ok(cards) = vcard4::parse(&t) {
        cx.label("accepted");
        cx.nontrivial = true;
        for c in &cards {
            again(c, "parse", cx)?;
        }
    }
    if let Ok(cards) = vcard4::parse_loose(&t) {
        cx.label_if(!cx.nontrivial, "accepted in loose mode only");
        cx.nontrivial = true;
        for c in &cards {
            again(c, "parse_loose", cx)?;
        }
    }
    Ok(())
}

pub const SPEC: Spec = Spec {
    id: "C07",
    check,
    quick: 70_000,
    thorough: 4_000_000,
    rule: "texts of cards in any spelling, with unusual lines (bare quotes, unknown escapes, odd dates and numbers) or \
           random edits; what strict or loose parsing accepts is printed, parsed and printed again; non-trivial: \
           accepted",
    must_see: &["accepted", "accepted in loose mode only", "unusual line", "mutated", "fraction of a second"],
    serial: false,
};
