//! Structure and truncation.
use super::*;

const BEGINS: [&str; 12] = [
    "", "BEGIN", "BEGIN:", "BEGIN:VCAR", "BEGIN:VCARDS", "BEGIN;VCARD", "BEGIN :VCARD", "BEGIN:VCALENDAR", "BEGI:VCARD",
    "END:VCARD", "VCARD", "BEGIN;X-A=1:VCARD",
];
const VERSIONS: [&str; 14] = [
    "VERSION", "VERSION:", "VERSION:2.1", "VERSION:4", "VERSION:4.1", "VERSION:40", "VERSION:3", "VERSION:5.0",
    "VERSION=4.0", "VERSIONS:4.0", "VERSION: 4.0", "VERSION:4.0.0", "VERSION:x", "X-VERSION:4.0",
];
const ENDS: [&str; 10] = [
    "END", "END:", "END:VCAR", "END:VCARDS", "END;VCARD", "END :VCARD", "END:VCALENDAR", "EN:VCARD", "BEGIN:VCARD",
    "X-END:VCARD",
];

/// Another line than this one, by one of the list or by a change of one character.
fn misspelt(s: &mut Src, of: &str, list: &[&str]) -> String {
    if s.chance(1, 3) {
        return s.pick::<&str>(list).to_string();
    }
    if of.starts_with('V') && s.chance(1, 2) {
        // Other versions
        let n = s.below(100);
        let t = match s.below(4) {
            0 => format!("VERSION:{}.{}", s.below(10), s.below(10)),
            1 => format!("VERSION:{n}.0"),
            2 => format!("VERSION:{}.{n}", 3 + s.below(2)),
            _ => format!("VERSION:{n}"),
        };
        return if ["VERSION:3.0", "VERSION:4.0"].contains(&&t[..]) { "VERSION:2.1".into() } else { t };
    }
    let mut v: Vec<char> = of.chars().collect();
    let at = s.below(v.len() as u64) as usize;
    let c = match s.below(3) {
        0 => *s.pick(&[';', ':', '.', '=', ',', '-', '"', '\\', 'é', '\u{a0}', '1', '0', '\u{feff}']),
        _ => char::from(33 + s.below(94) as u8),
    };
    match s.below(4) {
        0 => {
            v.remove(at);
        }
        1 => v.insert(at, c),
        2 => v.push(c),
        _ => v[at] = c,
    }
    let t: String = v.into_iter().collect();
    let ok = ["BEGIN:VCARD", "END:VCARD", "VERSION:3.0", "VERSION:4.0"].iter().any(|g| g.eq_ignore_ascii_case(&t));
    if ok { s.pick::<&str>(list).to_string() } else { t }
}

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    let st = Style { folds: s.chance(1, 4), ..some_style(s) };
    let n = 1 + s.weighted(&[3, 1]);
    let mut cards: Vec<Card> = Vec::new();
    for _ in 0..n {
        let mut c = gcard(s);
        if s.chance(1, 2) {
            c.truncate(3);
            if !c.iter().any(|p| p.name == "FN") {
                c.push(fn_prop("x"));
            }
            fix_members(&mut c);
        }
        canonical(&mut c);
        cards.push(c);
    }
    cx.nontrivial = true;
    if s.chance(1, 3) {
        // Every prefix that ends in the last card
        cx.label("prefix");
        let mut t = String::new();
        let mut start = 0;
        for c in &cards {
            start = t.len();
            let lines = card_lines(s, c, st);
            t.push_str(&assemble(s, &lines, st));
        }
        cx.input(&t);
        if let Err(e) = strict(&t) {
            fail!("the whole: {e}");
        }
        // Without the final line ending the card is complete
        let end = t.trim_end_matches(['\r', '\n']).len();
        let total = end - start;
        // All of them in a small text, the last lines and random ones otherwise
        let places: Vec<usize> = if total < 200 {
            (start + 1..end).collect()
        } else {
            let mut v: Vec<usize> = (0..24).map(|_| start + 1 + s.below(total as u64 - 1) as usize).collect();
            v.extend(end - 14..end);
            v
        };
        for i in places {
            if !t.is_char_boundary(i) {
                continue;
            }
            cx.evals += 2;
            if vcard4::parse(&t[..i]).is_ok() {
                fail!("parse accepts a prefix of {i} of {end} bytes: {:?}", &t[..i]);
            }
            if vcard4::parse_loose(&t[..i]).is_ok() {
                fail!("parse_loose accepts a prefix of {i} of {end} bytes: {:?}", &t[..i]);
            }
            // Iteration does not yield the last card
            if cx.evals % 16 == 0 {
                let good = iterate(&t[..i], false)?.iter().filter(|r| r.is_ok()).count();
                ensure!(good < n, "iteration yields a truncated card, at {i} of {end} bytes: {:?}", &t[..i]);
            }
        }
        if let Err(e) = strict(&t[..end]) {
            fail!("without the final line ending: {e}");
        }
        return Ok(());
    }
    // One change of the structure
    let which = s.below(n as u64) as usize;
    let mut t = String::new();
    let mut strict_only = false;
    let mut what = "";
    for (i, c) in cards.iter().enumerate() {
        let mut lines = card_lines(s, c, st);
        if i == which {
            let last = lines.len() - 1;
            match s.below(15) {
                0 => {
                    what = "no BEGIN";
                    lines.remove(0);
                }
                1 => {
                    what = "no VERSION";
                    lines.remove(1);
                }
                2 => {
                    what = "no END";
                    lines.pop();
                }
                3 => {
                    what = "misspelt BEGIN";
                    lines[0] = misspelt(s, "BEGIN:VCARD", &BEGINS);
                }
                4 => {
                    what = "misspelt VERSION";
                    lines[1] = misspelt(s, "VERSION:4.0", &VERSIONS);
                }
                5 => {
                    what = "misspelt END";
                    lines[last] = misspelt(s, "END:VCARD", &ENDS);
                }
                6 => {
                    what = "VERSION not first";
                    let v = lines.remove(1);
                    let at = 2 + s.below(last as u64 - 2) as usize;
                    lines.insert(at, v);
                }
                7 => {
                    what = "VERSION before BEGIN";
                    lines.swap(0, 1);
                }
                8 => {
                    what = "repeated VERSION";
                    strict_only = true;
                    let at = 2 + s.below(last as u64 - 1) as usize;
                    lines.insert(at, "VERSION:4.0".into());
                }
                9 => {
                    what = "repeated BEGIN";
                    let at = s.below(last as u64 + 1) as usize;
                    lines.insert(at, "BEGIN:VCARD".into());
                }
                10 => {
                    what = "repeated END";
                    lines.push("END:VCARD".into());
                }
                11 => {
                    what = "junk before or after";
                    let j = s.pick::<&str>(&["x", "FN:x", "NOTE:", "junk", ";", "=", "\"", "BEGIN", "END", "\u{feff}", "é", "0"]).to_string();
                    if s.chance(1, 2) {
                        lines.insert(0, j);
                    } else {
                        lines.push(j);
                    }
                }
                12 => {
                    what = "two on one line";
                    // BEGIN and VERSION, VERSION and a property, a property and END
                    let k = *s.pick(&[0, 1, last - 1]);
                    let a = lines.remove(k);
                    let sep = *s.pick::<&str>(&[" ", "\t", "", ";", ",", ":", "  "]);
                    lines[k] = format!("{a}{sep}{}", lines[k]);
                }
                13 => {
                    // An empty line is not a property
                    what = "empty line in a card";
                    let at = 1 + s.below(last as u64) as usize;
                    strict_only = at >= 2;
                    lines.insert(at, String::new());
                }
                _ => {
                    what = "END early";
                    let at = 1 + s.below(last as u64 - 1) as usize;
                    let e = lines.remove(last);
                    lines.insert(at, e);
                }
            }
        }
        let st = if i == which { Style { folds: false, ..st } } else { st };
        t.push_str(&assemble(s, &lines, st));
        if i + 1 < n {
            t.push_str(&blank(s, st));
        }
    }
    cx.label(what);
    cx.input(&t);
    expect_err(&t, what)?;
    // END glued to the last property is part of its value: that is a missing END, in every mode
    if !strict_only {
        ensure!(vcard4::parse_loose(&t).is_err(), "{what} is accepted loosely");
    }
    Ok(())
}

/// Texts without any card.
fn nothing(s: &mut Src) -> String {
    let n = s.below(6);
    (0..n).map(|_| *s.pick::<&str>(&["\r\n", "\n", " ", "\t", "x", "BEGIN:VCARD", "END:VCARD", "VERSION:4.0", "FN:x", ":"])).collect()
}
fn check_all(s: &mut Src, cx: &mut Ctx) -> Res {
    if s.chance(1, 20) {
        let t = nothing(s);
        cx.input(&t);
        cx.label("no card");
        cx.nontrivial = !t.is_empty();
        // Not even by chance a card: it has no complete one of three lines and FN
        expect_err(&t, "a text without a card")?;
        ensure!(vcard4::parse_loose(&t).is_err(), "a text without a card is accepted loosely: {t:?}");
        return Ok(());
    }
    check(s, cx)
}

pub const SPEC: Spec = Spec {
    id: "C19",
    check: check_all,
    quick: 50_000,
    thorough: 2_000_000,
    rule: "prefixes of texts of one or two cards in any spelling that end inside the last card (all of small ones), and \
           one change of the structure lines of a card (missing, misspelt, misplaced, repeated, glued, junk outside, empty lines inside), \
           and texts without a card: errors in strict and loose mode; non-trivial: not empty",
    must_see: &[
        "prefix", "no BEGIN", "no VERSION", "no END", "misspelt BEGIN", "misspelt VERSION", "misspelt END",
        "VERSION not first", "VERSION before BEGIN", "repeated VERSION", "repeated BEGIN", "repeated END",
        "junk before or after", "two on one line", "END early", "empty line in a card", "no card",
    ],
    serial: false,
};
