//! Loose parsing drops exactly the lines in error.
use super::c07::{TOKENS, border_text, lenient_line, mutate};
use super::*;

/// Lines that are in error in any card.
pub const BAD: [(&str, &str); 79] = [
    ("FOO:bar", "name"),
    ("XFOO:bar", "name"),
    ("NOTES:bar", "name"),
    ("FNX:bar", "name"),
    ("AGENT:x", "name"),
    ("X:bar", "name"),
    ("item1.FOO:bar", "name"),
    ("a.b.NOTE:x", "name"),
    (".NOTE:x", "name"),
    (":x", "name"),
    (";:x", "name"),
    ("NOTE :x", "name"),
    (" ", "fold"),
    ("NOTE", "delimiter"),
    ("NOTE;PREF=1", "delimiter"),
    ("NOTE;", "delimiter"),
    ("just some words", "delimiter"),
    ("item1.", "delimiter"),
    ("=", "delimiter"),
    ("\"", "delimiter"),
    ("NOTE;FOO=bar:x", "parameter name"),
    ("NOTE;PREFX=1:x", "parameter name"),
    ("NOTE;XA=1:x", "parameter name"),
    ("NOTE;=1:x", "parameter name"),
    ("NOTE;;PREF=1:x", "parameter name"),
    ("NOTE;PREF:x", "parameter name"),
    ("NOTE;home:x", "parameter name"),
    ("NOTE;PREF=0:x", "parameter value"),
    ("NOTE;PREF=101:x", "parameter value"),
    ("NOTE;PREF=x:x", "parameter value"),
    ("NOTE;PREF=:x", "parameter value"),
    ("NOTE;PREF=1,2:x", "parameter value"),
    ("NOTE;PREF=-1:x", "parameter value"),
    ("NOTE;PREF=999999999999999999999:x", "parameter value"),
    ("NOTE;PID=a:x", "parameter value"),
    ("NOTE;PID=1.a:x", "parameter value"),
    ("NOTE;PID=1,:x", "parameter value"),
    ("NOTE;PID=1.2.3:x", "parameter value"),
    ("NOTE;GEO=geo:1,2:x", "parameter value"),
    ("NOTE;GEO=1:x", "parameter value"),
    ("NOTE;GEO=\"nowhere\":x", "parameter value"),
    ("NOTE;TZ=\"nowhere\":x", "parameter value"),
    ("NOTE;CHARSET=latin1:x", "parameter value"),
    ("NOTE;ALTID=\"abc:x", "quote"),
    ("NOTE;X-A=\":x", "quote"),
    ("BDAY;TYPE=home:19850412", "forbidden parameter"),
    ("UID;TYPE=work:urn:a:b", "forbidden parameter"),
    ("N;TYPE=home:a;b", "forbidden parameter"),
    ("NOTE;LABEL=x:y", "forbidden parameter"),
    ("TEL;LABEL=\"x\":1", "forbidden parameter"),
    ("CLIENTPIDMAP;PID=1.1:1;urn:a:b", "forbidden parameter"),
    ("KIND:foo", "value"),
    ("KIND:", "value"),
    ("GENDER:Q", "value"),
    ("GENDER:MF", "value"),
    ("ADR:a;b", "value"),
    ("ADR:;;;;;", "value"),
    ("CLIENTPIDMAP:urn:a:b", "value"),
    ("CLIENTPIDMAP:x;urn:a:b", "value"),
    ("CLIENTPIDMAP:1;x", "value"),
    ("URL:not a uri", "value"),
    ("SOURCE:", "value"),
    ("MEMBER:nobody", "value"),
    ("GEO:1.2;3.4", "value"),
    ("REV:yesterday", "value"),
    ("REV:20201301T000000Z", "value"),
    ("BDAY:someday", "value"),
    ("ANNIVERSARY:20210230", "value"),
    ("TZ;VALUE=utc-offset:far", "value"),
    ("TZ;VALUE=integer:1", "value"),
    ("X-A;VALUE=integer:1,x", "value"),
    ("X-A;VALUE=boolean:yes", "value"),
    ("X-A;VALUE=date:20211301", "value"),
    ("NOTE:a\u{1}b", "control character"),
    ("NOTE;ALTID=\u{7f}:b", "control character"),
    ("NO\u{0}TE:b", "control character"),
    ("NOTE:a\rb", "control character"),
    ("", "blank line"),
    ("VERSION:4.0", "misplaced"),
];

/// A property line in error, in a card where it stands after all its other lines.
pub fn bad_line(s: &mut Src, card: &[Prop], cx: &mut Ctx) -> (String, bool) {
    let single: Vec<&Prop> = card.iter().filter(|p| SINGLE.contains(&&p.name[..])).collect();
    if !single.is_empty() && s.chance(1, 4) {
        cx.label("repeated");
        let name = s.pick(&single).name.clone();
        let p = gprop_named(s, &name, VALUE_TEXT, PARAMS);
        // Only after the first one
        return (render_prop(s, &p, WILD), true);
    }
    loop {
        let (l, what) = *s.pick(&BAD);
        if what == "fold" {
            continue;
        }
        cx.label(what);
        return (l.to_string(), false);
    }
}

/// Lines of a card with bad ones added.
pub fn spoiled(s: &mut Src, card: &[Prop], st: Style, bad: u64, cx: &mut Ctx) -> String {
    let mut lines = card_lines(s, card, st);
    let mut keep = lines.clone();
    let n = 1 + s.below(bad);
    let mut last = Vec::new();
    for _ in 0..n {
        let (l, at_end) = bad_line(s, card, cx);
        if at_end {
            last.push(l);
        } else {
            place(s, &mut keep, l);
        }
    }
    // Repeated ones anywhere after the last good line of the card
    for l in last {
        let end = keep.len() - 1;
        let from = lines.len().max(3) - 2;
        let from = keep.iter().rposition(|k| *k == lines[from]).unwrap_or(end - 1).min(end - 1) + 1;
        let at = from + s.below((end - from + 1) as u64) as usize;
        keep.insert(at, l);
    }
    lines.clear();
    let st2 = Style { folds: false, ..st };
    let mut r = String::new();
    for l in keep {
        // A folded blank line is another line
        let fold = if l.is_empty() || l.contains('\r') { st2 } else { st };
        r.push_str(&assemble(s, &[l], fold));
    }
    r
}

fn random_line(s: &mut Src) -> String {
    let mut l = match s.below(4) {
        0 => lenient_line(s),
        1 => {
            let n = 1 + s.below(12);
            (0..n).map(|_| *s.pick::<&str>(&TOKENS)).collect()
        }
        _ => {
            let name = any_name(s);
            let p = gprop_named(s, &name, VALUE_TEXT, PARAMS);
            let st = some_style(s);
            render_prop(s, &p, st)
        }
    };
    if s.chance(2, 3) {
        l = mutate(s, &l, 4);
    }
    l
}

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    match s.below(5) {
        0 => {
            // The same as strict where that accepts
            let t = border_text(s, cx);
            cx.input(&t);
            if let Ok(c) = strict(&t) {
                cx.label("accepted by both");
                cx.nontrivial = true;
                expect_cards(loose(&t), &c, "parse_loose of an accepted text")?;
            }
        }
        1 => {
            // Lines accepted one by one
            let n = 1 + s.below(6);
            let lines: Vec<String> = (0..n)
                .map(|_| random_line(s))
                .filter(|l| {
                    let u = l.to_ascii_uppercase();
                    !(l.contains('\n')
                        || l.starts_with([' ', '\t'])
                        || u.starts_with("BEGIN:VCARD")
                        || u.starts_with("END:VCARD")
                        || u.contains("VALUE="))
                })
                .collect();
            let base = ["KIND:group".to_string(), "FN:x".to_string()];
            let mut kept = base.to_vec();
            for l in &lines {
                let mut t = kept.clone();
                t.push(l.clone());
                if vcard4::parse(wrap(&t)).is_ok() {
                    kept = t;
                }
            }
            let all: Vec<String> = base.iter().chain(&lines).cloned().collect();
            let t = wrap(&all);
            cx.input(&t);
            cx.label("random lines");
            cx.nontrivial = kept.len() > 2 && kept.len() < all.len();
            let want = match strict(&wrap(&kept)) {
                Ok(c) => c,
                Err(e) => fail!("the accepted lines together: {e}"),
            };
            expect_cards(loose(&t), &want, "parse_loose of accepted and rejected lines")?;
        }
        2 => {
            // An unknown VALUE is ignored
            let mut card = gcard(s);
            let i = s.below(card.len() as u64) as usize;
            let p = &mut card[i];
            p.params.value = None;
            match p.val {
                Val::Text(ref t) if !t.contains(':') && !["BDAY", "ANNIVERSARY"].contains(&&p.name[..]) => {}
                Val::Uri(_) if p.name != "TZ" && !p.name.to_uppercase().starts_with("X-") => {}
                Val::Kind(_) | Val::Semi(_) | Val::Comma(_) | Val::Adr(_) | Val::Gender(..) => {}
                _ => return Ok(()),
            }
            cx.label("unknown VALUE");
            cx.nontrivial = true;
            let mut lines = card_lines(s, &card, PLAIN);
            let bogus = *s.pick::<&str>(&["VALUE=bogus", "value=x-own", "VALUE=", "Value=\"texts\"", "VALUE=date-times"]);
            let l = &mut lines[i + 2];
            let end = l.find([';', ':']).unwrap();
            l.insert_str(end, &format!(";{bogus}"));
            let t = assemble(s, &lines, PLAIN);
            cx.input(&t);
            expect_err(&t, "unknown VALUE")?;
            expect_cards(loose(&t), &[card], "parse_loose with an unknown VALUE")?;
        }
        _ => {
            let n = 1 + s.weighted(&[3, 1]);
            let st = some_style(s);
            let cards: Vec<Card> = (0..n).map(|_| gcard(s)).collect();
            let which = s.below(n as u64) as usize;
            let mut t = String::new();
            for (i, c) in cards.iter().enumerate() {
                if i == which || s.chance(1, 2) {
                    t.push_str(&spoiled(s, c, st, 4, cx));
                } else {
                    let lines = card_lines(s, c, st);
                    t.push_str(&assemble(s, &lines, st));
                }
            }
            cx.input(&t);
            cx.nontrivial = true;
            cx.label_if(n > 1, "several cards");
            expect_err(&t, "a card with a line in error")?;
            expect_cards(loose(&t), &cards, "parse_loose")?;
            expect_cards(iterate_all(&t, false)?, &cards, "loose iteration")?;
            // What is left may not be a valid card
            if s.chance(1, 10) {
                let no_fn: Vec<String> = t.lines().filter(|l| !l.to_uppercase().contains("FN")).map(|l| l.to_string()).collect();
                let t = no_fn.join("\n");
                if !t.contains("\n ") && !t.contains("\n\t") {
                    cx.label("invalid without the lines in error");
                    ensure!(vcard4::parse_loose(&t).is_err(), "card without FN is accepted loosely: {t:?}");
                }
            }
        }
    }
    Ok(())
}

pub const SPEC: Spec = Spec {
    id: "C13",
    check,
    quick: 60_000,
    thorough: 3_000_000,
    rule: "cards in any spelling with up to four lines in error at any place (from a table of 78 lines of all classes, \
           and repeated single-valued properties), compared with the cards without them; random and edited lines, \
           each accepted or not by strict parsing after the accepted ones before it; unknown VALUE types; and texts \
           that strict parsing accepts; non-trivial: something is dropped, or accepted by both",
    must_see: &[
        "accepted by both", "random lines", "unknown VALUE", "several cards", "repeated", "name", "delimiter",
        "parameter name", "parameter value", "quote", "forbidden parameter", "value", "control character", "blank line",
        "misplaced", "invalid without the lines in error",
    ],
    serial: false,
};
