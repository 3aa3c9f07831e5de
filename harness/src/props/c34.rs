//! The result depends on the text alone: not on earlier calls, other threads, or how the text is held.
use super::c07::border_text;
use super::*;
use crate::dates::*;
use std::borrow::Cow;

type Items = Vec<Result<Card, String>>;

fn items(t: &str, strict: bool) -> Result<Items, Fail> {
    Ok(iterate(t, strict)?.into_iter().map(|r| r.map(|c| logical(&c))).collect())
}
fn same<X: PartialEq + std::fmt::Debug>(a: &X, b: &X, what: &str) -> Res {
    ensure!(a == b, "{what}: {} instead of {}", clip(&format!("{a:?}"), 800), clip(&format!("{b:?}"), 800));
    Ok(())
}
/// Results with printed cards, errors as text.
fn printed(r: vcard4::Result<Vec<Vcard>>) -> Result<Vec<String>, String> {
    r.map(|v| v.iter().map(|c| c.to_string()).collect()).map_err(|e| e.to_string())
}

fn a_text(s: &mut Src, cx: &mut Ctx) -> String {
    match s.below(3) {
        0 => border_text(s, cx),
        1 => {
            let n = 1 + s.below(4);
            let st = some_style(s);
            let c: Vec<Card> = (0..n).map(|_| if s.chance(1, 2) { tiny_card(s) } else { gcard(s) }).collect();
            render(s, &c, st)
        }
        _ => {
            // Good and bad cards
            let n = 1 + s.below(5);
            let mut t = String::new();
            for _ in 0..n {
                let c = tiny_card(s);
                let mut lines = card_lines(s, &c, PLAIN);
                if s.chance(1, 3) {
                    let (l, _) = *s.pick(&super::c13::BAD);
                    place(s, &mut lines, l.to_string());
                }
                if s.chance(1, 8) {
                    lines.pop();
                }
                t.push_str(&assemble(s, &lines, PLAIN));
            }
            t
        }
    }
}

/// Another text for a parameter.
fn other_word(s: &mut Src, t: &mut String) {
    if s.chance(1, 2) {
        let swap = |c: char| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
        *t = t.chars().map(swap).collect();
    } else {
        super::c31::other_text(s, t);
        *t = t.replace('"', "'");
    }
}
fn other_words(s: &mut Src, p: &mut Prop) {
    if let Some(g) = &mut p.group
        && s.chance(1, 2)
    {
        *g = if g.bytes().any(|c| c.is_ascii_lowercase()) { g.to_ascii_uppercase() } else { g.to_ascii_lowercase() };
    }
    let q = &mut p.params;
    for t in [&mut q.altid, &mut q.calscale, &mut q.label].into_iter().flatten() {
        other_word(s, t);
    }
    if let Some(t) = &mut q.language
        && cfg!(not(feature = "lang"))
    {
        other_word(s, t);
    }
    let lists = q.sort_as.iter_mut().chain(q.ext.iter_mut().map(|e| &mut e.1));
    for l in lists {
        for t in l {
            if s.chance(1, 2) {
                other_word(s, t);
            }
        }
    }
    for t in q.types.iter_mut().flatten() {
        if let Some(rest) = t.strip_prefix("X-") {
            let mut rest = rest.to_string();
            other_word(s, &mut rest);
            *t = format!("X-{rest}");
        }
    }
    for (_, n) in q.pid.iter_mut().flatten() {
        *n = match *n {
            Some(n) if n > 0 => Some(n - 1),
            n => n,
        };
    }
    if let Some(n) = &mut q.pref {
        *n = *n % 100 + 1;
    }
}

/// Two cards that differ in one value, one read after the other.
fn neighbours(s: &mut Src, cx: &mut Ctx) -> Res {
    use super::c31::{other_text, other_uri};
    cx.label("neighbours");
    let name = any_name(s);
    let opt = if s.chance(1, 2) { PARAMS } else { ParamOpt { rarity: 3, text: PARAM_TEXT } };
    let mut a = vec![fn_prop("x"), gprop_named(s, &name, VALUE_TEXT, opt)];
    fix_members(&mut a);
    canonical(&mut a);
    let mut all = vec![a];
    for _ in 0..1 + s.below(3) {
        let mut b = s.pick(&all).clone();
        for p in &mut b {
            if p.name == "FN" && name != "FN" {
                continue;
            }
            match &mut p.val {
                Val::Uri(u) => other_uri(s, u),
                Val::PidMap(_, u) => other_uri(s, u),
                Val::Text(t) if ["NOTE", "TITLE", "ROLE", "EMAIL", "FN", "NICKNAME", "XML", "PRODID"].contains(&&p.name[..]) => other_text(s, t),
                Val::Semi(v) | Val::Comma(v) => {
                    let i = s.below(v.len() as u64) as usize;
                    other_text(s, &mut v[i]);
                }
                Val::DoT(v) => v.reverse(),
                Val::Int(v) => v[0] = v[0].wrapping_add(1),
                Val::Bool(b) => *b = !*b,
                Val::Offset(o) => *o = if *o >= 0 { *o - 60 } else { *o + 60 },
                _ => {}
            }
            if s.chance(1, 2) {
                other_words(s, p);
            }
            if let Some(u) = &mut p.params.geo {
                other_uri(s, u);
            }
            match &mut p.params.tz {
                Some(Tz::Uri(u)) => other_uri(s, u),
                Some(Tz::Offset(o)) => *o = if *o >= 0 { *o - 60 } else { *o + 60 },
                _ => {}
            }
        }
        all.push(b);
    }
    let texts: Vec<String> = all.iter().map(|c| render(s, std::slice::from_ref(c), PLAIN)).collect();
    cx.input(&texts.join("\n--\n"));
    cx.nontrivial = true;
    for _ in 0..texts.len() + 2 {
        let i = s.below(texts.len() as u64) as usize;
        match strict(&texts[i]) {
            Ok(v) if v.len() == 1 => {
                if let Some(d) = diff(&v[0], &all[i]) {
                    fail!("text {i}, after others of its kind: {d}");
                }
            }
            r => fail!("text {i}, after others of its kind: {r:?}"),
        }
    }
    Ok(())
}

fn days_from_epoch(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let m = if m <= 2 { m + 9 } else { m - 3 };
    365 * y + y / 4 - y / 100 + y / 400 + (153 * m + 2) / 5 + d - 1 - 719_468
}

/// A time now or then: days that not every year or month has, ends of the year, any time of the day.
fn a_time(s: &mut Src) -> (i64, u32) {
    let year = match s.below(4) {
        0 => *s.pick(&[1970, 1999, 2000, 2024, 2025, 2026, 2028, 2038, 2100, 9999]),
        _ => s.range(1970, 2100),
    };
    let leap = year % 4 == 0 && (year % 100 != 0 || year % 400 == 0);
    let (month, day) = match s.below(4) {
        0 if leap => (2, 29),
        1 => *s.pick(&[(1, 1), (1, 31), (2, 28), (3, 1), (3, 31), (4, 30), (12, 31)]),
        _ => (1 + s.below(12), 1 + s.below(28)),
    };
    let days = days_from_epoch(year, month as i64, day as i64);
    let (sec, ns) = match s.below(3) {
        0 => (*s.pick(&[0, 1, 3599, 43200, 86399]), *s.pick(&[0, 1, 999_999_999])),
        _ => (s.below(86400) as i64, s.below(1_000_000_000) as u32),
    };
    (days * 86400 + sec, ns)
}

fn dt_text(s: &mut Src) -> String {
    match s.below(4) {
        0 => { let d = gdate(s); spell_date(s, d) }
        1 => { let t = gtime(s); spell_time(s, t, true) }
        2 => { let d = gdt(s); spell_dt(s, d) }
        _ => {
            let n = 1 + s.below(12);
            (0..n).map(|_| *s.pick(&['-', '-', '0', '1', '2', '3', '9', 'T', ':', 'Z', '+'])).collect()
        }
    }
}

/// Whether the time of the test has a say.
fn clock(s: &mut Src, cx: &mut Ctx) -> Res {
    cx.label("clock");
    ensure!(crate::clock::works(), "the harness cannot set the clock");
    let mut card = vec![fn_prop("x")];
    for _ in 0..1 + s.below(3) {
        let name = match s.below(5) {
            0 => "BDAY".to_string(),
            1 => "ANNIVERSARY".to_string(),
            2 => "REV".to_string(),
            3 => xname(s),
            _ => any_name(s),
        };
        if SINGLE.contains(&&name[..]) && card.iter().any(|p| p.name == name) {
            continue;
        }
        let p = gprop_named(s, &name, VALUE_TEXT, PARAMS);
        card.push(p);
    }
    fix_members(&mut card);
    canonical(&mut card);
    let st = some_style(s);
    let mut t = render(s, std::slice::from_ref(&card), st);
    let mut exact = true;
    if s.chance(1, 2) {
        // Other texts of dates and times, right or wrong
        exact = false;
        let d = match s.below(3) {
            0 => format!("--{:02}{:02}", 1 + s.below(12), s.below(33)),
            1 => format!("---{:02}", s.below(33)),
            _ => dt_text(s),
        };
        let l = match s.below(4) {
            0 => format!("BDAY:{d}"),
            1 => format!("REV:{d}"),
            2 => format!("X-A;VALUE={}:{d}", s.pick::<&str>(&["date", "time", "date-time", "timestamp", "date-and-or-time"])),
            _ => format!("ANNIVERSARY;VALUE={}:{d}", s.pick::<&str>(&["date", "time", "date-time", "date-and-or-time"])),
        };
        let mut lines = vec!["FN:x".to_string(), l];
        if s.chance(1, 2) {
            lines.push("X-A;VALUE=date:--0229,--1231,---31".into());
        }
        t = wrap(&lines);
    }
    cx.input(&t);
    cx.nontrivial = true;
    let mut first: Option<(Parsed, Result<Vec<String>, String>, i64)> = None;
    for _ in 0..3 {
        let (sec, ns) = a_time(s);
        let (got, text) = crate::clock::at(sec, ns, || (strict(&t), printed(vcard4::parse(&t))));
        if exact {
            expect_cards(got.clone(), std::slice::from_ref(&card), "parse at another time")?;
        }
        match &first {
            None => first = Some((got, text, sec)),
            Some((g, p, at)) => {
                ensure!(*g == got, "read {sec} s after 1970: {got:?}, and {at} s after: {g:?}");
                ensure!(*p == text, "printed {sec} s after 1970: {text:?}, and {at} s after: {p:?}");
            }
        }
    }
    Ok(())
}

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    match s.below(6) {
        0 | 1 | 2 => return neighbours(s, cx),
        3 => return clock(s, cx),
        _ => {}
    }
    let n = 2 + s.below(3) as usize;
    let mut texts: Vec<String> = (0..n).map(|_| a_text(s, cx)).collect();
    if s.chance(1, 3) {
        // Nearly the same text
        let i = s.below(n as u64) as usize;
        let t = texts[i].replacen("FN:", "FN:x", 1);
        texts.push(t);
    }
    if s.chance(1, 2) {
        // The same text with characters exchanged one for one
        cx.label("related text");
        let i = s.below(n as u64) as usize;
        let k = s.below(5);
        let (from, to) = *s.pick(&[('1', '2'), ('0', '1'), ('a', 'b'), ('e', 'a'), (' ', '-'), ('/', '.')]);
        let t: String = texts[i]
            .split_inclusive('\n')
            .map(|l| match l.find(':') {
                Some(at) if !l.to_ascii_uppercase().starts_with(['B', 'E', 'V']) => {
                    let (a, b) = l.split_at(at);
                    let b = match k {
                        0 => b.to_ascii_lowercase(),
                        1 => b.to_ascii_uppercase(),
                        2 => b.chars().map(|c| if c == from { to } else { c }).collect(),
                        3 => b.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
                        // The last character of the line
                        _ => {
                            let end = b.trim_end().len();
                            let keep = b[..end].char_indices().last().map_or(0, |(i, _)| i).max(1);
                            format!("{}{}{}", &b[..keep], to, &b[end..])
                        }
                    };
                    format!("{a}{b}")
                }
                _ => l.to_string(),
            })
            .collect();
        texts.push(t);    }
    cx.input(&texts.join("\n--\n"));
    cx.nontrivial = true;
    let want: Vec<(Parsed, Parsed, Items, Items)> = {
        let mut v = Vec::new();
        for t in &texts {
            v.push((strict(t), loose(t), items(t, true)?, items(t, false)?));
        }
        v
    };
    cx.label_if(want.iter().any(|w| w.0.is_err()), "an error");
    cx.label_if(want.iter().any(|w| w.0.is_ok()), "a success");
    // In threads of their own
    if s.chance(1, 2) {
        cx.label("fresh threads");
        let r: Vec<Res> = std::thread::scope(|sc| {
            let h: Vec<_> = (0..texts.len())
                .map(|i| {
                    let (t, w) = (&texts[i], &want[i]);
                    sc.spawn(move || {
                        same(&strict(t), &w.0, "parse in a fresh thread")?;
                        same(&loose(t), &w.1, "parse_loose in a fresh thread")?;
                        same(&items(t, true)?, &w.2, "iteration in a fresh thread")
                    })
                })
                .collect();
            h.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Fail("panic in a thread".into())))).collect()
        });
        for r in r {
            r?;
        }
    }
    // Again, in any order
    for _ in 0..4 {
        let i = s.below(texts.len() as u64) as usize;
        let (t, w) = (&texts[i], &want[i]);
        match s.below(6) {
            0 => same(&strict(t), &w.0, "parse again")?,
            1 => same(&loose(t), &w.1, "parse_loose again")?,
            2 => same(&items(t, true)?, &w.2, "iteration again")?,
            3 => same(&items(t, false)?, &w.3, "loose iteration again")?,
            4 => {
                let r = [
                    cards(vcard4::parse(t.clone())),
                    cards(vcard4::parse(t)),
                    cards(vcard4::parse(Cow::Borrowed(&t[..]))),
                    cards(vcard4::parse(Box::<str>::from(&t[..]))),
                ];
                for r in &r {
                    same(r, &w.0, "parse of another kind of text")?;
                }
                let r = [cards(vcard4::parse_loose(t.clone())), cards(vcard4::parse_loose(Cow::Borrowed(&t[..])))];
                for r in &r {
                    same(r, &w.1, "parse_loose of another kind of text")?;
                }
                cx.label("owned text");
            }
            _ => {
                // Part of a longer text
                let other = s.pick(&texts).clone();
                let whole = format!("{other}{t}{other}");
                let part = &whole[other.len()..other.len() + t.len()];
                same(&strict(part), &w.0, "parse of a slice")?;
                same(&items(part, true)?, &w.2, "iteration of a slice")?;
                cx.label("slice");
            }
        }
    }
    // Iterators side by side
    if s.chance(1, 2) {
        cx.label("side by side");
        let mut its: Vec<_> = (0..2 + s.below(4) as usize)
            .map(|_| {
                let i = s.below(texts.len() as u64) as usize;
                let st = s.chance(1, 2);
                (i, st, vcard4::iter(&texts[i], st), Items::new())
            })
            .collect();
        let max: usize = texts.iter().map(|t| t.len() + 4).sum();
        for _ in 0..max {
            if its.is_empty() {
                break;
            }
            let k = s.below(its.len() as u64) as usize;
            let (i, st, it, got) = &mut its[k];
            match it.next() {
                Some(r) => got.push(r.map(|c| logical(&c)).map_err(|e| e.to_string())),
                None => {
                    let w = if *st { &want[*i].2 } else { &want[*i].3 };
                    same(got, w, "iteration beside another one")?;
                    its.remove(k);
                }
            }
        }
        ensure!(its.is_empty(), "iteration does not end");
    }
    // Threads
    if s.chance(1, 16) {
        cx.label("threads");
        let r: Vec<Res> = std::thread::scope(|sc| {
            let h: Vec<_> = (0..4)
                .map(|k| {
                    let (texts, want) = (&texts, &want);
                    sc.spawn(move || {
                        for round in 0..3 {
                            for i in 0..texts.len() {
                                let i = (i + k + round) % texts.len();
                                same(&strict(&texts[i]), &want[i].0, "parse beside other threads")?;
                                same(&loose(&texts[i]), &want[i].1, "parse_loose beside other threads")?;
                                let a = printed(vcard4::parse_loose(&texts[i]));
                                let b = printed(vcard4::parse_loose(&texts[i]));
                                same(&a, &b, "printed beside other threads")?;
                            }
                        }
                        Ok(())
                    })
                })
                .collect();
            h.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Fail("panic in a thread".into())))).collect()
        });
        for r in r {
            r?;
        }
    }
    // Cards outlive the text, and can be used in another thread
    if s.chance(1, 8) {
        let i = s.below(texts.len() as u64) as usize;
        let t = texts[i].clone();
        let r = vcard4::parse(&t);
        drop(t);
        if let Ok(v) = r {
            cx.label("cards moved to another thread");
            let got = std::thread::spawn(move || v.iter().map(logical).collect::<Vec<_>>()).join();
            match got {
                Ok(got) => same(&Ok(got), &want[i].0, "cards in another thread")?,
                Err(_) => fail!("panic in another thread"),
            }
        }
    }
    Ok(())
}

pub const SPEC: Spec = Spec {
    id: "C34",
    check,
    quick: 36_000,
    thorough: 2_000_000,
    rule: "one half: cards that differ in one value (letter case of a URI, of a parameter or a group, one character, one zone), read in any order and as often as \
           generated: each must be what the model says; one sixth: cards and date and time texts read and \
           printed under three set clocks of any year, month, day and time of day; one third: two to five texts, well-formed, edited or with bad cards, parsed alone and then again in any order, as owned \
           text, as part of a longer text, by iterators advanced in turns and in four threads; every case is non-trivial",
    must_see: &["clock", "related text", "neighbours", "fresh threads", "an error", "a success", "owned text", "slice", "side by side", "threads", "cards moved to another thread"],
    serial: false,
};
