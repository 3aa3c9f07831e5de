//! Iteration over good and bad cards.
use super::c13::spoiled;
use super::*;

enum Seg {
    Good(Card),
    Bad,
}

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    let mode = s.chance(2, 3);
    let n = 1 + s.below(6);
    let st = some_style(s);
    let mut t = blank(s, st);
    let mut segs = Vec::new();
    let all_good = s.chance(1, 4);
    // After a card without END
    let mut open = false;
    for i in 0..n {
        let mut c = if s.chance(1, 2) { tiny_card(s) } else { gcard(s) };
        let kind = if all_good { 0 } else { s.weighted(&[6, 1, 1, 2, 2, 1, 1, 1]) };
        // Other lines would become part of it
        let kind = if open && (kind == 6 || kind == 7) { 0 } else { kind };
        open = kind == 5;
        let mut good = kind == 0;
        match kind {
            1 => {
                cx.label("no FN");
                c.retain(|p| p.name != "FN");
            }
            2 => {
                cx.label("MEMBER without group");
                c.retain(|p| p.name != "KIND" && p.name != "MEMBER");
                c.push(prop("MEMBER", Val::Uri("urn:a:b".into())));
            }
            _ => {}
        }
        canonical(&mut c);
        let mut lines = card_lines(s, &c, st);
        match kind {
            3 => {
                t.push_str(&spoiled(s, &c, st, 2, cx));
                cx.label(if mode { "line in error" } else { "line in error, loose" });
                good = !mode;
                lines.clear();
            }
            4 => {
                cx.label("bad VERSION");
                match s.below(4) {
                    0 => {
                        lines.remove(1);
                    }
                    1 => lines[1] = "VERSION:2.1".into(),
                    2 => lines[1] = "VERSION".into(),
                    _ => {
                        // Not the first line
                        let l = lines.len();
                        lines.swap(1, l - 2);
                        if l == 3 || lines[1].to_uppercase().starts_with("VERSION") {
                            lines[1] = "VERSION:".into();
                        }
                    }
                }
            }
            5 => {
                cx.label("no END");
                lines.pop();
            }
            6 => {
                cx.label("junk");
                lines = vec![s.pick::<&str>(&["junk", "FN:outside", "END:VCARD", "VERSION:4.0", "BEGIN:VCALENDAR", "x", ":", "BEGIN", "\"", "é"]).to_string()];
            }
            7 => {
                cx.label("misspelt BEGIN");
                lines[0] = match s.below(2) {
                    0 => s.pick::<&str>(&["BEGIN:VCAR", "BEGINS:VCARD", "BEGIN VCARD", "BEGIN;VCARD"]).to_string(),
                    // Something before it. A blank after a line ending is a fold.
                    _ if t.is_empty() => format!("{}BEGIN:VCARD", s.pick::<&str>(&[" ", "\t", "\u{feff}", "  ", " \t"])),
                    _ => format!("{}BEGIN:VCARD", s.pick::<&str>(&["\u{feff}", "x", ".", ";", "\"", "\u{a0}", "\u{0}", "item1."])),
                };
            }
            _ => {}
        }
        t.push_str(&assemble(s, &lines, st));
        // A card without END goes on over blank lines
        if i + 1 < n {
            t.push_str(&blank(s, st));
        }
        segs.push(if good { Seg::Good(c) } else { Seg::Bad });
    }
    cx.input(&t);
    let bad = segs.iter().filter(|s| matches!(s, Seg::Bad)).count();
    cx.nontrivial = bad > 0 || segs.len() > 1;
    cx.label_if(bad > 0 && bad < segs.len(), "good and bad cards");
    cx.label_if(!mode, "loose");
    let items = iterate(&t, mode)?;
    // Follow the items along the segments
    let mut it = items.iter().peekable();
    let mut i = 0;
    while i < segs.len() {
        match &segs[i] {
            Seg::Good(c) => {
                match it.next() {
                    Some(Ok(v)) => {
                        if let Some(d) = diff(&logical(v), c) {
                            fail!("iteration, segment {i}: {d}");
                        }
                    }
                    Some(Err(e)) => fail!("iteration, segment {i}: error {e} instead of the card"),
                    None => fail!("iteration ends before segment {i}"),
                }
                i += 1;
            }
            Seg::Bad => {
                while matches!(segs.get(i), Some(Seg::Bad)) {
                    i += 1;
                }
                ensure!(matches!(it.peek(), Some(Err(_))), "no error for bad cards before segment {i}: {:?}", it.peek());
                while matches!(it.peek(), Some(Err(_))) {
                    it.next();
                }
            }
        }
    }
    if let Some(x) = it.next() {
        fail!("item {x:?} after the last card");
    }
    if bad == 0 {
        cx.label("all good");
        let parsed = if mode { strict(&t) } else { loose(&t) };
        let cards: Vec<Card> = items.iter().flatten().map(logical).collect();
        expect_cards(parsed, &cards, "parse of the iterated text")?;
        if mode {
            match Vcard::try_from(&t[..]) {
                Ok(v) => {
                    if let Some(d) = diff(&logical(&v), &cards[0]) {
                        fail!("try_from: {d}");
                    }
                }
                Err(e) => fail!("try_from: {e}"),
            }
        }
    } else if mode {
        ensure!(vcard4::parse(&t).is_err(), "parse accepts bad cards");
        // The first card alone counts, read as strictly as by the iterator
        match (Vcard::try_from(&t[..]), &segs[0]) {
            (Ok(v), Seg::Good(c)) => {
                if let Some(d) = diff(&logical(&v), c) {
                    fail!("try_from: {d}");
                }
            }
            (Err(e), Seg::Good(_)) => fail!("try_from: {e} although the first card is good"),
            (Ok(v), Seg::Bad) => fail!("try_from accepts a bad first card, as {:?}", logical(&v)),
            (Err(_), Seg::Bad) => cx.label("bad first card"),
        }
    } else {
        ensure!(vcard4::parse_loose(&t).is_err(), "parse_loose accepts bad cards");
    }
    Ok(())
}

pub const SPEC: Spec = Spec {
    id: "C14",
    check,
    quick: 80_000,
    thorough: 2_000_000,
    rule: "texts of one to six cards in any spelling, good or bad (no FN, MEMBER without group, lines in error, wrong or \
           missing VERSION, missing END, misspelt BEGIN, junk), iterated in strict or loose mode and compared with the \
           good ones; non-trivial: several cards or a bad one",
    must_see: &[
        "good and bad cards", "all good", "loose", "no FN", "MEMBER without group", "line in error",
        "line in error, loose", "bad VERSION", "bad first card", "no END", "junk", "misspelt BEGIN",
    ],
    serial: false,
};
