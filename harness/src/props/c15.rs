//! How often properties may occur.
use super::*;

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    let st = some_style(s);
    let n = 1 + s.weighted(&[3, 2, 1]);
    let repeated = s.chance(1, 2);
    // All kinds of single properties in every card, or many of a multi-valued one
    let mut cards: Vec<Card> = Vec::new();
    for _ in 0..n {
        let mut c = if s.chance(1, 2) { tiny_card(s) } else { gcard(s) };
        for name in SINGLE {
            if !c.iter().any(|p| p.name == name) && s.chance(1, 2) {
                c.push(gprop_named(s, name, VALUE_TEXT, PARAMS));
            }
        }
        if s.chance(1, 2) {
            let name = any_name(s);
            if !SINGLE.contains(&&name[..]) {
                let k = 2 + s.below(12);
                for _ in 0..k {
                    let p = if s.chance(1, 2) {
                        gprop_named(s, &name, VALUE_TEXT, PARAMS)
                    } else {
                        // The same again
                        c.iter().rev().find(|p| p.name == name).cloned().unwrap_or_else(|| fn_prop("y"))
                    };
                    c.push(p);
                }
                cx.label("many of a kind");
            }
        }
        fix_members(&mut c);
        canonical(&mut c);
        cards.push(c);
    }
    if !repeated {
        let t = render(s, &cards, st);
        cx.input(&t);
        cx.nontrivial = cards.iter().any(|c| c.iter().any(|p| SINGLE.contains(&&p.name[..])));
        cx.label_if(n > 1, "single-valued in several cards");
        expect_cards(strict(&t), &cards, "parse")?;
        expect_cards(iterate_all(&t, true)?, &cards, "iteration")?;
        return expect_cards(loose(&t), &cards, "parse_loose");
    }
    // A second occurrence in one of the cards
    let which = s.below(n as u64) as usize;
    let have: Vec<Prop> = cards[which].iter().filter(|p| SINGLE.contains(&&p.name[..])).cloned().collect();
    if have.is_empty() {
        return Ok(());
    }
    let mut t = String::new();
    for (i, c) in cards.iter().enumerate() {
        let mut lines = card_lines(s, c, st);
        if i == which {
            let k = 1 + s.weighted(&[4, 1]);
            for _ in 0..k {
                let old = s.pick(&have).clone();
                let new = match s.below(3) {
                    0 => old.clone(),
                    1 => Prop { group: Some("other".into()), ..old.clone() },
                    _ => gprop_named(s, &old.name, VALUE_TEXT, PARAMS),
                };
                cx.label_if(old == new, "the same again");
                cx.label_if(old.group != new.group, "another group");
                cx.label(SINGLE.iter().find(|n| **n == old.name).unwrap());
                let l = render_prop(s, &new, Style { case: true, ..st });
                // After the first occurrence
                let name = |l: &str| {
                    let h = l.split([';', ':']).next().unwrap().to_uppercase();
                    h.rsplit('.').next().unwrap().to_string()
                };
                let first = lines.iter().position(|l| name(l) == old.name).expect("first occurrence");
                let at = if s.chance(1, 3) {
                    first + 1
                } else {
                    first + 1 + s.below((lines.len() - first - 1) as u64) as usize
                };
                cx.label_if(at > first + 1, "not adjacent");
                lines.insert(at, l);
            }
        }
        t.push_str(&assemble(s, &lines, st));
        if i + 1 < n {
            t.push_str(&blank(s, st));
        }
    }
    cx.input(&t);
    cx.nontrivial = true;
    expect_err(&t, "repeated single-valued property")?;
    expect_cards(loose(&t), &cards, "parse_loose")?;
    let items = iterate(&t, true)?;
    for (i, c) in cards.iter().enumerate() {
        match items.get(i) {
            Some(Ok(v)) if i != which => {
                if let Some(d) = diff(&logical(v), c) {
                    fail!("iteration, card {i}: {d}");
                }
            }
            Some(Err(_)) if i == which => {}
            // More than one error is possible at a bad card
            Some(x) if i > which => {
                let good: Vec<Card> = items[i..].iter().flatten().map(logical).collect();
                ensure!(good[..] == cards[i..], "iteration after the bad card: {x:?}");
                break;
            }
            x => fail!("iteration, card {i}: {x:?}"),
        }
    }
    Ok(())
}

pub const SPEC: Spec = Spec {
    id: "C15",
    check,
    quick: 50_000,
    thorough: 2_500_000,
    rule: "one to three cards with most single-valued properties and many occurrences of other ones, in any spelling; \
           in half of them a single-valued property is repeated (same or other value, group, letter case, adjacent or \
           not); strict, loose and iteration; non-trivial: has single-valued properties",
    must_see: &[
        "KIND", "N", "BDAY", "ANNIVERSARY", "GENDER", "PRODID", "REV", "UID", "the same again", "another group",
        "not adjacent", "many of a kind", "single-valued in several cards",
    ],
    serial: false,
};
