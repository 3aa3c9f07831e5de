//! Validity: FN, and MEMBER only in groups.
use super::*;

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    let n = 1 + s.weighted(&[4, 1, 1]);
    let mut cards = Vec::new();
    for _ in 0..n {
        let mut c = gcard(s);
        let broken = s.chance(1, 2);
        if broken && s.chance(1, 2) {
            c.retain(|p| p.name != "FN");
            // Near misses
            if s.chance(1, 2) {
                c.push(gprop_named(s, "N", VALUE_TEXT, PARAMS));
                c.push(gprop_named(s, "X-FN", VALUE_TEXT, PARAMS));
                c.dedup_by_key(|p| p.name.clone());
                let mut seen = false;
                c.retain(|p| p.name != "N" || !std::mem::replace(&mut seen, true));
            }
        }
        if s.chance(1, 2) {
            c.retain(|p| p.name != "KIND");
            if s.chance(1, 2) {
                c.retain(|p| p.name != "MEMBER");
                let k = 1 + s.below(3);
                for _ in 0..k {
                    c.push(gprop_named(s, "MEMBER", VALUE_TEXT, PARAMS));
                }
            }
            if s.chance(2, 3) {
                let k = if broken { *s.pick::<&'static str>(&KINDS) } else { "group" };
                c.push(Prop { val: Val::Kind(k), ..gprop_named(s, "KIND", VALUE_TEXT, PARAMS) });
            }
        }
        canonical(&mut c);
        cards.push(c);
    }
    let valid: Vec<bool> = cards.iter().map(|c| is_valid(c)).collect();
    let st = Style { order: true, ..some_style(s) };
    let t = render(s, &cards, st);
    cx.input(&t);
    cx.nontrivial = cards.iter().any(|c| c.iter().any(|p| p.name == "MEMBER") || !c.iter().any(|p| p.name == "FN"));
    for c in &cards {
        let fname = c.iter().any(|p| p.name == "FN");
        let member = c.iter().any(|p| p.name == "MEMBER");
        let kind = c.iter().find(|p| p.name == "KIND").map(|p| p.val.clone());
        cx.label_if(!fname, "no FN");
        cx.label_if(fname && member && kind.is_none(), "MEMBER without KIND");
        cx.label_if(fname && member && kind.as_ref().is_some_and(|k| *k != Val::Kind("group")), "MEMBER of another KIND");
        cx.label_if(fname && member && kind == Some(Val::Kind("group")), "MEMBER of a group");
        cx.label_if(fname && !member && kind == Some(Val::Kind("group")), "group without MEMBER");
        let v = build(c).validate();
        ensure!(v.is_ok() == is_valid(c), "validate gives {v:?} for {c:?}");
    }
    let all = valid.iter().all(|v| *v);
    for (what, got) in [("parse", strict(&t)), ("parse_loose", loose(&t))] {
        match got {
            Ok(g) if all => expect_cards(Ok(g), &cards, what)?,
            Err(e) if all => fail!("{what} of valid cards: {e}"),
            Err(_) => {}
            Ok(g) => fail!("{what} accepts invalid cards: {g:?}"),
        }
    }
    for mode in [true, false] {
        let items = iterate(&t, mode)?;
        ensure!(items.len() == n, "{} items for {n} cards", items.len());
        for (i, x) in items.iter().enumerate() {
            match x {
                Ok(v) if valid[i] => {
                    if let Some(d) = diff(&logical(v), &cards[i]) {
                        fail!("iteration, card {i}: {d}");
                    }
                }
                Err(_) if !valid[i] => {}
                x => fail!("iteration, card {i}, valid {}: {x:?}", valid[i]),
            }
        }
    }
    let first = Vcard::try_from(&t[..]);
    ensure!(valid[0] || first.is_err(), "try_from accepts an invalid card");
    ensure!(!all || first.is_ok(), "try_from rejects a valid card");
    Ok(())
}

pub const SPEC: Spec = Spec {
    id: "C16",
    check,
    quick: 50_000,
    thorough: 2_500_000,
    rule: "one to three cards with or without FN, MEMBER and KIND of any value, their lines in any order and spelling, \
           through validate, parse, parse_loose, iteration and try_from; non-trivial: a card has MEMBER or no FN",
    must_see: &["no FN", "MEMBER without KIND", "MEMBER of another KIND", "MEMBER of a group", "group without MEMBER"],
    serial: false,
};
