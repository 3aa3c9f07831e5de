//! Letter case of names and keywords does not matter, that of data is kept.
use super::*;

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    let n = 1 + s.below(4);
    let mut card = vec![fn_prop(s.pick::<&str>(&["Mixed Case", "lower", "UPPER"]))];
    let o = TextOpt { long: false, ..VALUE_TEXT };
    for _ in 0..n {
        let name = any_name(s);
        if SINGLE.contains(&&name[..]) && card.iter().any(|p| p.name == name) {
            continue;
        }
        let mut p = gprop_named(s, &name, o, ParamOpt { rarity: 3, text: PARAM_TEXT });
        if s.chance(1, 3) {
            p.group = Some(s.pick::<&str>(&["Grp", "gRP", "GRP", "grp", "TeL", "tz", "Type"]).to_string());
        }
        card.push(p);
    }
    fix_members(&mut card);
    canonical(&mut card);
    let st = Style { case: true, order: s.chance(1, 2), escapes: s.chance(1, 2), frame: true, ..PLAIN };
    let text = render(s, &[card.clone()], st);
    cx.input(&text);
    cx.nontrivial = true;
    for p in &card {
        cx.label_if(p.group.is_some(), "group");
        cx.label_if(p.params.value.is_some(), "VALUE");
        cx.label_if(p.params.types.is_some(), "TYPE");
        cx.label_if(p.name == "TZ" || p.name == "GEO", "TZ or GEO");
        cx.label_if(p.params.tz.is_some() || p.params.geo.is_some(), "parameter TZ or GEO");
        cx.label_if(matches!(p.val, Val::Bool(_)), "boolean");
    }
    expect_cards(strict(&text), &[card.clone()], "parse")?;
    expect_cards(loose(&text), &[card.clone()], "parse_loose")?;
    expect_cards(iterate_all(&text, true)?, &[card], "iteration")
}

pub const SPEC: Spec = Spec {
    id: "C11",
    check,
    quick: 100_000,
    thorough: 5_000_000,
    rule: "small cards dense with parameters and groups, every property name, parameter name, VALUE, known TYPE, \
           boolean, BEGIN, VERSION and END in upper, lower or random case, compared with the data they were made from; \
           every case is non-trivial",
    must_see: &["group", "VALUE", "TYPE", "TZ or GEO", "parameter TZ or GEO", "boolean"],
    serial: false,
};
