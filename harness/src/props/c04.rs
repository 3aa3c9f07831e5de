//! Properties dense with parameters.
use super::*;

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    let n = 1 + s.below(3);
    let mut card = vec![fn_prop("x")];
    let rarity = 2 + s.below(6);
    for _ in 0..n {
        let name = any_name(s);
        if SINGLE.contains(&&name[..]) && card.iter().any(|p| p.name == name) {
            continue;
        }
        card.push(gprop_named(s, &name, VALUE_TEXT, ParamOpt { rarity, text: PARAM_TEXT }));
    }
    fix_members(&mut card);
    canonical(&mut card);
    let st = Style { escapes: true, order: true, case: s.chance(1, 3), dates: s.chance(1, 2), ..PLAIN };
    let text = render(s, &[card.clone()], st);
    cx.input(&text);
    cx.nontrivial = card.iter().any(|p| p.params.count() > 0);
    for p in card.iter().map(|p| &p.params) {
        cx.label_if(p.language.is_some(), "LANGUAGE");
        cx.label_if(p.value.is_some(), "VALUE");
        cx.label_if(p.pref.is_some(), "PREF");
        cx.label_if(p.altid.is_some(), "ALTID");
        cx.label_if(p.pid.is_some(), "PID");
        cx.label_if(p.types.is_some(), "TYPE");
        cx.label_if(p.mediatype.is_some(), "MEDIATYPE");
        cx.label_if(p.calscale.is_some(), "CALSCALE");
        cx.label_if(p.sort_as.is_some(), "SORT-AS");
        cx.label_if(p.geo.is_some(), "GEO");
        cx.label_if(p.tz.is_some(), "TZ");
        cx.label_if(p.label.is_some(), "LABEL");
        cx.label_if(!p.ext.is_empty(), "X-");
        cx.label_if(p.count() > 4, "many parameters");
    }
    cx.label_if(text.to_uppercase().contains("CHARSET="), "CHARSET");
    expect_cards(strict(&text), &[card], "parse")?;
    Ok(())
}

pub const SPEC: Spec = Spec {
    id: "C04",
    check,
    quick: 350_000,
    thorough: 5_000_000,
    rule: "cards of up to three properties of any kind dense with parameters (each with probability 1/2 to 1/7), with \
           text holding delimiters, escapes and line breaks, quoted or not, in any order, TYPE repeated or not; \
           non-trivial: at least one parameter",
    must_see: &[
        "LANGUAGE", "VALUE", "PREF", "ALTID", "PID", "TYPE", "MEDIATYPE", "CALSCALE", "SORT-AS", "GEO", "TZ", "LABEL",
        "X-", "many parameters", "CHARSET",
    ],
    serial: false,
};
