//! Cards built through the API, printed, read by an independent reader and parsed.
use super::*;
use crate::reader;

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    let card = gcard(s);
    let built = build(&card);
    ensure!(built.validate().is_ok(), "generated card is not valid");
    let out = built.to_string();
    cx.input(&out);
    cx.nontrivial = rich(&card);
    cx.label_if(out.contains("\r\n "), "folded");
    for p in &card {
        cx.label_if(matches!(p.val, Val::Offset(o) if o < 0 && o > -3600), "offset between -1h and 0");
        cx.label_if(p.params.count() > 2, "several parameters");
        cx.label_if(p.params.tz.is_some(), "TZ parameter");
        cx.label_if(matches!(p.val, Val::Float(_) | Val::Int(_)), "number");
    }
    if let Some(d) = diff(&logical(&built), &card) {
        fail!("harness: {d}");
    }
    match reader::read_card(&out) {
        Ok(c) => {
            if let Some(d) = diff(&c, &card) {
                fail!("printed text {out:?} says: {d}");
            }
        }
        Err(e) => fail!("printed text {out:?} is malformed: {e}"),
    }
    let parsed = vcard4::parse(&out);
    if let Ok(v) = &parsed {
        ensure!(v.len() == 1, "{} cards", v.len());
        ensure!(v[0] == built || logical(&v[0]) != card, "parsed card does not compare equal");
    }
    expect_cards(cards(parsed), &[card], "printed and parsed")
}

pub const SPEC: Spec = Spec {
    id: "C06",
    check,
    quick: 70_000,
    thorough: 4_000_000,
    rule: "cards of generated properties built through the public fields, printed; the text is read by an independent \
           strict RFC 6350 reader and parsed by the library; non-trivial: at least two properties and a group, a \
           parameter or more than three properties",
    must_see: &["folded", "offset between -1h and 0", "several parameters", "TZ parameter", "number"],
    serial: false,
};
