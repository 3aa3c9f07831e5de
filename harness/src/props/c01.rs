//! Model to text in any legal spelling to card.
use super::*;

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    let n = 1 + s.weighted(&[8, 2, 1]);
    let cards: Vec<Card> = (0..n).map(|_| gcard(s)).collect();
    let st = if s.chance(1, 2) { WILD } else { some_style(s) };
    let text = render(s, &cards, st);
    cx.input(&text);
    cx.nontrivial = cards.iter().any(|c| rich(c));
    cx.label_if(n > 1, "several cards");
    cx.label_if(text.contains("\n ") || text.contains("\n\t"), "folded");
    cx.label_if(text.contains("VERSION:3"), "version 3");
    for p in cards.iter().flatten() {
        cx.label_if(p.group.is_some(), "group");
        cx.label_if(p.params.count() > 1, "several parameters");
        cx.label_if(rank(&p.name) == NAMES.len(), "extension");
    }
    let got = vcard4::parse(&text);
    if let Ok(got) = &got {
        for (g, c) in got.iter().zip(&cards) {
            ensure!(logical(g) != *c || *g == build(c), "card does not compare equal to the same data built");
        }
    }
    expect_cards(super::cards(got), &cards, "parse")
}

pub const SPEC: Spec = Spec {
    id: "C01",
    check,
    quick: 60_000,
    thorough: 3_000_000,
    rule: "1-3 cards of generated properties (35 kinds and extensions, groups, all parameters, text with delimiters, \
           escapes, Unicode, line breaks and look-alike vCard lines), written in a random legal spelling (letter case, \
           line endings, folds, order, optional escapes and quotes, date forms, version); non-trivial: at least two \
           properties and a group, a parameter or more than three properties",
    must_see: &["several cards", "folded", "version 3", "group", "several parameters", "extension"],
    serial: false,
};
