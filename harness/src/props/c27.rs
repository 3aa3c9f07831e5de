//! A text of several cards is the list of its parts.
use super::c07::{lenient_line, mutate};
use super::*;

/// One card, mostly well-formed, whose lines stay its own.
fn part(s: &mut Src, cx: &mut Ctx) -> String {
    let st = Style { frame: false, ..some_style(s) };
    let st = Style { frame: s.chance(1, 4), ..st };
    let c = if s.chance(1, 3) { tiny_card(s) } else { gcard(s) };
    let mut lines = card_lines(s, &c, st);
    if s.chance(1, 4) {
        let l = lenient_line(s);
        let l = if s.chance(1, 2) { mutate(s, &l, 2) } else { l };
        let u = l.to_uppercase();
        if !l.contains(['\n', '\r']) && !u.contains("BEGIN:") && !u.contains("END:") && !l.starts_with([' ', '\t']) {
            cx.label("unusual line");
            place(s, &mut lines, l);
        }
    }
    assemble(s, &lines, st)
}

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    let n = 2 + s.below(5);
    let mut parts: Vec<String> = (0..n).map(|_| part(s, cx)).collect();
    if s.chance(1, 100) {
        // A long list
        let max = if s.chance(1, 4) { 2000 } else { 300 };
        let n = s.below(max);
        parts.retain(|p| p.len() < 400);
        if parts.is_empty() {
            parts.push("BEGIN:VCARD\r\nVERSION:4.0\r\nFN:x\r\nEND:VCARD\r\n".into());
        }
        let kinds = parts.len() as u64;
        for i in 0..n {
            let p = if s.chance(1, 3) { i % kinds } else { s.below(kinds) };
            parts.push(parts[p as usize].clone());
        }
        cx.label("a long list");
    }
    let mut t = String::new();
    let st = Style { frame: true, ..PLAIN };
    for (i, p) in parts.iter().enumerate() {
        if i > 0 && s.chance(1, 2) {
            t.push_str(&blank(s, st));
        }
        t.push_str(p);
    }
    cx.input(&t);
    cx.nontrivial = true;
    for mode in ["parse", "parse_loose"] {
        let f = if mode == "parse" { strict } else { loose };
        let each: Vec<Parsed> = parts.iter().map(|p| f(p)).collect();
        let got = f(&t);
        if each.iter().all(|r| r.is_ok()) {
            cx.label("all accepted");
            let want: Vec<Card> = each.into_iter().flatten().flatten().collect();
            ensure!(want.len() == parts.len(), "a part is {} cards", want.len());
            expect_cards(got, &want, mode)?;
            // Printed one after another
            let printed: String = match vcard4::parse_loose(&t) {
                Ok(v) => v.iter().map(|c| c.to_string()).collect(),
                Err(e) => fail!("{mode}: {e}"),
            };
            let mut want = want;
            want.iter_mut().for_each(|c| {
                strip_fractions(c);
            });
            let nan = want.iter().flatten().any(|p| matches!(&p.val, Val::Float(v) if v.iter().any(|b| f64::from_bits(*b).is_nan())));
            if !nan {
                expect_cards(strict(&printed), &want, "parse of the printed cards")?;
            }
        } else {
            cx.label("one rejected");
            if let Ok(g) = got {
                fail!("{mode} accepts a text with a part it rejects: {g:?}");
            }
            // Those accepted are iterated
            let want: Vec<Card> = each.into_iter().flatten().flatten().collect();
            let items = iterate(&t, mode == "parse")?;
            let good: Vec<Card> = items.iter().flatten().map(logical).collect();
            expect_cards(Ok(good), &want, &format!("iteration, {mode}"))?;
        }
    }
    Ok(())
}

pub const SPEC: Spec = Spec {
    id: "C27",
    check,
    quick: 40_000,
    thorough: 1_500_000,
    rule: "texts of two to six cards of any size, spelling and version, some with unusual or edited lines, with blank \
           lines between them, compared in strict and loose mode with their parts parsed alone, and printed together; \
           every case is non-trivial",
    must_see: &["a long list", "all accepted", "one rejected", "unusual line"],
    serial: false,
};
