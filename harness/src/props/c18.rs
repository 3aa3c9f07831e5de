//! Control characters anywhere in a property.
use super::*;

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut card = gcard(s);
    // Small enough for every place to be hit
    card.truncate(1 + s.below(6) as usize);
    if !card.iter().any(|p| p.name == "FN") {
        card.push(fn_prop("x"));
    }
    fix_members(&mut card);
    canonical(&mut card);
    let st = Style { folds: false, order: false, ..some_style(s) };
    let lines = card_lines(s, &card, st);
    let i = s.below(card.len() as u64) as usize;
    let l: Vec<char> = lines[i + 2].chars().collect();
    let newline = s.chance(1, 6);
    let colon = {
        // The end of the parameters
        let mut q = false;
        l.iter()
            .position(|c| {
                if *c == '"' {
                    q = !q;
                }
                *c == ':' && !q
            })
            .unwrap()
    };
    let name_end = l.iter().position(|c| *c == ';' || *c == ':').unwrap();
    let at;
    let c;
    if newline {
        // A raw line ending inside a parameter, not a fold
        if colon <= name_end + 1 {
            return Ok(());
        }
        at = name_end + 1 + s.below((colon - name_end - 1) as u64) as usize;
        if l[at] == ' ' || l[at] == '\t' {
            return Ok(());
        }
        c = '\n';
        cx.label("line ending in a parameter");
    } else {
        at = s.below(l.len() as u64 + 1) as usize;
        let codes: Vec<u32> = (0..0x20).filter(|c| *c != 9 && *c != 10).chain([0x7f]).collect();
        c = char::from_u32(*s.pick(&codes)).unwrap();
        let quoted = l[..at.min(colon)].iter().filter(|c| **c == '"').count() % 2 == 1;
        cx.label(if at <= name_end {
            "in the name"
        } else if at <= colon {
            if quoted { "in a quoted parameter" } else { "in a parameter" }
        } else {
            "in the value"
        });
        if c == '\r' {
            cx.label("CR");
            if at == l.len() {
                // Would be part of the line ending
                return Ok(());
            }
        }
    }
    let mut bad = l.clone();
    bad.insert(at, c);
    let mut spoilt = lines.clone();
    spoilt[i + 2] = bad.iter().collect();
    let t = assemble(s, &spoilt, st);
    cx.input(&t);
    cx.nontrivial = true;
    if newline {
        // What follows the line ending may be anything to loose parsing, but the first part has no value
        return expect_err(&t, "a line ending in a parameter");
    }
    expect_err(&t, "a control character")?;
    let mut rest = card.clone();
    rest.remove(i);
    match loose(&t) {
        Ok(c) => {
            ensure!(is_valid(&rest), "loose parsing accepts what is left: {c:?}");
            expect_cards(Ok(c), &[rest], "parse_loose")
        }
        Err(e) => {
            ensure!(!is_valid(&rest), "parse_loose: {e}");
            Ok(())
        }
    }
}

pub const SPEC: Spec = Spec {
    id: "C18",
    check,
    quick: 600_000,
    thorough: 8_000_000,
    rule: "small cards in any spelling with one control character (any but tab and LF) inserted at any place of a \
           property line, or a line ending inside its parameters: rejected, and in loose mode the card without that \
           property; every case is non-trivial",
    must_see: &[
        "in the name", "in a parameter", "in a quoted parameter", "in the value", "CR", "line ending in a parameter",
    ],
    serial: false,
};
