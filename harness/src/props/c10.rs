//! Line endings and blank lines around cards change nothing.
use super::*;
use super::c07::border_text;

/// The lines of a text, without endings. CR LF and LF end a line.
fn physical(t: &str) -> Vec<&str> {
    t.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l)).collect()
}

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    let t = border_text(s, cx);
    // One form of the text, with CRLF only and no blank lines around the whole
    let lines = physical(&t);
    let first = lines.iter().position(|l| !l.is_empty()).unwrap_or(0);
    let last = lines.iter().rposition(|l| !l.is_empty()).unwrap_or(0);
    let lines = &lines[first..=last];
    // A CR at the end of a line would become part of its ending
    // and a blank line before white space is folded
    if lines.iter().any(|l| l.ends_with('\r')) || lines[0].starts_with([' ', '\t']) {
        return Ok(());
    }
    let base: String = lines.iter().flat_map(|l| [*l, "\r\n"]).collect();
    let mode = s.below(3);
    let end = |s: &mut Src| match mode {
        0 => "\n",
        1 => "\r\n",
        _ => *s.pick::<&str>(&["\r\n", "\n"]),
    };
    let blanks = |s: &mut Src, r: &mut String| {
        for _ in 0..s.count(4) {
            r.push_str(s.pick::<&str>(&["\r\n", "\n"]));
        }
    };
    let mut r = String::new();
    blanks(s, &mut r);
    let is = |l: &str, w: &str| l.eq_ignore_ascii_case(w);
    for (i, l) in lines.iter().enumerate() {
        r.push_str(l);
        if i + 1 == lines.len() && s.chance(1, 3) {
            cx.label("no final line ending");
            break;
        }
        r.push_str(end(s));
        // Between two cards
        if is(l, "END:VCARD") && lines.get(i + 1).is_some_and(|n| is(n, "BEGIN:VCARD")) {
            cx.label("between cards");
            blanks(s, &mut r);
        }
        if i + 1 == lines.len() {
            blanks(s, &mut r);
        }
    }
    cx.input(&r);
    cx.nontrivial = r != base;
    let want = strict(&base);
    cx.label_if(want.is_ok(), "accepted");
    cx.label_if(want.is_err(), "rejected");
    cx.label_if(mode == 0, "LF only");
    expect_same(strict(&r), &want, "parse with other line endings")?;
    expect_same(loose(&r), &loose(&base), "parse_loose with other line endings")?;
    for strict in [true, false] {
        let (a, b) = (iterate(&base, strict)?, iterate(&r, strict)?);
        ensure!(a.len() == b.len(), "iteration yields {} items, {} with other line endings", a.len(), b.len());
        for (x, y) in a.iter().zip(&b) {
            match (x, y) {
                (Ok(x), Ok(y)) => {
                    if let Some(d) = diff(&logical(y), &logical(x)) {
                        fail!("iteration with other line endings: {d}");
                    }
                }
                (Err(_), Err(_)) => {}
                _ => fail!("iteration with other line endings yields {y:?} instead of {x:?}"),
            }
        }
    }
    Ok(())
}

pub const SPEC: Spec = Spec {
    id: "C10",
    check,
    quick: 40_000,
    thorough: 2_000_000,
    rule: "texts of cards in any spelling, with unusual lines or random edits, accepted or not; every line ending is \
           replaced (LF, CRLF or mixed), the final one sometimes left out, blank lines are added before, between and \
           after cards, and strict and loose parsing and iteration are compared with the CRLF form; non-trivial: the \
           text differs",
    must_see: &["accepted", "rejected", "LF only", "between cards", "no final line ending", "mutated", "unusual line"],
    serial: false,
};
