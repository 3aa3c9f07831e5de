//! Folds added anywhere inside the lines of any text change nothing.
use super::*;
use super::c07::border_text;

/// Add folds inside lines. Not before the first or after the last character of a line, and no LF after a CR.
fn refold(s: &mut Src, t: &str, rate: u64) -> (String, usize) {
    let c: Vec<char> = t.chars().collect();
    let mut r = String::new();
    let mut n = 0;
    for (i, ch) in c.iter().enumerate() {
        let inner = i > 0 && *ch != '\n' && *ch != '\r' && c[i - 1] != '\n';
        // A raw CR before the position takes the LF of a bare fold
        if inner && c[i - 1] != '\r' && s.chance(1, rate) {
            let k = 1 + s.chance(1, 8) as usize;
            for _ in 0..k {
                r.push_str(s.pick::<&str>(&["\r\n ", "\r\n\t", "\n ", "\n\t"]));
                n += 1;
            }
        }
        r.push(*ch);
    }
    (r, n)
}

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    let t = border_text(s, cx);
    let rate = *s.pick(&[40, 12, 4, 1]);
    let (folded, n) = refold(s, &t, rate);
    cx.input(&folded);
    cx.nontrivial = n > 0;
    cx.label_if(rate == 1, "folds between all characters");
    let base = strict(&t);
    cx.label_if(base.is_ok(), "accepted");
    cx.label_if(base.is_err(), "rejected");
    expect_same(strict(&folded), &base, "parse of the folded text")?;
    expect_same(loose(&folded), &loose(&t), "parse_loose of the folded text")?;
    for mode in [true, false] {
        let (a, b) = (iterate(&t, mode)?, iterate(&folded, mode)?);
        ensure!(a.len() == b.len(), "iteration yields {} items folded, {} unfolded", b.len(), a.len());
        for (x, y) in a.iter().zip(&b) {
            match (x, y) {
                (Ok(x), Ok(y)) => {
                    if let Some(d) = diff(&logical(y), &logical(x)) {
                        fail!("iteration of the folded text: {d}");
                    }
                }
                (Err(_), Err(_)) => {}
                _ => fail!("iteration of the folded text yields {y:?} instead of {x:?}"),
            }
        }
    }
    Ok(())
}

pub const SPEC: Spec = Spec {
    id: "C09",
    check,
    quick: 40_000,
    thorough: 2_000_000,
    rule: "texts of cards in any spelling, with unusual lines or random edits, accepted or not; folds of any kind are \
           added between characters of a line (at a rate of 1/40 up to everywhere, sometimes several at one place), \
           and strict and loose parsing and iteration are compared with the text without them; non-trivial: a fold \
           was added",
    must_see: &["accepted", "rejected", "folds between all characters", "mutated", "unusual line"],
    serial: false,
};
