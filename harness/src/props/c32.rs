//! Time grows about linearly with the length of the input.
use super::*;

unsafe extern "C" {
    fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
}
const CLOCK_THREAD_CPUTIME_ID: i32 = 3;
/// Nanoseconds this thread has been running.
fn cpu() -> i64 {
    let mut t = [0i64; 2];
    // SAFETY: a timespec of two 64-bit numbers on this platform
    unsafe { clock_gettime(CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t[0] * 1_000_000_000 + t[1]
}
fn timed<X>(f: impl FnOnce() -> X) -> (i64, X) {
    let t = cpu();
    let x = f();
    (cpu() - t, x)
}

/// What is repeated, and how.
const SHAPES: [&str; 13] = [
    "value", "properties", "parameters", "parameter items", "parameter value", "components", "list items", "cards",
    "bad cards", "bad lines", "folds", "blank lines", "groups",
];

/// A text made of a repeated piece, grown to about `len` bytes.
fn grow(shape: &str, piece: &str, len: usize) -> String {
    let n = len / (piece.len() + 1) + 1;
    let rep = |p: &str| p.repeat(len / p.len() + 1);
    match shape {
        "value" => wrap(&["FN:x".into(), format!("NOTE:{}", rep(piece))]),
        "properties" => wrap(&vec![format!("FN:{piece}"); n]),
        "parameters" => {
            let q: String = (0..n).map(|i| format!(";X-P{i}={piece}")).collect();
            wrap(&["FN:x".into(), format!("NOTE{q}:x")])
        }
        "parameter items" => wrap(&["FN:x".into(), format!("NOTE;SORT-AS={}:x", vec![piece; n].join(","))]),
        "parameter value" => wrap(&["FN:x".into(), format!("NOTE;ALTID=\"{}\":x", rep(piece))]),
        "components" => wrap(&["FN:x".into(), format!("ORG:{}", vec![piece; n].join(";"))]),
        "list items" => wrap(&["FN:x".into(), format!("CATEGORIES:{}", vec![piece; n].join(","))]),
        "cards" => wrap(&[format!("FN:{piece}")]).repeat(n / 3 + 1),
        "bad cards" => wrap(&[format!("NOTE:{piece}")]).repeat(n / 3 + 1),
        "bad lines" => wrap(&[vec!["FN:x".to_string()], vec![format!("BAD:{piece}"); n]].concat()),
        "folds" => wrap(&["FN:x".into(), format!("NOTE:x{}", format!("\r\n {piece}").repeat(n))]),
        "blank lines" => format!("{}{}", "\r\n".repeat(n), wrap(&[format!("FN:{piece}")])),
        _ => wrap(&[vec!["FN:x".to_string()], vec![format!("G.NOTE;PREF=1:{piece}"); n]].concat()),
    }
}

/// Time of everything that is done with a text.
fn work(t: &str, what: &str) -> i64 {
    match what {
        "parse" => timed(|| vcard4::parse(t).is_ok()).0,
        "parse_loose" => timed(|| vcard4::parse_loose(t).is_ok()).0,
        "iter" => timed(|| vcard4::iter(t, true).filter(|r| r.is_ok()).count()).0,
        "iter loose" => timed(|| vcard4::iter(t, false).filter(|r| r.is_ok()).count()).0,
        "try_from" => timed(|| Vcard::try_from(t).is_ok()).0,
        _ => match vcard4::parse_loose(t) {
            Ok(v) => timed(|| v.iter().map(|c| c.to_string().len()).sum::<usize>()).0,
            Err(_) => 0,
        },
    }
}

const SMALL: usize = 24_000;
const TIMES: usize = 8;
/// No more than this many times the work for `TIMES` times the text.
const RATIO: i64 = 3 * TIMES as i64;
const FLOOR: i64 = 20_000_000;

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    let shape = *s.pick(&SHAPES);
    let piece = match s.below(8) {
        0 => "x".to_string(),
        1 => s.pick::<&str>(&["\\n", "\\,", "\\;", "\\\\", "\\", "\\x"]).to_string(),
        2 => s.pick::<&str>(&["é", "日", "e\u{301}", "👩‍👩‍👧", "🇩🇪", "\u{200d}", "नि"]).to_string(),
        3 => s.pick::<&str>(&[" ", "a b", "=", "-", ".", "+", "(", "BEGIN:VCARD", "END:VCARD", "VERSION:4.0"]).to_string(),
        _ => {
            let n = 1 + s.below(12);
            (0..n).map(|_| *s.pick::<&str>(&["a", "b", "1", "-", ".", "\\,", "\\n", "é", "X", " ", "=", "日", "/"])).collect()
        }
    };
    let piece = if shape == "parameter items" || shape == "parameters" { piece.replace([':', '"'], "") } else { piece };
    let piece = if piece.is_empty() { "x".into() } else { piece };
    let what = *s.pick::<&'static str>(&["parse", "parse_loose", "iter", "iter loose", "try_from", "print"]);
    cx.input(&format!("{shape} of {piece:?}, {what}"));
    cx.label(shape);
    cx.label(what);
    cx.nontrivial = true;
    let (a, b) = (grow(shape, &piece, SMALL), grow(shape, &piece, SMALL * TIMES));
    let slow = |x: i64, y: i64| y > FLOOR && y > RATIO * x.max(100_000) * (b.len() as i64) / (a.len() as i64) / TIMES as i64;
    let (mut x, mut y) = (work(&a, what), work(&b, what));
    // The least of many, when it looks slow
    let mut tries = 0;
    while slow(x, y) && tries < 8 {
        tries += 1;
        x = x.max(work(&a, what));
        y = y.min(work(&b, what));
    }
    ensure!(
        !slow(x, y),
        "{what} of a text of {} bytes takes {} µs, of {} bytes {} µs",
        a.len(),
        x / 1000,
        b.len(),
        y / 1000
    );
    Ok(())
}

pub const SPEC: Spec = Spec {
    id: "C32",
    check,
    quick: 700,
    thorough: 60_000,
    rule: "texts of about 24,000 bytes that repeat a generated piece in one of 13 shapes, and the same eight times as \
           long; thread CPU time of one operation on both, the least of several when the longer takes more than 24 \
           times the shorter and more than 20 ms; every case is non-trivial",
    must_see: &[],
    serial: false,
};
