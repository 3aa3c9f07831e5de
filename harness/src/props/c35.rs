//! Printing to a writer that fails.
use super::*;
use std::fmt::{self, Write};

/// Takes `left` bytes, then fails every call, or fails one call only.
struct Full {
    left: usize,
    once: bool,
    failed: bool,
    got: String,
}
impl Write for Full {
    fn write_str(&mut self, t: &str) -> fmt::Result {
        if self.failed && self.once {
            self.got.push_str(t);
            return Ok(());
        }
        if self.failed || t.len() > self.left {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.left -= t.len();
        self.got.push_str(t);
        Ok(())
    }
}

/// Counts the calls, and takes one character at a time.
struct Slow(String);
impl Write for Slow {
    fn write_str(&mut self, t: &str) -> fmt::Result {
        t.chars().for_each(|c| self.0.push(c));
        Ok(())
    }
}

fn fails(s: &mut Src, d: &dyn fmt::Display, what: &str) -> Res {
    let full = d.to_string();
    let mut w = Slow(String::new());
    ensure!(write!(w, "{d}").is_ok() && w.0 == full, "{what}: another writer gets another text");
    if full.is_empty() {
        return Ok(());
    }
    for _ in 0..3 {
        let left = match s.below(3) {
            0 => full.len() - 1,
            1 => s.below(full.len() as u64) as usize,
            _ => s.below(full.len().min(120) as u64) as usize,
        };
        let once = s.chance(1, 2);
        let mut w = Full { left, once, failed: false, got: String::new() };
        let r = write!(w, "{d}");
        ensure!(r.is_err(), "{what}: no error from a writer that fails after {left} of {} bytes", full.len());
        ensure!(
            full.starts_with(&w.got) && w.got.len() < full.len(),
            "{what}: a writer that fails after {left} bytes got {:?} of {full:?}",
            w.got
        );
    }
    // One that takes all
    let mut w = Full { left: full.len(), once: false, failed: false, got: String::new() };
    ensure!(write!(w, "{d}").is_ok() && w.got == full, "{what}: a writer with room for all of it fails");
    Ok(())
}

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    let card = gcard(s);
    let c = build(&card);
    let out = c.to_string();
    cx.input(&out);
    cx.nontrivial = rich(&card);
    cx.label_if(out.contains("\r\n "), "folded");
    fails(s, &c, "card")?;
    macro_rules! each {
        ($($f:ident)*) => { $(for p in c.$f.iter() {
            fails(s, p, stringify!($f))?;
            if let Some(q) = vcard4::property::Property::parameters(p) {
                cx.label("parameters");
                fails(s, q, "parameters")?;
            }
        })* };
    }
    each!(source kind xml formatted_name name nickname photo bday anniversary gender url address title role logo org
        member related tel email impp lang timezone geo categories note prod_id rev sound uid client_pid_map key
        fburl cal_adr_uri cal_uri extensions);
    // An error
    let t = wrap(&[super::c13::bad_line(s, &[], &mut Ctx::default()).0]);
    if let Err(e) = vcard4::parse(&t) {
        cx.label("error");
        fails(s, &e, "error")?;
    }
    Ok(())
}

pub const SPEC: Spec = Spec {
    id: "C35",
    check,
    quick: 12_000,
    thorough: 1_000_000,
    rule: "cards of generated properties, each of their properties and parameters, and errors, printed to writers that \
           fail after a random number of bytes, for good or once; non-trivial: at least two properties and a group, a \
           parameter or more than three properties",
    must_see: &["folded", "parameters", "error"],
    serial: false,
};
