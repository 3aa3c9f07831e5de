//! The order of lines of different kinds, and acceptance line by line.
use super::c07::{TOKENS, lenient_line, mutate};
use super::*;

/// A line; `few` are the names that are used.
fn line(s: &mut Src, few: &[String]) -> String {
    let mut l = match s.below(8) {
        0 => lenient_line(s),
        // A spelling of one type as a value of another
        1 | 2 => {
            let kind = *s.pick::<&str>(&["date", "time", "date-time", "timestamp", "date-and-or-time", "utc-offset"]);
            let mut p = prop("X-A", typed(s, kind, VALUE_TEXT));
            p.params.value = Some(kind);
            let st = Style { dates: true, ..PLAIN };
            let v = render_value(s, &p, st);
            let v = if s.chance(1, 2) { crate::props::c03::near(s, &v) } else { v };
            let name = *s.pick::<&str>(&["REV", "BDAY", "ANNIVERSARY", "REV", "TZ;VALUE=utc-offset", "X-A;VALUE=time", "X-A;VALUE=date-time"]);
            return format!("{name}:{v}");
        }
        k => {
            let name = if k < 6 && !few.is_empty() { s.pick(few).clone() } else { any_name(s) };
            let p = gprop_named(s, &name, VALUE_TEXT, PARAMS);
            let st = some_style(s);
            render_prop(s, &p, st)
        }
    };
    match s.below(4) {
        0 => l = mutate(s, &l, 2),
        1 if s.chance(1, 4) => l.push_str(s.pick::<&str>(&TOKENS)),
        _ => {}
    }
    l
}

/// Where the kind of a line comes in the order of kinds.
fn kind_of(l: &str) -> usize {
    let h: String = l.split([';', ':']).next().unwrap().to_ascii_uppercase();
    rank(h.rsplit('.').next().unwrap())
}
/// The lines that are printed, unfolded.
fn printed(c: &Vcard) -> Vec<String> {
    let mut v: Vec<String> = c.to_string().replace("\r\n ", "").split("\r\n").map(|l| l.to_string()).collect();
    v.retain(|l| !l.is_empty() && l != "BEGIN:VCARD" && l != "VERSION:4.0" && l != "END:VCARD");
    v
}

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    let n = 2 + s.below(s.size.min(14));
    // Mostly several of the same few kinds
    let few: Vec<String> = if s.chance(1, 2) { (0..1 + s.below(3)).map(|_| any_name(s)).collect() } else { Vec::new() };
    let base = ["KIND:group".to_string(), "FN:x".to_string()];
    let (scaffold, scaffold_lines) = match vcard4::parse(wrap(&base)) {
        Ok(c) => (logical(&c[0]), printed(&c[0])),
        Err(e) => fail!("scaffold: {e}"),
    };
    // Each line with what it is alone, and what is printed for it
    let mut lines: Vec<(String, Option<Prop>)> = Vec::new();
    let mut alone_lines: Vec<String> = Vec::new();
    for _ in 0..n {
        let l = line(s, &few);
        let u = l.to_uppercase();
        if l.contains(['\n', '\r']) || l.starts_with([' ', '\t']) || u.starts_with("BEGIN:") || u.starts_with("END:") {
            continue;
        }
        let mut v = base.to_vec();
        v.push(l.clone());
        let alone = match vcard4::parse(wrap(&v)) {
            Ok(card) => {
                // What is added to the scaffold
                let mut c = logical(&card[0]);
                for p in &scaffold {
                    match c.iter().position(|q| q == p) {
                        Some(i) => c.remove(i),
                        None => fail!("{l:?} changes another property: {c:?}"),
                    };
                }
                ensure!(c.len() == 1, "{l:?} is read as {} properties", c.len());
                let mut out = printed(&card[0]);
                for p in &scaffold_lines {
                    match out.iter().position(|q| q == p) {
                        Some(i) => out.remove(i),
                        None => fail!("{l:?} changes what is printed of another property: {out:?}"),
                    };
                }
                ensure!(out.len() == 1, "{l:?} is printed as {} lines", out.len());
                Some((c.remove(0), out.remove(0)))
            }
            Err(_) => None,
        };
        // One of a single-valued kind, KIND is in the scaffold
        if let Some((p, _)) = &alone
            && SINGLE.contains(&&p.name[..])
            && lines.iter().any(|(_, q)| q.as_ref().is_some_and(|q| q.name == p.name))
        {
            continue;
        }
        if let Some((_, out)) = &alone {
            alone_lines.push(out.clone());
        }
        lines.push((l, alone.map(|a| a.0)));
    }
    let some_bad = s.chance(1, 3);
    if !some_bad {
        lines.retain(|(_, p)| p.is_some());
    }
    let ok = lines.iter().all(|(_, p)| p.is_some());
    cx.nontrivial = lines.len() > 1;
    cx.label(if ok { "all accepted alone" } else { "one rejected alone" });
    let mut want: Card = scaffold.clone();
    want.extend(lines.iter().filter_map(|(_, p)| p.clone()));
    canonical(&mut want);
    // The same lines are printed, those of a kind in the order they are written
    let mut want_lines: Vec<String> = scaffold_lines.clone();
    want_lines.extend(alone_lines);
    want_lines.sort_by_key(|l| kind_of(l));
    cx.label_if(want.windows(2).any(|w| w[0].name == w[1].name), "several of a kind");
    let orders = 3;
    let mut first_printed = None;
    for k in 0..orders {
        // Any order that keeps those of a kind in theirs
        let mut all: Vec<String> = base.to_vec();
        all.extend(lines.iter().map(|(l, _)| l.clone()));
        let mut order: Vec<usize> = (0..all.len()).collect();
        if k > 0 {
            s.shuffle(&mut order);
            if k == 2 {
                order = (0..all.len()).rev().collect();
                cx.label("reversed");
            }
        }
        let mut queues: std::collections::HashMap<usize, Vec<usize>> = Default::default();
        for i in (0..all.len()).rev() {
            queues.entry(kind_of(&all[i])).or_default().push(i);
        }
        let seq: Vec<String> =
            order.iter().map(|i| all[queues.get_mut(&kind_of(&all[*i])).unwrap().pop().unwrap()].clone()).collect();
        let t = wrap(&seq);
        cx.input(&t);
        let got = vcard4::parse(&t);
        if ok {
            if let Ok(c) = &got {
                let out = c[0].to_string();
                let mut got = printed(&c[0]);
                got.sort_by_key(|l| kind_of(l));
                ensure!(got == want_lines, "prints {got:?}, one by one {want_lines:?}");
                match &first_printed {
                    None => first_printed = Some(out),
                    Some(f) => ensure!(*f == out, "prints {out:?} instead of {f:?}"),
                }
            }
            expect_cards(super::cards(got), &[want.clone()], "lines accepted alone, together")?;
        } else if let Ok(c) = got {
            fail!("a line rejected alone is accepted with others: {:?}", logical(&c[0]));
        }
        expect_cards(loose(&t), &[want.clone()], "parse_loose").or_else(|e| {
            // An unknown VALUE is ignored in loose mode
            if t.to_uppercase().contains("VALUE") && !ok { Ok(()) } else { Err(e) }
        })?;
    }
    Ok(())
}

pub const SPEC: Spec = Spec {
    id: "C28",
    check,
    quick: 60_000,
    thorough: 1_500_000,
    rule: "up to 15 lines, each parsed alone with FN and KIND, then together in three orders that keep those of a kind \
           in theirs (as generated, random, reversed): accepted exactly if each is, giving the properties they give \
           alone and the same printed text, which has the lines that are printed for each alone, in their order; non-trivial: at least two lines",
    must_see: &["several of a kind", "all accepted alone", "one rejected alone", "reversed"],
    serial: false,
};
