//! Printed dates, times and offsets read by an independent reader.
use super::*;
use crate::dates::*;
use crate::reader;
use vcard4::property::*;

fn read(v: &Val, raw: &str) -> Option<Val> {
    let items: Vec<&str> = raw.split(',').collect();
    fn all<X>(l: &[&str], f: impl Fn(&str) -> Option<X>) -> Option<Vec<X>> {
        l.iter().map(|x| f(x)).collect()
    }
    Some(match v {
        Val::Dates(_) => Val::Dates(all(&items, read_date)?),
        Val::Times(_) => Val::Times(all(&items, read_time)?),
        Val::DateTimes(_) => Val::DateTimes(all(&items, read_dt)?),
        Val::Stamps(_) => Val::Stamps(all(&items, read_dt)?),
        Val::DoT(_) => Val::DoT(all(&items, read_dot)?),
        Val::Stamp(_) => Val::Stamp(read_dt(raw)?),
        Val::Offset(_) => Val::Offset(read_zone(raw)?),
        _ => return None,
    })
}

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    cx.nontrivial = true;
    let mut card = vec![fn_prop("x")];
    let n = 1 + s.below(4);
    for _ in 0..n {
        let p = match s.below(9) {
            0 => prop("REV", Val::Stamp(gdt(s))),
            1 => prop("BDAY", Val::DoT(list(s, 4, gdot))),
            2 => prop("ANNIVERSARY", Val::DoT(list(s, 4, gdot))),
            3 => {
                let mut p = prop("TZ", Val::Offset(goff(s)));
                p.params.value = Some("utc-offset");
                p
            }
            4 => {
                let mut p = prop("NOTE", Val::Text("x".into()));
                p.params.tz = Some(Tz::Offset(goff(s)));
                p
            }
            _ => {
                let k = *s.pick::<&'static str>(&["date", "time", "date-time", "timestamp", "date-and-or-time", "utc-offset"]);
                let mut p = prop("X-A", typed(s, k, VALUE_TEXT));
                p.params.value = Some(k);
                cx.label(k);
                p
            }
        };
        if SINGLE.contains(&&p.name[..]) && card.iter().any(|q| q.name == p.name) {
            continue;
        }
        if s.chance(1, 4) {
            card.push(p.clone());
            if SINGLE.contains(&&p.name[..]) {
                card.pop();
            }
        }
        card.push(p);
    }
    canonical(&mut card);
    let built = build(&card);
    let out = built.to_string();
    cx.input(&format!("{card:?}\n{out}"));
    let lines = match reader::lines(&out) {
        Ok(l) => l,
        Err(e) => fail!("{out:?}: {e}"),
    };
    let mut seen = 0;
    // Those of a kind are in order
    let mut left: Vec<&Prop> = card.iter().collect();
    for l in &lines[2..lines.len() - 1] {
        let l = match reader::split_line(l) {
            Ok(l) => l,
            Err(e) => fail!("{l:?}: {e}"),
        };
        let Some(i) = left.iter().position(|p| p.name == l.name) else { fail!("unexpected {} in {out:?}", l.name) };
        let p = left.remove(i);
        seen += 1;
        if let Some(Tz::Offset(o)) = p.params.tz {
            cx.label("TZ parameter");
            let t = l.params.iter().find(|(k, _, _)| k == "TZ").map(|(_, v, _)| v.clone()).unwrap_or_default();
            ensure!(read_zone(&t) == Some(o), "offset of {o} seconds is printed as {t:?}");
        }
        if matches!(p.val, Val::Text(_)) {
            continue;
        }
        cx.label_if(matches!(p.val, Val::Offset(o) if o < 0 && o > -3600), "offset between -1h and 0");
        cx.label_if(p.name == "REV", "REV");
        cx.label_if(p.name == "BDAY", "BDAY");
        match read(&p.val, &l.value) {
            Some(v) if v == p.val => {}
            v => fail!("{:?} of {} is printed as {:?}, which denotes {v:?}", p.val, p.name, l.value),
        }
    }
    ensure!(seen == card.len(), "{seen} properties of {} are printed: {out:?}", card.len());
    // The types on their own
    let d = gdot(s);
    let t = dot(&d).to_string();
    ensure!(read_dot(&t) == Some(d), "{d:?} is displayed as {t:?}");
    let o = goff(s);
    let t = UtcOffsetProperty { group: None, value: offset(o), parameters: None }.to_string();
    ensure!(read_zone(&t) == Some(o), "offset of {o} seconds is displayed as {t:?}");
    let v = list(s, 3, gdot);
    let t = DateAndOrTimeProperty { group: None, value: v.iter().map(dot).collect(), parameters: None }.to_string();
    ensure!(read(&Val::DoT(vec![]), &t) == Some(Val::DoT(v.clone())), "{v:?} is displayed as {t:?}");
    let d = gdt(s);
    let t = DateTimeProperty { group: None, value: datetime(d), parameters: None }.to_string();
    ensure!(read_dt(&t) == Some(d), "{d:?} is displayed as {t:?}");
    for k in ["date", "time", "date-time", "timestamp", "date-and-or-time", "utc-offset"] {
        let v = typed(s, k, VALUE_TEXT);
        let mut p = prop("X-A", v.clone());
        p.params.value = Some(k);
        let t = any(&p).to_string();
        ensure!(read(&v, &t).as_ref() == Some(&v), "{v:?} is displayed as {t:?}");
    }
    Ok(())
}

pub const SPEC: Spec = Spec {
    id: "C21",
    check,
    quick: 400_000,
    thorough: 3_000_000,
    rule: "dates (years 0000-9999, month ends, leap days), times, offsets of any whole minute, date-times, timestamps \
           and their lists, in REV, BDAY, ANNIVERSARY, TZ, the TZ parameter and extensions of every type, and displayed \
           on their own; the printed text is read by a strict reader of the complete basic forms; every case is \
           non-trivial",
    must_see: &[
        "REV", "BDAY", "TZ parameter", "date", "time", "date-time", "timestamp", "date-and-or-time", "utc-offset",
        "offset between -1h and 0",
    ],
    serial: false,
};
