//! Cards are equal exactly when they hold the same data.
use super::*;
use vcard4::property::TextListProperty;

pub fn other_text(s: &mut Src, t: &mut String) {
    let chars: Vec<char> = t.chars().collect();
    match s.below(5) {
        0 => t.push(*s.pick(&['a', ' ', ',', ';', '\\', '\n', 'é'])),
        1 if !t.is_empty() => *t = chars[1..].iter().collect(),
        2 if !t.is_empty() => {
            t.pop();
        }
        // Letter case
        3 if t.bytes().any(|c| c.is_ascii_alphabetic()) => {
            *t = if t.bytes().any(|c| c.is_ascii_lowercase()) { t.to_ascii_uppercase() } else { t.to_ascii_lowercase() }
        }
        _ => t.insert(0, *s.pick(&['a', ' ', '0', '"'])),
    }
}
/// Where the path starts: the scheme and the host are the same in either case.
fn path_start(u: &str) -> usize {
    let Some(colon) = u.find(':') else { return u.len() };
    match u[colon + 1..].strip_prefix("//") {
        Some(rest) => rest.find(['/', '?', '#']).map_or(u.len(), |i| u.len() - rest.len() + i),
        None => colon + 1,
    }
}
pub fn other_uri(s: &mut Src, u: &mut String) {
    let at = path_start(u);
    if at < u.len() && s.chance(1, 2) {
        let b = u.as_bytes();
        let encoded = |i: usize| b[i] == b'%' || i > 0 && b[i - 1] == b'%' || i > 1 && b[i - 2] == b'%';
        let letters: Vec<usize> = (at..u.len()).filter(|i| b[*i].is_ascii_alphabetic() && !encoded(*i)).collect();
        if !letters.is_empty() {
            let i = *s.pick(&letters);
            let c = u[i..=i].to_string();
            let d = match s.below(3) {
                0 => "7".into(),
                _ if c == c.to_ascii_lowercase() => c.to_ascii_uppercase(),
                _ => c.to_ascii_lowercase(),
            };
            u.replace_range(i..=i, &d);
            return;
        }
    }
    *u = if u.starts_with("urn:other:") { "urn:next:1".into() } else { "urn:other:1".into() };
}
fn other_time(s: &mut Src, t: &mut T) {
    match s.below(5) {
        0 => t.h = (t.h + 1) % 24,
        1 => t.m = (t.m + 1) % 60,
        2 => t.s = (t.s + 1) % 60,
        3 => t.ns = if t.ns == 0 { 1 } else { 0 },
        _ => t.off = if t.off >= 0 { t.off - 60 } else { t.off + 60 },
    }
}
fn other_date(s: &mut Src, d: &mut D) {
    match s.below(3) {
        0 => d.d = if d.d > 1 { d.d - 1 } else { 2 },
        1 => (d.m, d.d) = (d.m % 12 + 1, d.d.min(28)),
        _ => (d.y, d.d) = (if d.y > 1 { d.y - 1 } else { 2 }, d.d.min(28)),
    }
}
fn other_dot(s: &mut Src, d: &mut DoT) {
    *d = match *d {
        DoT::D(d) if s.chance(1, 6) => DoT::DT(DT { d, t: T { h: 0, m: 0, s: 0, ns: 0, off: 0 } }),
        DoT::DT(d) if s.chance(1, 8) => DoT::D(d.d),
        DoT::DT(d) if s.chance(1, 8) => DoT::T(d.t),
        mut x => {
            match &mut x {
                DoT::D(d) => other_date(s, d),
                DoT::T(t) => other_time(s, t),
                DoT::DT(d) if s.chance(1, 2) => other_date(s, &mut d.d),
                DoT::DT(d) => other_time(s, &mut d.t),
            }
            x
        }
    }
}
fn other_dt(s: &mut Src, d: &mut DT) {
    if s.chance(1, 2) { other_date(s, &mut d.d) } else { other_time(s, &mut d.t) }
}
/// Change one item, or the number or order of the items.
fn other_list<X: Clone + PartialEq>(s: &mut Src, v: &mut Vec<X>, f: impl FnOnce(&mut Src, &mut X)) {
    let n = v.len();
    match s.below(6) {
        0 if n > 1 => {
            v.pop();
        }
        1 => v.push(v[n - 1].clone()),
        2 if n > 1 => v.reverse(),
        3 if n > 1 => {
            v.remove(0);
        }
        _ => {
            let i = s.below(n as u64) as usize;
            f(s, &mut v[i]);
        }
    }
}

fn other_value(s: &mut Src, p: &mut Prop) -> &'static str {
    match &mut p.val {
        Val::Text(t) => other_text(s, t),
        Val::Lang(t) => *t = if t.eq_ignore_ascii_case("tlh") { "fr".into() } else { "tlh".into() },
        Val::Semi(v) | Val::Comma(v) => other_list(s, v, other_text),
        Val::Uri(u) => other_uri(s, u),
        Val::Kind(k) => *k = *s.pick::<&'static str>(&KINDS),
        Val::Gender(x, i) => match i {
            Some(t) if s.chance(1, 2) => other_text(s, t),
            Some(_) if s.chance(1, 2) => *i = None,
            None if s.chance(1, 2) => *i = Some(String::new()),
            _ => *x = *s.pick::<&'static str>(&SEXES),
        },
        Val::Adr(a) => {
            let i = s.below(7) as usize;
            match &mut a[i] {
                Some(t) if s.chance(3, 4) => other_text(s, t),
                x => {
                    *x = match x {
                        Some(_) => None,
                        None => Some("x".into()),
                    }
                }
            }
            if s.chance(1, 4) {
                a.swap(i, (i + 1) % 7);
            }
        }
        Val::DoT(v) => other_list(s, v, other_dot),
        Val::Stamp(d) => other_dt(s, d),
        Val::DateTimes(v) | Val::Stamps(v) => other_list(s, v, other_dt),
        Val::Times(v) => other_list(s, v, other_time),
        Val::Dates(v) => other_list(s, v, other_date),
        Val::Offset(o) => *o = if s.chance(1, 3) { -*o } else if *o > 0 { *o - 60 } else { *o + 60 },
        Val::PidMap(n, u) => {
            if s.chance(1, 2) {
                *n = n.wrapping_add(1)
            } else {
                other_uri(s, u)
            }
        }
        Val::Int(v) => other_list(s, v, |s, n| *n = n.wrapping_add(*s.pick(&[1, -1, 1 << 32, i64::MIN]))),
        Val::Float(v) => other_list(s, v, |s, b| *b = b.wrapping_add(1 << *s.pick(&[0, 1, 30, 52, 60]))),
        Val::Bool(b) => *b = !*b,
    }
    "value"
}

fn other_params(s: &mut Src, p: &mut Prop) -> &'static str {
    let q = &mut p.params;
    fn toggle(s: &mut Src, t: &mut Option<String>) {
        match t {
            Some(t) if s.chance(2, 3) => other_text(s, t),
            t => *t = if t.is_some() { None } else { Some(String::new()) },
        }
    }
    match s.below(13) {
        0 => q.language = if q.language.as_ref().is_some_and(|l| l.eq_ignore_ascii_case("tlh")) { None } else { Some("tlh".into()) },
        1 => q.value = if q.value.is_some() && s.chance(1, 2) { None } else { Some(s.pick::<&str>(&VALUE_TYPES)) },
        2 => {
            q.pref = match q.pref {
                Some(n) if s.chance(1, 2) => Some(n % 100 + 1),
                Some(_) => None,
                None => Some(1),
            }
        }
        3 => toggle(s, &mut q.altid),
        4 => match &mut q.pid {
            Some(v) => other_list(s, v, |s, (a, b)| {
                if s.chance(1, 2) {
                    *a = a.wrapping_add(1)
                } else {
                    *b = match b {
                        Some(n) if s.chance(1, 2) => Some(n.wrapping_add(1)),
                        Some(_) => None,
                        None => Some(0),
                    }
                }
            }),
            None => q.pid = Some(vec![(1, None)]),
        },
        5 => match &mut q.types {
            Some(v) => other_list(s, v, |s, t| *t = gtype(s)),
            None => q.types = Some(vec![gtype(s)]),
        },
        6 => q.mediatype = if q.mediatype.as_deref() == Some("text/x-other") { None } else { Some("text/x-other".into()) },
        7 => toggle(s, &mut q.calscale),
        8 => match &mut q.sort_as {
            Some(v) => other_list(s, v, other_text),
            None => q.sort_as = Some(vec![String::new()]),
        },
        9 => match &mut q.geo {
            Some(u) if s.chance(1, 2) => other_uri(s, u),
            g => *g = if g.is_some() { None } else { Some("geo:1,2".into()) },
        },
        10 => {
            q.tz = match q.tz.take() {
                Some(Tz::Text(mut t)) if s.chance(1, 2) => {
                    other_text(s, &mut t);
                    Some(Tz::Text(t))
                }
                Some(Tz::Offset(o)) => Some(Tz::Offset(if o > 0 { o - 60 } else { o + 60 })),
                Some(Tz::Uri(mut u)) if s.chance(1, 2) => {
                    other_uri(s, &mut u);
                    Some(Tz::Uri(u))
                }
                // The same text of another type
                Some(Tz::Uri(u)) => Some(Tz::Text(u)),
                Some(_) => None,
                None => Some(Tz::Offset(0)),
            }
        }
        11 => toggle(s, &mut q.label),
        _ => {
            if q.ext.is_empty() || s.chance(1, 4) {
                q.ext.push(("X-Q".into(), vec!["1".into()]));
            } else {
                other_list(s, &mut q.ext, |s, (n, v)| {
                    if s.chance(1, 4) {
                        n.push('Z')
                    } else if v.is_empty() {
                        v.push("1".into())
                    } else {
                        other_list(s, v, other_text)
                    }
                })
            }
        }
    }
    "parameter"
}

/// Change one thing of a card.
fn perturb(s: &mut Src, c: &mut Card) -> &'static str {
    let i = s.below(c.len() as u64) as usize;
    match s.weighted(&[8, 8, 2, 1, 1, 1, 1, 1]) {
        0 => other_value(s, &mut c[i]),
        1 => other_params(s, &mut c[i]),
        2 => {
            c[i].group = match c[i].group.take() {
                Some(mut g) if s.chance(1, 2) => {
                    g.push('a');
                    Some(g)
                }
                Some(_) => None,
                None => Some("a".into()),
            };
            "group"
        }
        3 => {
            c.remove(i);
            "one property less"
        }
        4 => {
            let name = any_name(s);
            if SINGLE.contains(&&name[..]) && c.iter().any(|p| p.name == name) {
                return "nothing";
            }
            c.push(gprop_named(s, &name, VALUE_TEXT, PARAMS));
            "one property more"
        }
        5 => {
            if !SINGLE.contains(&&c[i].name[..]) {
                let p = c[i].clone();
                c.push(p);
            }
            "one property twice"
        }
        6 => {
            // Same-kind neighbours in the other order
            if i + 1 < c.len() && rank(&c[i].name) == rank(&c[i + 1].name) {
                c.swap(i, i + 1);
            }
            "order"
        }
        _ => {
            // The same value elsewhere
            let groups: [&[&str]; 4] = [
                &["FN", "NICKNAME", "TITLE", "ROLE", "EMAIL", "NOTE", "XML"],
                &["SOURCE", "URL", "LOGO", "MEMBER", "IMPP", "GEO", "SOUND", "FBURL", "CALADRURI", "CALURI"],
                &["PHOTO", "TEL", "RELATED", "KEY"],
                &["X-A", "X-B", "x-a"],
            ];
            let g = groups.iter().find(|g| g.contains(&&c[i].name[..])).or(if c[i].name.to_uppercase().starts_with("X-") {
                Some(&groups[3])
            } else {
                None
            });
            if let Some(g) = g {
                c[i].name = s.pick::<&str>(g).to_string();
            }
            "another property"
        }
    }
}

fn instant(d: &mut DT) {
    // Equal date-times are the same instant
    let o = odt(*d).to_offset(offset(0));
    *d = l_odt(&o);
}
/// What equality looks at.
fn normal(c: &mut Card) {
    canonical(c);
    for p in c {
        match &mut p.val {
            Val::DoT(v) => v.iter_mut().for_each(|d| {
                if let DoT::DT(d) = d {
                    instant(d)
                }
            }),
            Val::Stamp(d) => instant(d),
            Val::DateTimes(v) | Val::Stamps(v) => v.iter_mut().for_each(instant),
            Val::Float(v) => v.iter_mut().for_each(|b| {
                if *b == (-0.0f64).to_bits() {
                    *b = 0
                }
            }),
            _ => {}
        }
    }
}

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    let (a, what) = {
        // Small ones too, so that one difference decides
        let a = if s.chance(1, 2) {
            let name = any_name(s);
            let mut a = vec![gprop_named(s, &name, VALUE_TEXT, PARAMS)];
            if !SINGLE.contains(&&name[..]) && s.chance(1, 3) {
                a.push(gprop_named(s, &name, VALUE_TEXT, PARAMS));
            }
            a
        } else {
            gcard(s)
        };
        (a, ())
    };
    let _ = what;
    let mut b = a.clone();
    let what = perturb(s, &mut b);
    canonical(&mut b);
    cx.input(&format!("{a:?}\n{b:?}"));
    // Years below 0 come from instants at the border, nothing to compare there
    let border = |c: &Card| format!("{c:?}").contains("y: 0,") || format!("{c:?}").contains("y: 9999,");
    let (x, y) = (build(&a), build(&a));
    let nan = |c: &Card| {
        c.iter().any(|p| matches!(&p.val, Val::Float(v) if v.iter().any(|b| f64::from_bits(*b).is_nan())))
    };
    if nan(&a) || nan(&b) {
        return Ok(());
    }
    ensure!(x == y && y == x, "cards of the same data differ");
    ensure!(x == x.clone() && x.clone() == y, "a clone differs");
    ensure!(logical(&x.clone()) == logical(&x), "a clone holds other data");
    let z = build(&b);
    if border(&a) || border(&b) {
        return Ok(());
    }
    let (mut m, mut n) = (a.clone(), b.clone());
    normal(&mut m);
    normal(&mut n);
    if m == n {
        cx.label("no difference");
        ensure!(x == z && z == x, "cards with the same data differ");
    } else {
        cx.label(what);
        cx.nontrivial = true;
        ensure!(x != z && z != x, "cards that differ in one {what} compare equal: {:?}", diff(&b, &a));
        ensure!(!(x == z) && !(z == x), "== and != agree");
        // In a list, and one by one
        ensure!(vec![x.clone()] != vec![z.clone()], "lists compare equal");
    }
    // The delimiter of a list
    for p in &a {
        if let Val::Semi(v) | Val::Comma(v) = &p.val {
            let v: Vec<String> = v.clone();
            let (l, m) = (TextListProperty::new_semi_colon(v.clone()), TextListProperty::new_comma(v.clone()));
            ensure!(l != m && m != l, "lists with another delimiter compare equal");
            ensure!(l == l.clone() && m == TextListProperty::new_comma(v), "equal lists differ");
        }
    }
    // Changing a clone does not change the card
    let mut w = x.clone();
    w.formatted_name.push("changed".to_string().into());
    ensure!(w != x && logical(&x) == a_sorted(&a), "a change of a clone is seen in the card");
    Ok(())
}
fn a_sorted(a: &Card) -> Card {
    let mut a = a.clone();
    canonical(&mut a);
    a
}

pub const SPEC: Spec = Spec {
    id: "C31",
    check,
    quick: 200_000,
    thorough: 5_000_000,
    rule: "pairs of cards that are the same data or differ in one text, number, date, parameter, group, item, property \
           or order, compared in both directions; non-trivial: they differ",
    must_see: &[
        "value", "parameter", "group", "one property less", "one property more", "one property twice", "order",
        "another property",
    ],
    serial: false,
};
