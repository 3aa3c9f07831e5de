//! Display and FromStr of the public types.
use super::*;
use crate::dates::*;
use std::{fmt::Display, str::FromStr};
use vcard4::{parameter::*, property::*};

/// Displayed as `want`, which parses to the value.
fn trip<X: Display + FromStr + PartialEq>(v: &X, want: Option<&str>, what: &str) -> Res {
    let t = v.to_string();
    if let Some(w) = want {
        ensure!(t == w, "{what} is displayed as {t:?}, expected {w:?}");
    }
    match t.parse::<X>() {
        Ok(b) => ensure!(b == *v, "{what} displayed as {t:?} is parsed as {:?}", b.to_string()),
        Err(_) => fail!("{what} displayed as {t:?} does not parse"),
    }
    Ok(())
}
/// Two values are the same exactly when displayed the same.
fn distinct<X: Display + PartialEq>(a: &X, b: &X) -> Res {
    let (x, y) = (a.to_string(), b.to_string());
    ensure!((a == b) == (x == y), "values displayed as {x:?} and {y:?} compare {}", a == b);
    Ok(())
}

fn zone_colon(o: i32) -> String {
    let (sign, a) = if o < 0 { ('-', -o) } else { ('+', o) };
    format!("{sign}{:02}:{:02}", a / 3600, a / 60 % 60)
}

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    cx.nontrivial = true;
    match s.below(15) {
        0 => {
            cx.label("Uri");
            let (a, b) = (uri_text(s), uri_text(s));
            cx.input(&a);
            trip(&uri(&a), Some(&a), "Uri")?;
            distinct(&uri(&a), &uri(&b))
        }
        1 => {
            cx.label("Date");
            let (a, b) = (gdate(s), gdate(s));
            cx.input(&format!("Date {a:?}"));
            let d: vcard4::Date = date(a).into();
            trip(&d, Some(&format!("{:04}-{:02}-{:02}", a.y, a.m, a.d)), "Date")?;
            distinct(&d, &date(b).into())?;
            // The other form
            match format!("{:04}{:02}{:02}", a.y, a.m, a.d).parse::<vcard4::Date>() {
                Ok(x) => ensure!(x == d, "basic form of {a:?} is parsed as {x}"),
                Err(_) => {}
            }
            Ok(())
        }
        2 => {
            cx.label("DateTime");
            let (mut a, mut b) = (gdt(s), gdt(s));
            if s.chance(1, 2) {
                a.t.ns = fraction(s);
                if s.chance(1, 2) {
                    b = a;
                    b.t.ns = if s.chance(1, 2) { 0 } else { fraction(s) };
                }
                cx.label("fraction of a second");
            }
            cx.input(&format!("DateTime {a:?}"));
            let d = datetime(a);
            let zone = |o: i32| if o == 0 { "Z".to_string() } else { zone_colon(o) };
            let want = format!(
                "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}{}",
                a.d.y, a.d.m, a.d.d, a.t.h, a.t.m, a.t.s, zone(a.t.off)
            );
            trip(&d, if a.t.ns == 0 { Some(&want) } else { None }, "DateTime")?;
            let back: vcard4::DateTime = match d.to_string().parse() {
                Ok(b) => b,
                Err(e) => fail!("{want}: {e}"),
            };
            ensure!(l_dt(&back) == a, "{want} is parsed as {:?}", l_dt(&back));
            let e = datetime(b);
            ensure!((a == b) == (d.to_string() == e.to_string()), "{d} and {e}");
            Ok(())
        }
        3 => {
            cx.label("DateAndOrTime");
            let (a, b) = (gdot(s), gdot(s));
            cx.input(&format!("{a:?}"));
            let t = dot(&a).to_string();
            ensure!(read_dot(&t) == Some(a), "{a:?} is displayed as {t:?}");
            match t.parse::<DateAndOrTime>() {
                Ok(x) => ensure!(l_dot(&x) == a, "{t:?} is parsed as {:?}", l_dot(&x)),
                Err(e) => fail!("{a:?} displayed as {t:?}: {e}"),
            }
            ensure!((a == b) == (t == dot(&b).to_string()), "{a:?} and {b:?} are displayed as {t:?}");
            Ok(())
        }
        4 => {
            cx.label("UtcOffsetProperty");
            let (a, b) = (goff(s), goff(s));
            cx.input(&format!("offset {a}"));
            let p = |o| UtcOffsetProperty { group: None, value: offset(o), parameters: None };
            let t = p(a).to_string();
            ensure!(read_zone(&t) == Some(a), "offset of {a} seconds is displayed as {t:?}");
            match t.parse::<UtcOffsetProperty>() {
                Ok(x) => ensure!(x.value == offset(a) && x.group.is_none(), "{t:?} is parsed as {x:?}"),
                Err(e) => fail!("offset displayed as {t:?}: {e}"),
            }
            ensure!((a == b) == (t == p(b).to_string()), "offsets {a} and {b} are displayed as {t:?}");
            Ok(())
        }
        5 => {
            cx.label("DeliveryAddress");
            let g = |s: &mut Src| -> [Option<String>; 7] {
                std::array::from_fn(|_| if s.chance(1, 2) { Some(text(s, VALUE_TEXT)).filter(|t| !t.is_empty()) } else { None })
            };
            let (a, b) = (g(s), g(s));
            cx.input(&format!("{a:?}"));
            trip(&address(&a), None, "DeliveryAddress")?;
            distinct(&address(&a), &address(&b))?;
            let t = address(&a).to_string();
            let parts = crate::reader::split_raw(&t, ';');
            ensure!(parts.len() == 7, "address displayed with {} components: {t:?}", parts.len());
            for (p, w) in parts.iter().zip(&a) {
                ensure!(
                    crate::reader::unescape(p).as_deref() == Ok(w.as_deref().unwrap_or("")),
                    "component {w:?} is displayed as {p:?}"
                );
            }
            Ok(())
        }
        6 => {
            cx.label("ClientPidMap");
            let g = |s: &mut Src| (*s.pick(&[1, 2, 10, 53, 1 << 40, u64::MAX]), uri_text(s));
            let (a, b) = (g(s), g(s));
            cx.input(&format!("{a:?}"));
            let v = |x: &(u64, String)| ClientPidMap { source: x.0, uri: uri(&x.1) };
            trip(&v(&a), Some(&format!("{};{}", a.0, a.1)), "ClientPidMap")?;
            distinct(&v(&a), &v(&b))
        }
        7 => {
            cx.label("Gender");
            let g = |s: &mut Src| {
                let x = *s.pick::<&'static str>(&SEXES);
                let i = if s.chance(2, 3) {
                    Some(text(s, TextOpt { newline: false, ..VALUE_TEXT }).replace(['\\', ';', ','], "."))
                } else {
                    None
                };
                (x, i)
            };
            let (a, b) = (g(s), g(s));
            cx.input(&format!("{a:?}"));
            let v = |x: &(&str, Option<String>)| Gender { sex: sex(x.0), identity: x.1.clone() };
            let want = match &a.1 {
                Some(i) => format!("{};{i}", a.0),
                None => a.0.to_string(),
            };
            trip(&v(&a), Some(&want), "Gender")?;
            distinct(&v(&a), &v(&b))
        }
        8 => {
            cx.label("Sex and Kind");
            for x in SEXES {
                trip(&sex(x), Some(x), "Sex")?;
                for y in SEXES {
                    distinct(&sex(x), &sex(y))?;
                }
            }
            for x in KINDS {
                trip(&kind(x), Some(x), "Kind")?;
                for y in KINDS {
                    distinct(&kind(x), &kind(y))?;
                }
            }
            Ok(())
        }
        9 => {
            cx.label("Pid");
            let g = |s: &mut Src| {
                let n = |s: &mut Src| *s.pick(&[0, 1, 2, 10, 99, 12345, u32::MAX as u64, u64::MAX]);
                (n(s), if s.chance(1, 2) { Some(n(s)) } else { None })
            };
            let (a, b) = (g(s), g(s));
            cx.input(&format!("{a:?}"));
            let v = |x: &(u64, Option<u64>)| Pid { local: x.0, source: x.1 };
            let want = match a.1 {
                Some(b) => format!("{}.{b}", a.0),
                None => a.0.to_string(),
            };
            trip(&v(&a), Some(&want), "Pid")?;
            distinct(&v(&a), &v(&b))
        }
        10 | 11 => {
            cx.label("TypeParameter");
            let (a, b) = (gtype(s), gtype(s));
            cx.input(&a);
            let want = if a.starts_with("X-") { format!("x-{}", &a[2..]) } else { a.clone() };
            let t = type_param(&a).to_string();
            ensure!(t.eq_ignore_ascii_case(&want) && t[t.len().min(2)..] == want[want.len().min(2)..], "{a:?} is displayed as {t:?}");
            trip(&type_param(&a), None, "TypeParameter")?;
            distinct(&type_param(&a), &type_param(&b))
        }
        12 => {
            cx.label("TelephoneType");
            for x in TEL_TYPES {
                let v = tel_type(x).unwrap();
                trip(&v, Some(x), "TelephoneType")?;
                for y in TEL_TYPES {
                    distinct(&v, &tel_type(y).unwrap())?;
                }
                let t = recase(s, x, true);
                ensure!(t.parse::<TelephoneType>().is_ok_and(|w| w == v), "{t:?} as TelephoneType");
                let t = format!("{x}{}", s.pick::<&str>(&["x", " ", "-", ","]));
                ensure!(t.parse::<TelephoneType>().is_err(), "{t:?} is a TelephoneType");
            }
            Ok(())
        }
        13 => {
            cx.label("RelatedType");
            for x in REL_TYPES {
                let v = rel_type(x).unwrap();
                trip(&v, Some(x), "RelatedType")?;
                for y in REL_TYPES {
                    distinct(&v, &rel_type(y).unwrap())?;
                }
                let t = recase(s, x, true);
                ensure!(t.parse::<RelatedType>().is_ok_and(|w| w == v), "{t:?} as RelatedType");
                let t = format!("{}{x}", s.pick::<&str>(&["x", " ", "-", ","]));
                ensure!(t.parse::<RelatedType>().is_err(), "{t:?} is a RelatedType");
            }
            Ok(())
        }
        _ => {
            cx.label("ValueType");
            for x in VALUE_TYPES {
                let v = value_type(x);
                trip(&v, Some(x), "ValueType")?;
                for y in VALUE_TYPES {
                    distinct(&v, &value_type(y))?;
                }
                let t = recase(s, x, true);
                ensure!(t.parse::<ValueType>().is_ok_and(|w| w == v), "{t:?} as ValueType");
                let t = format!("{x}{}", s.pick::<&str>(&["x", " ", "-", ","]));
                ensure!(t.parse::<ValueType>().is_err(), "{t:?} is a ValueType");
            }
            Ok(())
        }
    }
}

pub const SPEC: Spec = Spec {
    id: "C26",
    check,
    quick: 1_500_000,
    thorough: 15_000_000,
    rule: "generated values of each type (all of the enumerations), displayed, compared with the standard spelling and \
           parsed, and pairs of values compared with their displayed forms; every case is non-trivial",
    must_see: &[
        "fraction of a second", "Uri", "Date", "DateTime", "DateAndOrTime", "UtcOffsetProperty", "DeliveryAddress", "ClientPidMap", "Gender",
        "Sex and Kind", "Pid", "TypeParameter", "TelephoneType", "RelatedType", "ValueType",
    ],
    serial: false,
};
