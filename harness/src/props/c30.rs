//! Conversions into values and properties, and the accessors of properties.
use super::*;
use crate::reader;
use vcard4::{parameter::*, property::*, time};

/// A property made by a conversion is the one of the model, by itself and in a card.
fn made(name: &str, val: Val, value: Option<&'static str>, put: impl FnOnce(&mut Vcard)) -> Res {
    let mut c = Vcard::new("x".into());
    put(&mut c);
    let p = Prop { params: Params { value, ..Params::default() }, ..prop(name, val) };
    let mut want = vec![fn_prop("x"), p];
    canonical(&mut want);
    if let Some(d) = diff(&logical(&c), &want) {
        fail!("made by conversion: {d}");
    }
    let out = c.to_string();
    expect_cards(strict(&out), &[want], &format!("{out:?}"))
}

fn accessors(p: &dyn Property, m: &Prop, lines: &[String]) -> Res {
    ensure!(p.group() == m.group.as_ref(), "group of {m:?} is {:?}", p.group());
    let q = l_params(p.parameters());
    ensure!(q == m.params, "parameters of {m:?} are {q:?}");
    // Displayed alone it is the value in its line
    let t = p.to_string();
    ensure!(
        lines.iter().any(|l| l.ends_with(&t) && reader::split_line(l).is_ok_and(|x| x.value == t)),
        "{m:?} is displayed as {t:?}, the card is {lines:?}"
    );
    Ok(())
}

/// The properties of a card, in the order of the model.
fn each(c: &Vcard) -> Vec<&dyn Property> {
    let mut v: Vec<&dyn Property> = Vec::new();
    macro_rules! add {
        ($($f:ident)*) => { $(v.extend(c.$f.iter().map(|p| p as &dyn Property));)* };
    }
    add!(source kind xml formatted_name name nickname photo bday anniversary gender url address title role logo org
        member related tel email impp lang timezone geo categories note prod_id rev sound uid client_pid_map key
        fburl cal_adr_uri cal_uri extensions);
    v
}

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    cx.nontrivial = true;
    match s.below(18) {
        0 => {
            let t = text(s, VALUE_TEXT);
            cx.label("text");
            cx.input(&format!("text {t:?}"));
            ensure!(logical(&Vcard::new(t.clone())) == [fn_prop(&t)], "Vcard::new");
            let names = ["FN", "NICKNAME", "TITLE", "ROLE", "EMAIL", "NOTE", "XML", "PRODID"];
            let i = s.below(8) as usize;
            let p = TextProperty::from(t.clone());
            if names[i] == "FN" {
                let c = Vcard::new(t.clone());
                return expect_cards(strict(&c.to_string()), &[vec![fn_prop(&t)]], "Vcard::new");
            }
            made(names[i], Val::Text(t), None, |c| match i {
                1 => c.nickname.push(p),
                2 => c.title.push(p),
                3 => c.role.push(p),
                4 => c.email.push(p),
                5 => c.note.push(p),
                6 => c.xml.push(p),
                _ => c.prod_id = Some(p),
            })
        }
        1 => {
            let mut t = text(s, VALUE_TEXT);
            cx.label("text or URI");
            cx.input(&format!("text {t:?}"));
            let p = TextOrUriProperty::from(t.clone());
            ensure!(
                matches!(&p, TextOrUriProperty::Text(p) if p.value == t && p.group.is_none() && p.parameters.is_none()),
                "{t:?} becomes {p:?}"
            );
            // What is a URI is read as one
            t.retain(|c| c != ':');
            let p = TextOrUriProperty::from(t.clone());
            let i = s.below(5);
            made(["TEL", "PHOTO", "RELATED", "KEY", "UID"][i as usize], Val::Text(t), None, |c| match i {
                0 => c.tel.push(p),
                1 => c.photo.push(p),
                2 => c.related.push(p),
                3 => c.key.push(p),
                _ => c.uid = Some(p),
            })
        }
        2 => {
            let t = text(s, VALUE_TEXT);
            cx.label("time zone text");
            cx.input(&format!("text {t:?}"));
            made("TZ", Val::Text(t.clone()), None, |c| c.timezone.push(t.into()))
        }
        3 => {
            let t = text(s, VALUE_TEXT);
            cx.label("date as text");
            cx.input(&format!("text {t:?}"));
            if s.chance(1, 2) {
                made("BDAY", Val::Text(t.clone()), Some("text"), |c| c.bday = Some(t.into()))
            } else {
                made("ANNIVERSARY", Val::Text(t.clone()), Some("text"), |c| c.anniversary = Some(t.into()))
            }
        }
        4 => {
            let u = uri_text(s);
            cx.label("URI");
            cx.input(&u);
            let p = UriProperty::from(uri(&u));
            let names = ["SOURCE", "URL", "LOGO", "IMPP", "GEO", "SOUND", "FBURL", "CALADRURI", "CALURI"];
            let i = s.below(9) as usize;
            made(names[i], Val::Uri(u), None, |c| {
                [
                    &mut c.source,
                    &mut c.url,
                    &mut c.logo,
                    &mut c.impp,
                    &mut c.geo,
                    &mut c.sound,
                    &mut c.fburl,
                    &mut c.cal_adr_uri,
                    &mut c.cal_uri,
                ][i]
                    .push(p)
            })
        }
        5 => {
            let t = if s.chance(1, 2) { uri_text(s) } else { text(s, VALUE_TEXT) };
            cx.label("text to URI");
            cx.input(&t);
            match (UriProperty::try_from(&t[..]), t.parse::<vcard4::Uri>()) {
                (Ok(p), Ok(u)) => {
                    ensure!(p.value == u && p.group.is_none() && p.parameters.is_none(), "{t:?} becomes {p:?}");
                    Ok(())
                }
                (Err(_), Err(_)) => Ok(()),
                (a, b) => fail!("{t:?} as property {a:?}, as URI {b:?}"),
            }
        }
        6 => {
            let u = uri_text(s);
            cx.label("URI in place of text");
            cx.input(&u);
            let p = TextOrUriProperty::from(uri(&u));
            let i = s.below(6);
            if i == 5 {
                return made("TZ", Val::Uri(u.clone()), Some("uri"), |c| c.timezone.push(uri(&u).into()));
            }
            made(["TEL", "PHOTO", "RELATED", "KEY", "UID"][i as usize], Val::Uri(u), None, |c| match i {
                0 => c.tel.push(p),
                1 => c.photo.push(p),
                2 => c.related.push(p),
                3 => c.key.push(p),
                _ => c.uid = Some(p),
            })
        }
        7 => {
            let o = goff(s);
            cx.label("UTC offset");
            cx.input(&format!("offset {o}"));
            let p = UtcOffsetProperty::from(offset(o));
            ensure!(p.value == offset(o) && p.group.is_none() && p.parameters.is_none(), "{o} becomes {p:?}");
            made("TZ", Val::Offset(o), Some("utc-offset"), |c| c.timezone.push(offset(o).into()))
        }
        8 => {
            let d = gdot(s);
            cx.label("date and or time");
            cx.input(&format!("{d:?}"));
            let (v, p): (DateAndOrTime, DateAndOrTimeProperty) = match d {
                DoT::D(d) => (vcard4::Date::from(date(d)).into(), vcard4::Date::from(date(d)).into()),
                DoT::T(t) => (time(t).into(), time(t).into()),
                DoT::DT(d) => (datetime(d).into(), datetime(d).into()),
            };
            ensure!(l_dot(&v) == d, "{d:?} becomes {v:?}");
            ensure!(p.value == [v] && p.group.is_none() && p.parameters.is_none(), "{d:?} becomes {p:?}");
            let q: DateTimeOrTextProperty = match d {
                DoT::D(d) => vcard4::Date::from(date(d)).into(),
                DoT::T(t) => time(t).into(),
                DoT::DT(d) => datetime(d).into(),
            };
            if s.chance(1, 2) {
                made("BDAY", Val::DoT(vec![d]), None, |c| c.bday = Some(q))
            } else {
                made("ANNIVERSARY", Val::DoT(vec![d]), None, |c| c.anniversary = Some(q))
            }
        }
        9 => {
            let mut d = gdt(s);
            cx.label("timestamp");
            cx.input(&format!("{d:?}"));
            made("REV", Val::Stamp(d), None, |c| c.rev = Some(datetime(d).into()))?;
            d.t.ns = s.below(1_000_000_000) as u32;
            let there = vcard4::DateTime::from(odt(d));
            ensure!(l_odt(there.as_ref()) == d, "{d:?} becomes {there:?}");
            let back: time::OffsetDateTime = there.into();
            ensure!(l_odt(&back) == d, "{d:?} comes back as {back:?}");
            let there = vcard4::Date::from(date(d.d));
            ensure!(l_date(there.as_ref()) == d.d, "{d:?} becomes {there:?}");
            let back: time::Date = there.into();
            ensure!(l_date(&back) == d.d, "{d:?} comes back as {back:?}");
            Ok(())
        }
        10 => {
            let k = *s.pick::<&'static str>(&KINDS);
            cx.label("KIND");
            cx.input(k);
            made("KIND", Val::Kind(k), None, |c| c.kind = Some(kind(k).into()))
        }
        11 => {
            let x = *s.pick::<&'static str>(&SEXES);
            let i = if s.chance(2, 3) { Some(text(s, VALUE_TEXT)) } else { None };
            cx.label("GENDER");
            cx.input(&format!("{x};{i:?}"));
            let g = Gender { sex: sex(x), identity: i.clone() };
            made("GENDER", Val::Gender(x, i), None, |c| c.gender = Some(g.into()))
        }
        12 => {
            let mut params = Params::default();
            let Val::Adr(a) = gval(s, "ADR", &mut params, VALUE_TEXT) else { unreachable!() };
            cx.label("ADR");
            cx.input(&format!("{a:?}"));
            let v = address(&a);
            made("ADR", Val::Adr(a), None, |c| c.address.push(v.into()))
        }
        13 => {
            let l = lang_any(s, VALUE_TEXT);
            cx.label("LANG");
            cx.input(&l);
            #[cfg(feature = "lang")]
            let p = LanguageProperty { value: l.parse().expect("language tag"), group: None, parameters: None };
            #[cfg(not(feature = "lang"))]
            let p = LanguageProperty::from(l.clone());
            made("LANG", Val::Lang(l), None, |c| c.lang.push(p))
        }
        14 => {
            let n = 1 + s.below(6);
            let v: Vec<String> = (0..n).map(|_| text(s, VALUE_TEXT)).collect();
            cx.label("text list");
            cx.input(&format!("{v:?}"));
            let name = *s.pick::<&str>(&["N", "ORG", "CATEGORIES"]);
            match name {
                "N" => made(name, Val::Semi(v.clone()), None, |c| c.name = Some(TextListProperty::new_semi_colon(v))),
                "ORG" => made(name, Val::Semi(v.clone()), None, |c| c.org.push(TextListProperty::new_semi_colon(v))),
                _ => made(name, Val::Comma(v.clone()), None, |c| c.categories.push(TextListProperty::new_comma(v))),
            }
        }
        15 => {
            let n = |s: &mut Src| if s.chance(1, 4) { s.u64() } else { s.below(200) };
            let (a, b) = (n(s), if s.chance(1, 2) { Some(n(s)) } else { None });
            cx.label("PID");
            cx.input(&format!("{a} {b:?}"));
            let p = Pid::new(a, b);
            ensure!(p.local == a && p.source == b, "{a} and {b:?} become {p:?}");
            // The current time, in UTC
            let before = time::OffsetDateTime::now_utc();
            let now = vcard4::DateTime::now_utc();
            let after = time::OffsetDateTime::now_utc();
            let t: &time::OffsetDateTime = now.as_ref();
            ensure!(t.offset().is_utc(), "now_utc is {now}");
            if before <= after {
                ensure!(before <= *t && *t <= after, "now_utc is {now} between {before} and {after}");
            }
            Ok(())
        }
        16 => {
            // Also what cannot be told in a card
            let mut t = text(s, ANY_TEXT);
            if s.chance(1, 3) {
                let at = (0..=t.len()).filter(|i| t.is_char_boundary(*i)).collect::<Vec<_>>();
                let x = *s.pick::<&str>(&["\r\n", "\r", "\u{0}", "\u{7f}", "\u{2028}", "\u{feff}", "\t", " ", "\\n", "\u{85}"]);
                t.insert_str(*s.pick(&at), x);
            }
            cx.label("any string");
            cx.input(&format!("{t:?}"));
            let p = TextProperty::from(t.clone());
            ensure!(p.value == t && p.group.is_none() && p.parameters.is_none(), "text {t:?} becomes {p:?}");
            let p = TextOrUriProperty::from(t.clone());
            ensure!(matches!(&p, TextOrUriProperty::Text(p) if p.value == t), "text or URI {t:?} becomes {p:?}");
            let p = DateTimeOrTextProperty::from(t.clone());
            ensure!(matches!(&p, DateTimeOrTextProperty::Text(p) if p.value == t), "date or text {t:?} becomes {p:?}");
            let p = TimeZoneProperty::from(t.clone());
            ensure!(matches!(&p, TimeZoneProperty::Text(p) if p.value == t), "time zone {t:?} becomes {p:?}");
            let c = Vcard::new(t.clone());
            ensure!(logical(&c) == [fn_prop(&t)], "Vcard::new({t:?}) is {:?}", logical(&c));
            let c = vcard4::VcardBuilder::new(t.clone()).finish();
            ensure!(logical(&c) == [fn_prop(&t)], "VcardBuilder::new({t:?}) is {:?}", logical(&c));
            #[cfg(not(feature = "lang"))]
            {
                let p = LanguageProperty::from(t.clone());
                ensure!(p.value == t && p.group.is_none() && p.parameters.is_none(), "language {t:?} becomes {p:?}");
            }
            let v = vec![t.clone(), String::new(), t];
            for p in [TextListProperty::new_semi_colon(v.clone()), TextListProperty::new_comma(v.clone())] {
                ensure!(p.value == v && p.group.is_none() && p.parameters.is_none(), "list {v:?} becomes {p:?}");
            }
            Ok(())
        }
        _ => {
            let card = gcard(s);
            let c = build(&card);
            let out = c.to_string();
            cx.label("accessors");
            cx.input(&out);
            let lines = match reader::lines(&out) {
                Ok(l) => l,
                Err(e) => fail!("{out:?}: {e}"),
            };
            let all = each(&c);
            ensure!(all.len() == card.len(), "harness: {} properties of {}", all.len(), card.len());
            for (p, m) in all.into_iter().zip(&card) {
                accessors(p, m, &lines)?;
            }
            Ok(())
        }
    }
}

pub const SPEC: Spec = Spec {
    id: "C30",
    check,
    quick: 400_000,
    thorough: 10_000_000,
    rule: "generated values given to each public conversion and constructor, compared with the model of what was given, \
           put in a card, printed and parsed; cards of all properties read through the Property trait; every case is \
           non-trivial",
    must_see: &[
        "text", "text or URI", "time zone text", "date as text", "URI", "text to URI", "URI in place of text",
        "UTC offset", "date and or time", "timestamp", "KIND", "GENDER", "ADR", "LANG", "text list", "PID", "any string", "accessors",
    ],
    serial: false,
};
