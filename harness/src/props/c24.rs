//! Builder calls against a model of them.
use super::*;
use vcard4::{VcardBuilder, property::DeliveryAddress};

fn set(card: &mut Card, name: &str, val: Val) {
    card.retain(|p| p.name != name);
    card.push(prop(name, val));
}

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    let first = text(s, VALUE_TEXT);
    let mut b = VcardBuilder::new(first.clone());
    let mut card: Card = vec![fn_prop(&first)];
    let mut log = format!("new({first:?})");
    let n = s.below(20);
    let mut singles = 0;
    for _ in 0..n {
        let t = text(s, VALUE_TEXT);
        let u = uri_text(s);
        let k = s.below(36);
        let mut add = |name: &str, v: Val| card.push(prop(name, v));
        macro_rules! uris {
            ($f:ident, $name:expr) => {{
                add($name, Val::Uri(u.clone()));
                b.$f(uri(&u))
            }};
        }
        macro_rules! texts {
            ($f:ident, $name:expr) => {{
                add($name, Val::Text(t.clone()));
                b.$f(t.clone())
            }};
        }
        log.push_str(&format!(" {k}({t:?}, {u})"));
        b = match k {
            0 => uris!(source, "SOURCE"),
            1 => texts!(xml, "XML"),
            2 => texts!(formatted_name, "FN"),
            3 => texts!(nickname, "NICKNAME"),
            4 => uris!(photo, "PHOTO"),
            5 => {
                // Not a URI
                let t = t.replace(':', ";");
                add("TEL", Val::Text(t.clone()));
                b.telephone(t)
            }
            6 => texts!(email, "EMAIL"),
            7 => uris!(impp, "IMPP"),
            8 => {
                let l = lang_any(s, VALUE_TEXT);
                add("LANG", Val::Lang(l.clone()));
                b.lang(l.parse().expect("language"))
            }
            9 => texts!(timezone, "TZ"),
            10 => uris!(geo, "GEO"),
            11 => texts!(title, "TITLE"),
            12 => texts!(role, "ROLE"),
            13 => uris!(logo, "LOGO"),
            14 => {
                let v = list(s, 5, |s| text(s, VALUE_TEXT));
                add("ORG", Val::Semi(v.clone()));
                b.org(v)
            }
            15 => uris!(member, "MEMBER"),
            16 => uris!(related, "RELATED"),
            17 => {
                let v = list(s, 5, |s| text(s, VALUE_TEXT));
                add("CATEGORIES", Val::Comma(v.clone()));
                b.categories(v)
            }
            18 => texts!(note, "NOTE"),
            19 => uris!(sound, "SOUND"),
            20 => uris!(url, "URL"),
            21 => uris!(key, "KEY"),
            22 => uris!(fburl, "FBURL"),
            23 => uris!(cal_adr_uri, "CALADRURI"),
            24 => uris!(cal_uri, "CALURI"),
            25 => {
                let a: [Option<String>; 7] =
                    std::array::from_fn(|_| if s.chance(1, 2) { Some(text(s, VALUE_TEXT)).filter(|t| !t.is_empty()) } else { None });
                add("ADR", Val::Adr(a.clone()));
                let [po_box, extended_address, street_address, locality, region, postal_code, country_name] = a;
                b.address(DeliveryAddress {
                    po_box,
                    extended_address,
                    street_address,
                    locality,
                    region,
                    postal_code,
                    country_name,
                })
            }
            _ => {
                singles += 1;
                match k {
                    26 | 27 => {
                        let k = *s.pick::<&'static str>(&KINDS);
                        set(&mut card, "KIND", Val::Kind(k));
                        b.kind(kind(k))
                    }
                    28 => {
                        let v: [String; 5] = std::array::from_fn(|_| text(s, VALUE_TEXT));
                        set(&mut card, "N", Val::Semi(v.to_vec()));
                        b.name(v)
                    }
                    29 => {
                        let d = gdate(s);
                        set(&mut card, "BDAY", Val::DoT(vec![DoT::D(d)]));
                        b.birthday(date(d).into())
                    }
                    30 => {
                        let d = gdate(s);
                        set(&mut card, "ANNIVERSARY", Val::DoT(vec![DoT::D(d)]));
                        b.anniversary(date(d).into())
                    }
                    31 => {
                        let x = *s.pick::<&'static str>(&SEXES);
                        let i = if s.chance(1, 2) { Some(t.clone()) } else { None };
                        set(&mut card, "GENDER", Val::Gender(x, i.clone()));
                        b.gender(&match i {
                            Some(i) => format!("{x};{i}"),
                            None => x.to_string(),
                        })
                    }
                    32 => {
                        cx.label("no gender");
                        b.gender(s.pick::<&str>(&["X", "male", "MF", " ", "M ", "x;y", "1", "é;é"]))
                    }
                    33 => {
                        set(&mut card, "PRODID", Val::Text(t.clone()));
                        b.prod_id(t)
                    }
                    34 => {
                        let d = gdt(s);
                        set(&mut card, "REV", Val::Stamp(d));
                        b.rev(datetime(d))
                    }
                    _ => {
                        set(&mut card, "UID", Val::Uri(u.clone()));
                        b.uid(uri(&u))
                    }
                }
            }
        };
    }
    let c = b.finish();
    canonical(&mut card);
    cx.input(&log);
    cx.nontrivial = n > 1;
    cx.label_if(singles > 2, "several single-valued");
    if let Some(d) = diff(&logical(&c), &card) {
        fail!("built: {d}");
    }
    ensure!(c == build(&card), "does not compare equal to the same data");
    ensure!(c.validate().is_ok() == is_valid(&card), "validate");
    if is_valid(&card) {
        cx.label("valid");
        let out = c.to_string();
        expect_cards(strict(&out), &[card], &format!("printed as {out:?} and parsed"))?;
        ensure!(vcard4::parse(&out).is_ok_and(|v| v[0] == c), "parsed card does not compare equal");
    } else {
        cx.label("invalid");
    }
    Ok(())
}

pub const SPEC: Spec = Spec {
    id: "C24",
    check,
    quick: 80_000,
    thorough: 4_000_000,
    rule: "sequences of up to 19 builder calls with any text, URI, date or list, compared with a model of them, then \
           printed and parsed when valid; non-trivial: at least two calls",
    must_see: &["several single-valued", "valid", "invalid", "no gender"],
    serial: false,
};
