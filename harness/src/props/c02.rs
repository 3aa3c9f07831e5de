//! Raw component texts split by an independent splitter.
use super::*;
use crate::reader;
use vcard4::property::DeliveryAddress;

/// A raw text, its tokens given with what they mean.
fn raw(s: &mut Src, delim: char, n: usize, cx: &mut Ctx) -> (String, Vec<String>) {
    let mut r = String::new();
    let mut items = Vec::new();
    for i in 0..n {
        if i > 0 {
            r.push(delim);
        }
        let mut item = String::new();
        let k = s.below(6);
        for _ in 0..k {
            let other = if delim == ';' { ',' } else { ';' };
            match s.weighted(&[4, 3, 2, 2, 2, 2, 1]) {
                0 => {
                    let w = *s.pick::<&str>(&["a", "n", "N", "é", "x y", "日", ".", ":", "=", "\"", " ", "\t"]);
                    r.push_str(w);
                    item.push_str(w);
                }
                1 => {
                    cx.label("escaped delimiter");
                    r.push('\\');
                    r.push(delim);
                    item.push(delim);
                }
                2 => {
                    cx.label("escaped backslash");
                    r.push_str("\\\\");
                    item.push('\\');
                }
                3 => {
                    r.push('\\');
                    r.push(other);
                    item.push(other);
                }
                4 => {
                    r.push(other);
                    item.push(other);
                }
                5 => {
                    r.push_str(s.pick::<&str>(&["\\n", "\\N"]));
                    item.push('\n');
                }
                _ => {
                    cx.label("backslash before delimiter");
                    r.push_str("\\\\\\");
                    r.push(delim);
                    item.push('\\');
                    item.push(delim);
                }
            }
        }
        cx.label_if(item.is_empty(), "empty component");
        cx.label_if(r.ends_with("\\\\") && i + 1 < n, "backslash at the end of a component");
        items.push(item);
    }
    (r, items)
}

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    let name = *s.pick::<&str>(&["N", "ORG", "CATEGORIES", "ADR", "GENDER", "CLIENTPIDMAP", "LIST"]);
    let delim = if name == "CATEGORIES" || name == "LIST" { ',' } else { ';' };
    let mut line = None;
    let (raw, val) = match name {
        "ADR" => {
            let (r, v) = raw(s, ';', 7, cx);
            let a: DeliveryAddress = match r.parse() {
                Ok(a) => a,
                Err(e) => fail!("DeliveryAddress::from_str({r:?}): {e}"),
            };
            let mut it = v.into_iter().map(|t| if t.is_empty() { None } else { Some(t) });
            let want: [Option<String>; 7] = std::array::from_fn(|_| it.next().unwrap());
            ensure!(l_address(&a) == want, "DeliveryAddress::from_str({r:?}): {a:?}");
            (r, Val::Adr(want))
        }
        "GENDER" => {
            // Only the first semicolon splits
            let n = 1 + s.below(3) as usize;
            let (r, v) = raw(s, ';', n, cx);
            let sex = *s.pick::<&'static str>(&SEXES);
            (format!("{sex};{r}"), Val::Gender(sex, Some(v.join(";"))))
        }
        "CLIENTPIDMAP" => {
            let u = format!("urn:a;{};b,c", s.below(10));
            (format!("7;{u}"), Val::PidMap(7, u))
        }
        "LIST" => {
            // Lists of typed extensions
            let kind = *s.pick::<&'static str>(&[
                "integer",
                "float",
                "date",
                "time",
                "date-time",
                "date-and-or-time",
                "timestamp",
            ]);
            let mut p = prop("X-LIST", typed(s, kind, VALUE_TEXT));
            p.params.value = Some(kind);
            let l = render_prop(s, &p, Style { dates: true, ..PLAIN });
            let r = l.split_once(':').unwrap().1.to_string();
            line = Some(l);
            cx.label_if(r.contains(','), "typed list");
            (r, p.val)
        }
        _ => {
            let n = 1 + s.below(7) as usize;
            let (r, v) = raw(s, delim, n, cx);
            (r, if delim == ';' { Val::Semi(v) } else { Val::Comma(v) })
        }
    };
    let line = line.unwrap_or_else(|| format!("{name}:{raw}"));
    let text = wrap(&["FN:x".into(), line]);
    cx.input(&text);
    cx.nontrivial = raw.contains(['\\', ',', ';']);
    let mut want = prop(if name == "LIST" { "X-LIST" } else { name }, val);
    let got = match vcard4::parse(&text) {
        Ok(c) => c,
        Err(e) => fail!("error {e}"),
    };
    let l = logical(&got[0]);
    let p = l.iter().find(|p| p.name != "FN");
    ensure!(l.len() == 2 && p.unwrap().val == want.val, "{raw:?}: got {p:?}, expected {:?}", want.val);
    want.params = p.unwrap().params.clone();
    // And printing keeps them
    let out = got[0].to_string();
    match reader::read_card(&out) {
        Ok(c) => {
            let mut w = vec![fn_prop("x"), want.clone()];
            canonical(&mut w);
            if let Some(d) = diff(&c, &w) {
                fail!("printed as {out:?}, read as: {d}");
            }
        }
        Err(e) => fail!("printed as {out:?}: {e}"),
    }
    expect_cards(strict(&out), &[l], "printed and parsed again")
}

pub const SPEC: Spec = Spec {
    id: "C02",
    check,
    quick: 120_000,
    thorough: 6_000_000,
    rule: "raw values of N, ORG, ADR, CATEGORIES, GENDER, CLIENTPIDMAP and typed lists made of words, delimiters, \
           escaped delimiters, escaped backslashes and line breaks, split by the generator itself; non-trivial: the \
           value has a delimiter or an escape",
    must_see: &[
        "escaped delimiter",
        "escaped backslash",
        "backslash before delimiter",
        "backslash at the end of a component",
        "empty component",
        "typed list",
    ],
    serial: false,
};
