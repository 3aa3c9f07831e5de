//! Any text in any place of a card prints as one well-formed line that changes no other.
use super::*;
use crate::reader;

const ORDER: [&str; 35] = [
    "SOURCE", "KIND", "XML", "FN", "N", "NICKNAME", "PHOTO", "BDAY", "ANNIVERSARY", "GENDER", "URL", "ADR", "TITLE",
    "ROLE", "LOGO", "ORG", "MEMBER", "RELATED", "TEL", "EMAIL", "IMPP", "LANG", "TZ", "GEO", "CATEGORIES", "NOTE",
    "PRODID", "REV", "SOUND", "UID", "CLIENTPIDMAP", "KEY", "FBURL", "CALADRURI", "CALURI",
];

fn evil(s: &mut Src) -> String {
    match s.below(4) {
        0 | 1 => text(s, ANY_TEXT),
        _ => {
            let n = 1 + s.below(5);
            (0..n)
                .map(|_| {
                    *s.pick::<&str>(&[
                        "\r\n", "\n", "\r", "\r\n ", "\n ", "END:VCARD\r\n", "BEGIN:VCARD\r\n", "NOTE:evil", ":", ";",
                        ",", "\"", "\\", "\\n", "\":", "\";", ";TYPE=work", ";X-A=b:", "x", "=", "\t", " ", "\",\"",
                    ])
                })
                .collect()
        }
    }
}

fn line_names(l: &[String]) -> Result<Vec<(Option<String>, String)>, String> {
    l.iter().map(|l| reader::split_line(l).map(|l| (l.group, l.name)).map_err(|e| format!("{e} in {l:?}"))).collect()
}

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    let quotes = s.chance(1, 2);
    let po = ParamOpt { rarity: 6, text: if quotes { ANY_TEXT } else { PARAM_TEXT } };
    let mut card = gcard_with(s, ANY_TEXT, po);
    // Something to change
    let i = s.below(card.len() as u64) as usize;
    let count = slots(&mut card[i]).len();
    let mut other = card.clone();
    let mut kind = "";
    if count > 0 {
        let k = s.below(count as u64) as usize;
        let e = evil(s);
        let (what, slot) = slots(&mut card[i]).swap_remove(k);
        kind = what;
        let is_type = what == "TYPE";
        *slot = if is_type { format!("X-{e}") } else { e };
        *slots(&mut other[i]).swap_remove(k).1 = if is_type { "X-b".into() } else { "benign".into() };
        cx.label(what);
    }
    let out = build(&card).to_string();
    cx.input(&out);
    cx.nontrivial = kind != "";
    let lines = match reader::lines(&out) {
        Ok(l) => l,
        Err(e) => fail!("physical form of {out:?}: {e}"),
    };
    cx.label_if(out.contains("\r\n "), "folded");
    ensure!(lines.len() == card.len() + 3, "{} lines for {} properties: {out:?}", lines.len(), card.len());
    ensure!(
        lines[0] == "BEGIN:VCARD" && lines[1] == "VERSION:4.0" && lines[lines.len() - 1] == "END:VCARD",
        "structure: {out:?}"
    );
    let body = &lines[2..lines.len() - 1];
    // The same properties, those of a kind in order
    let mut names = match line_names(body) {
        Ok(n) => n,
        Err(e) => fail!("line: {e}"),
    };
    let at = |n: &str| ORDER.iter().position(|x| *x == n).unwrap_or(ORDER.len());
    names.sort_by_key(|(_, n)| at(n));
    let mut want: Vec<_> = card.iter().map(|p| (p.group.clone(), p.name.clone())).collect();
    want.sort_by_key(|(_, n)| at(n));
    ensure!(names == want, "properties {names:?}, expected {want:?} in {out:?}");
    // The text parses, to the same properties. Quoted, the TZ parameter is a URI.
    let tz = |p: &Prop| matches!(&p.params.tz, Some(Tz::Text(t)) if t.contains(':') || t.starts_with('"'));
    match strict(&out) {
        _ if card.iter().any(tz) => {}
        Ok(c) => {
            ensure!(c.len() == 1, "{} cards from {out:?}", c.len());
            let got: Vec<_> = c[0].iter().map(|p| (p.group.clone(), p.name.clone())).collect();
            ensure!(got == want, "parsed as {got:?}, expected {want:?} from {out:?}");
        }
        Err(e) => fail!("printed {out:?} does not parse: {e}"),
    }
    if kind.is_empty() {
        return Ok(());
    }
    // All other lines are the same with a benign text
    let benign = build(&other).to_string();
    let blines = match reader::lines(&benign) {
        Ok(l) => l,
        Err(e) => fail!("physical form of {benign:?}: {e}"),
    };
    ensure!(blines.len() == lines.len(), "{kind} adds lines: {out:?}");
    let differ: Vec<usize> = (0..lines.len()).filter(|i| lines[*i] != blines[*i]).collect();
    ensure!(differ.len() <= 1, "{kind} changes {} lines of {out:?}", differ.len());
    let Some(d) = differ.first() else { return Ok(()) };
    let (a, b) = match (reader::split_line(&lines[*d]), reader::split_line(&blines[*d])) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) | (_, Err(e)) => fail!("line {:?}: {e}", lines[*d]),
    };
    ensure!((&a.group, &a.name) == (&b.group, &b.name), "{kind} changes the name: {:?}", lines[*d]);
    let keys = |l: &reader::Line| l.params.iter().map(|p| p.0.clone()).collect::<Vec<_>>();
    ensure!(keys(&a) == keys(&b), "{kind} changes the parameters: {:?}", lines[*d]);
    let in_value = ["text", "component", "list item", "address", "identity", "language"].contains(&kind);
    let changed = (0..a.params.len()).filter(|i| a.params[*i] != b.params[*i]).count();
    if in_value {
        ensure!(changed == 0, "{kind} changes a parameter: {:?}", lines[*d]);
        let delim = match card[i].val {
            Val::Semi(_) | Val::Adr(_) => ';',
            Val::Comma(_) => ',',
            _ => '\0',
        };
        if delim != '\0' {
            let (x, y) = (reader::split_raw(&a.value, delim), reader::split_raw(&b.value, delim));
            ensure!(x.len() == y.len(), "{kind} changes the number of components: {:?}", lines[*d]);
            let n = x.iter().zip(&y).filter(|(x, y)| x != y).count();
            ensure!(n <= 1, "{kind} changes other components: {:?}", lines[*d]);
        }
    } else {
        ensure!(a.value == b.value, "{kind} changes the value: {:?}", lines[*d]);
        ensure!(changed <= 1, "{kind} changes other parameters: {:?}", lines[*d]);
        if let Some(k) = (0..a.params.len()).find(|i| a.params[*i] != b.params[*i]) {
            let (x, y) = (reader::split_raw(&a.params[k].1, ','), reader::split_raw(&b.params[k].1, ','));
            if ["SORT-AS", "TYPE", "X-"].contains(&kind) {
                ensure!(x.len() == y.len(), "{kind} changes the number of items: {:?}", lines[*d]);
            }
        }
    }
    Ok(())
}

pub const SPEC: Spec = Spec {
    id: "C08",
    check,
    quick: 60_000,
    thorough: 3_000_000,
    rule: "built cards of any text, one text (value, component, list item or parameter) replaced by a hostile one with \
           line breaks, carriage returns, quotes, delimiters and look-alike lines; the printed lines are compared with \
           those of the same card with a benign text there; non-trivial: a text was replaced",
    must_see: &[
        "text", "component", "list item", "address", "identity", "ALTID", "TYPE", "CALSCALE", "SORT-AS", "TZ", "LABEL",
        "X-", "folded",
    ],
    serial: false,
};
