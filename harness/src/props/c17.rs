//! Legal and illegal parameters.
use super::*;

fn digits(s: &mut Src) -> String {
    let n = 1 + s.below(4);
    (0..n).map(|_| char::from(b'0' + s.below(10) as u8)).collect()
}

/// A parameter, illegal on a property it comes with, and the same in legal form.
fn case(s: &mut Src, name: &str) -> (String, String, &'static str) {
    match s.below(9) {
        0 => {
            let n = match s.below(3) {
                0 => s.range(101, 300),
                1 => 0,
                _ => s.range(1000, 1000000),
            };
            let bad = match s.below(6) {
                0 | 1 => n.to_string(),
                2 => format!("-{}", s.range(1, 100)),
                3 => format!("{}{}", s.range(1, 100), s.pick::<&str>(&["x", " ", ".", ".5", ",2", "-", "e1"])),
                4 => s.pick::<&str>(&["", "x", "one", "1 ", " 1", "\"\"", "0x1", "256", "257", "356", "4294967297"]).to_string(),
                _ => format!("{}", 256 + s.range(1, 100)),
            };
            (format!("PREF={bad}"), format!("PREF={}", s.range(1, 100)), "PREF")
        }
        1 => {
            let (a, b) = (digits(s), digits(s));
            let bad = match s.below(6) {
                0 => format!("{a}."),
                1 => format!(".{b}"),
                2 => format!("{a}.{b}.1"),
                3 => format!("{a}{}{b}", s.pick::<&str>(&["-", "x", "..", "/", " "])),
                4 => format!("{a},{}", s.pick::<&str>(&["", "x", "1.", ".1", "-1"])),
                _ => s.pick::<&str>(&["", "x", "-1", "1.x", "1.-1", "99999999999999999999", "1.99999999999999999999"]).to_string(),
            };
            let good = if s.chance(1, 2) { a } else { format!("{a}.{b},{b}") };
            if name == "CLIENTPIDMAP" { (format!("PID={good}"), "PREF=1".into(), "PID on CLIENTPIDMAP") } else { (format!("PID={bad}"), format!("PID={good}"), "PID") }
        }
        2 => {
            let t = s.pick::<&str>(&["home", "work", "x-foo", "foo", "\"home,work\"", "cell,voice", "friend"]);
            if TYPED.contains(&name) || name.to_uppercase().starts_with("X-") {
                // Nothing illegal: another one
                ("TYPES=home".into(), format!("TYPE={t}"), "TYPE legal")
            } else {
                (format!("TYPE={t}"), "PREF=1".into(), "TYPE not allowed")
            }
        }
        3 => {
            let t = s.pick::<&str>(&["x", "\"a;b:c\"", "a\\nb", ""]);
            if name == "ADR" {
                ("LABELS=x".into(), format!("LABEL={t}"), "LABEL legal")
            } else {
                (format!("LABEL={t}"), "ALTID=x".into(), "LABEL not allowed")
            }
        }
        4 => {
            let u = uri_text(s);
            let bad = match s.below(4) {
                0 => u.clone().replace([':', ';'], "."),
                1 => s.pick::<&str>(&["", "\"\"", "\"nowhere\"", "geo", "1,2", "\"1.2;3.4\"", "\"a b:c\""]).to_string(),
                // A legal URI that is not quoted and has nothing special
                2 => "geo.1".into(),
                _ => format!("\" {u}\""),
            };
            (format!("GEO={bad}"), format!("GEO=\"{u}\""), "GEO")
        }
        5 => {
            let u = uri_text(s);
            let bad = s.pick::<&str>(&["\"\"", "\"nowhere\"", "\"America/New York\"", "\"+01\"", "\"a b:c\""]);
            let good = match s.below(3) {
                0 => format!("\"{u}\""),
                1 => s.pick::<&str>(&["+0100", "-0030", "Z", "+05"]).to_string(),
                _ => s.pick::<&str>(&["Raleigh/North America", "CET", "a,b"]).to_string(),
            };
            (format!("TZ={bad}"), format!("TZ={good}"), "TZ")
        }
        6 => {
            let bad = s.pick::<&str>(&["latin1", "UTF-16", "ISO-8859-1", "", "UTF8", "US-ASCII", "UTF-8X", "\"UTF-7\""]);
            (format!("CHARSET={bad}"), "CHARSET=UTF-8".into(), "CHARSET")
        }
        7 => {
            let good = *s.pick::<&str>(&VALUE_TYPES);
            let bad = match s.below(3) {
                0 => s.pick::<&str>(&["", "x-own", "string", "duration", "text,uri", "\"\"", "datetime", "url"]).to_string(),
                1 => format!("{good}x"),
                _ => format!("{}{}", s.pick::<&str>(&["x", "-", " ", "t"]), good),
            };
            (format!("VALUE={bad}"), "PREF=1".into(), "VALUE")
        }
        _ => {
            let k = *s.pick::<&str>(&PARAM_NAMES);
            let bad = match s.below(5) {
                0 => format!("{k}X"),
                1 => format!("X{k}"),
                2 => k[1..].to_string(),
                3 => s.pick::<&str>(&["FOO", "", "X", "XFOO", "TYPE ", " TYPE", "HOME", "SORTAS", "ALT-ID", "X_A"]).to_string(),
                _ => format!("{k}-{k}"),
            };
            (format!("{bad}=1"), "X-A=1".into(), "name")
        }
    }
}

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    let name = any_name(s);
    let mut p = gprop_named(s, &name, VALUE_TEXT, ParamOpt { rarity: 6, text: PARAM_TEXT });
    let (bad, good, what) = case(s, &name);
    cx.label(what);
    let k = |t: &str| t.split('=').next().unwrap().to_string();
    // The case has the only parameter of its name
    for t in [&bad, &good] {
        match &k(t)[..] {
            "PREF" => p.params.pref = None,
            "PID" => p.params.pid = None,
            "TYPE" => p.params.types = None,
            "LABEL" => p.params.label = None,
            "GEO" => p.params.geo = None,
            "TZ" => p.params.tz = None,
            "ALTID" => p.params.altid = None,
            "X-A" => p.params.ext.clear(),
            _ => {}
        }
    }
    if what == "VALUE" {
        if p.params.value.is_some() {
            // The value may need it
            return Ok(());
        }
    }
    let st = Style { case: s.chance(1, 2), folds: s.chance(1, 4), ..PLAIN };
    let pos = s.u64();
    let put = |s: &mut Src, t: &str| {
        let mut v = render_params(s, &p.params, PLAIN);
        let at = pos as usize % (v.len() + 1);
        let (key, val) = t.split_once('=').unwrap();
        v.insert(at, format!("{}={val}", if key.starts_with("X-") { key.to_string() } else { recase(s, key, st.case) }));
        let mut l = p.group.as_ref().map(|g| format!("{g}.")).unwrap_or_default();
        l.push_str(&p.name);
        for x in v {
            l.push(';');
            l.push_str(&x);
        }
        l.push(':');
        l.push_str(&render_value(s, &p, PLAIN));
        let mut lines = vec!["BEGIN:VCARD".to_string(), "VERSION:4.0".into(), "FN:x".into()];
        if p.name == "MEMBER" {
            lines.push("KIND:group".into());
        }
        lines.push(l);
        lines.push("END:VCARD".into());
        assemble(s, &lines, st)
    };
    let tg = put(s, &good);
    let tb = put(s, &bad);
    cx.input(&tb);
    cx.nontrivial = true;
    match strict(&tg) {
        Err(e) => fail!("{good} is rejected on {name}: {e} in {tg:?}"),
        Ok(c) => {
            let l = c[0].iter().filter(|q| q.name == p.name).next_back();
            ensure!(l.is_some_and(|q| q.val == p.val && q.group == p.group), "{good} changes the value of {name}: {l:?}");
        }
    }
    expect_err(&tb, &format!("{bad} on {name}"))
}

pub const SPEC: Spec = Spec {
    id: "C17",
    check,
    quick: 600_000,
    thorough: 8_000_000,
    rule: "a property of any kind with other parameters, and one parameter in illegal form (PREF, PID, GEO, TZ, CHARSET, \
           VALUE, names) or on a property that may not have it (TYPE, LABEL, PID), at any place, in any letter case, \
           folded or not: rejected; the same with a legal one instead: accepted with its value; every case is \
           non-trivial",
    must_see: &[
        "PREF", "PID", "PID on CLIENTPIDMAP", "TYPE legal", "TYPE not allowed", "LABEL legal", "LABEL not allowed",
        "GEO", "TZ", "CHARSET", "VALUE", "name",
    ],
    serial: false,
};
