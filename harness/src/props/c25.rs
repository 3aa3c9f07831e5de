//! Embedded photos.
use super::*;

fn base64(b: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut r = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                r.push(A[(n >> (18 - 6 * i) & 63) as usize] as char);
            } else {
                r.push('=');
            }
        }
    }
    r
}

fn bytes(s: &mut Src) -> Vec<u8> {
    let n = match s.below(5) {
        0 => s.below(4),
        1 => 2000 + s.below(3000),
        _ => s.below(120),
    };
    let mode = s.below(4);
    // Few choices for long ones
    let mut x = s.u64();
    (0..n)
        .map(|i| {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            match mode {
                0 => 0,
                1 => 0xff,
                2 => i as u8,
                _ => (x >> 33) as u8,
            }
        })
        .collect()
}

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    let n = s.below(6);
    let mut card = vec![fn_prop("x")];
    let mut want = Vec::new();
    let mut broken = false;
    for _ in 0..n {
        let mut p = prop("PHOTO", Val::Text(String::new()));
        let b = bytes(s);
        let mut t = base64(&b);
        let jpeg = recase(s, "JPEG", true);
        let enc = recase(s, "ENCODING", true);
        p.params.types = Some(vec![format!("X-{jpeg}")]);
        p.params.ext = vec![(enc.clone(), vec!["b".into()])];
        let mut photo = true;
        match s.below(14) {
            0 => {
                cx.label("another type");
                p.params.types = Some(vec![s.pick::<&str>(&["X-PNG", "home", "X-JPG", "X-image/jpeg", "X-JPEGS", "X-"]).to_string()]);
                photo = false;
            }
            1 => {
                cx.label("JPEG not first");
                p.params.types = Some(vec!["X-PNG".into(), "X-JPEG".into()]);
                photo = false;
            }
            2 => {
                cx.label("another encoding");
                p.params.ext = vec![(enc.clone(), vec![s.pick::<&str>(&["q", "BASE64", "x", "", "bb"]).to_string()])];
                photo = false;
            }
            3 => {
                cx.label("no encoding");
                p.params.ext = vec![];
                photo = false;
            }
            4 => {
                cx.label("another parameter first");
                p.params.ext.insert(0, ("X-ENCODING".into(), vec!["b".into()]));
                photo = false;
            }
            5 => {
                cx.label("URI");
                p.val = Val::Uri(format!("data:image/jpeg;base64,{t}"));
                photo = false;
            }
            6 => {
                cx.label("no type");
                p.params.types = None;
                photo = false;
            }
            7 if s.chance(1, 2) => {
                cx.label("invalid base64");
                match s.below(4) {
                    0 => t.push('='),
                    1 => t.push('!'),
                    2 => t = format!("A{}", &base64(&b[..b.len() / 3 * 3])),
                    _ => t.insert(t.len() / 2, ' '),
                }
                broken = true;
                photo = false;
            }
            8 => p.params.types.as_mut().unwrap().push("home".into()),
            9 => p.params.ext.push(("X-A".into(), vec!["x".into()])),
            10 => p.params.pref = Some(1),
            11 => p.params.value = Some("text"),
            _ => {}
        }
        if photo {
            want.push(b);
        }
        if let Val::Text(_) = p.val {
            p.val = Val::Text(t);
        }
        card.push(p);
    }
    if s.chance(1, 3) {
        // Not a photo
        let mut p = prop("NOTE", Val::Text("AAAA".into()));
        p.params.types = Some(vec!["X-JPEG".into()]);
        p.params.ext = vec![("ENCODING".into(), vec!["b".into()])];
        card.push(p);
    }
    canonical(&mut card);
    cx.nontrivial = n > 0;
    cx.label_if(want.len() > 1, "several photos");
    let parsed = s.chance(2, 3);
    let c = if parsed {
        cx.label("parsed");
        let st = Style { folds: s.chance(2, 3), order: s.chance(1, 2), endings: s.chance(1, 2), case: false, ..PLAIN };
        let mut t = render(s, &[card.clone()], st);
        // The prefix of extension types is optional
        if s.chance(1, 2) {
            for j in ["JPEG", "PNG", "jpeg", "Jpeg"] {
                t = t.replace(&format!("TYPE=X-{j}"), &format!("TYPE={j}"));
            }
        }
        cx.input(&t);
        match vcard4::parse(&t) {
            Ok(mut v) => v.remove(0),
            Err(e) => fail!("{t:?}: {e}"),
        }
    } else {
        cx.input(&format!("{card:?}"));
        build(&card)
    };
    for what in ["", "printed and parsed: "] {
        let c = if what.is_empty() {
            c.clone()
        } else {
            match Vcard::try_from(&c.to_string()[..]) {
                Ok(c) => c,
                Err(e) => fail!("{what}{e}"),
            }
        };
        match c.parse_photo_jpeg() {
            Ok(v) => {
                ensure!(!broken, "{what}invalid base64 is accepted: {v:?}");
                ensure!(v.len() == want.len(), "{what}{} photos, expected {}", v.len(), want.len());
                ensure!(v == want, "{what}photos {v:?}, expected {want:?}");
            }
            Err(e) => ensure!(broken, "{what}error {e}"),
        }
    }
    Ok(())
}

pub const SPEC: Spec = Spec {
    id: "C25",
    check,
    quick: 30_000,
    thorough: 1_500_000,
    rule: "cards with up to five photos of any bytes in base64 (of an encoder of its own), some not JPEG, not encoded, \
           URIs, with other parameters first or invalid base64; built or parsed, folded or not, and printed and parsed \
           again; non-trivial: has a photo",
    must_see: &[
        "parsed", "several photos", "another type", "JPEG not first", "another encoding", "no encoding",
        "another parameter first", "URI", "no type", "invalid base64",
    ],
    serial: false,
};
