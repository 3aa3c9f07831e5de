//! JSON and back.
use super::*;

#[cfg(feature = "serde")]
fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut card = gcard(s);
    let parsed = s.chance(1, 2);
    if !parsed && s.chance(1, 4) {
        add_fractions(s, &mut card);
        cx.label("fractions of a second");
    }
    let c = if parsed {
        cx.label("parsed");
        let st = some_style(s);
        let t = render(s, &[card.clone()], st);
        match vcard4::parse(&t) {
            Ok(mut v) => v.remove(0),
            Err(e) => fail!("{t:?}: {e}"),
        }
    } else {
        cx.label("built");
        build(&card)
    };
    let json = match serde_json::to_string(&c) {
        Ok(j) => j,
        Err(e) => fail!("cannot be serialized: {e}"),
    };
    cx.input(&json);
    cx.nontrivial = rich(&card);
    for p in &card {
        cx.label_if(matches!(p.val, Val::Float(_)), "float");
        cx.label_if(matches!(p.val, Val::DoT(_)), "date and or time");
        cx.label_if(p.name == "TZ", "TZ");
        cx.label_if(p.params.tz.is_some(), "TZ parameter");
        cx.label_if(p.params.mediatype.is_some(), "MEDIATYPE");
        cx.label_if(p.params.language.is_some(), "LANGUAGE");
    }
    let same = |d: &Vcard, what: &str| -> Res {
        if let Some(d) = diff(&logical(d), &card) {
            fail!("{what}: {d}");
        }
        ensure!(*d == c, "{what}: does not compare equal");
        ensure!(d.to_string() == c.to_string(), "{what}: prints differently");
        Ok(())
    };
    match serde_json::from_str::<Vcard>(&json) {
        Ok(d) => same(&d, "from JSON text")?,
        Err(e) => fail!("JSON {json} cannot be deserialized: {e}"),
    }
    // In any layout, from any source
    let pretty = match serde_json::to_vec_pretty(&c) {
        Ok(j) => j,
        Err(e) => fail!("cannot be serialized: {e}"),
    };
    match serde_json::from_reader::<_, Vcard>(&pretty[..]) {
        Ok(d) => same(&d, "from a reader")?,
        Err(e) => fail!("JSON {json} cannot be deserialized from a reader: {e}"),
    }
    let value = match serde_json::to_value(&c) {
        Ok(v) => v,
        Err(e) => fail!("cannot be serialized to a value: {e}"),
    };
    // A field for each kind of property there is
    let keys = value.as_object().map(|o| o.len());
    let mut kinds: Vec<usize> = card.iter().map(|p| rank(&p.name)).collect();
    kinds.dedup();
    ensure!(keys == Some(kinds.len()), "{keys:?} fields for {} kinds of properties: {json}", kinds.len());
    match serde_json::from_value::<Vcard>(value) {
        Ok(d) => same(&d, "from a JSON value")?,
        Err(e) => fail!("JSON value of {json} cannot be deserialized: {e}"),
    }
    match serde_json::from_slice::<Vec<Vcard>>(format!("[{json}, {json}]").as_bytes()) {
        Ok(v) => {
            ensure!(v.len() == 2, "list of two cards");
            same(&v[1], "from a list in JSON")
        }
        Err(e) => fail!("list of JSON {json} cannot be deserialized: {e}"),
    }
}
#[cfg(not(feature = "serde"))]
fn check(_: &mut Src, _: &mut Ctx) -> Res {
    eprintln!("ERROR: built without serde");
    std::process::exit(2)
}

pub const SPEC: Spec = Spec {
    id: "C22",
    check,
    quick: 40_000,
    thorough: 2_000_000,
    rule: "cards of generated properties, built or parsed, to JSON text and JSON value and back, alone and in a list; \
           non-trivial: at least two properties and a group, a parameter or more than three properties",
    must_see: &["fractions of a second", "parsed", "built", "float", "date and or time", "TZ", "TZ parameter", "MEDIATYPE", "LANGUAGE"],
    serial: false,
};
