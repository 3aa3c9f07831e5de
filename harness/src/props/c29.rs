//! Feature configurations against each other. Other builds of this program answer as workers.
use super::c07::{border_text, mutate};
use super::*;
use std::{
    cell::RefCell,
    collections::BTreeMap,
    io::{Read, Write},
    process::{Child, Command, Stdio},
};

/// What this configuration makes of a text.
fn outcome(t: &str) -> String {
    let side = |r: vcard4::Result<Vec<Vcard>>| match r {
        Ok(v) => {
            let printed: Vec<String> = v.iter().map(|c| c.to_string()).collect();
            let data: Vec<Card> = v.iter().map(logical).collect();
            format!("OK {data:?} {printed:?}")
        }
        Err(_) => "ERR".to_string(),
    };
    let r = guarded(|| format!("{}\n{}", side(vcard4::parse(t)), side(vcard4::parse_loose(t))));
    match r {
        Ok(r) => r,
        Err((m, l)) => format!("PANIC {m} at {l}"),
    }
}

fn read_text(r: &mut impl Read) -> std::io::Result<String> {
    let mut n = [0u8; 4];
    r.read_exact(&mut n)?;
    let mut b = vec![0u8; u32::from_le_bytes(n) as usize];
    r.read_exact(&mut b)?;
    Ok(String::from_utf8(b).expect("UTF-8"))
}
fn write_text(w: &mut impl Write, t: &str) -> std::io::Result<()> {
    let mut b = (t.len() as u32).to_le_bytes().to_vec();
    b.extend_from_slice(t.as_bytes());
    w.write_all(&b)?;
    w.flush()
}

pub fn worker() {
    let h = std::thread::Builder::new().stack_size(STACK).spawn(|| {
        let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
        while let Ok(t) = read_text(&mut i) {
            if write_text(&mut o, &outcome(&t)).is_err() {
                break;
            }
        }
    });
    h.unwrap().join().unwrap();
}

struct Peer(Child);
impl Drop for Peer {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

thread_local! {
    static PEERS: RefCell<BTreeMap<String, Peer>> = const { RefCell::new(BTreeMap::new()) };
}

/// Name and program of the other configurations.
fn programs() -> Vec<(String, String)> {
    let v = std::env::var("HARNESS_PEERS").unwrap_or_default();
    let v: Vec<_> =
        v.split(';').filter_map(|p| p.split_once('=')).map(|(a, b)| (a.to_string(), b.to_string())).collect();
    if v.is_empty() {
        eprintln!("ERROR: HARNESS_PEERS is not set");
        std::process::exit(2);
    }
    v
}

fn ask(name: &str, program: &str, t: &str) -> Result<String, Fail> {
    PEERS.with(|p| {
        let mut p = p.borrow_mut();
        let peer = p.entry(name.to_string()).or_insert_with(|| {
            Peer(
                Command::new(program)
                    .arg("worker")
                    .stdin(Stdio::piped())
                    .stdout(Stdio::piped())
                    .spawn()
                    .unwrap_or_else(|e| {
                        eprintln!("ERROR: {program}: {e}");
                        std::process::exit(2)
                    }),
            )
        });
        let r = write_text(peer.0.stdin.as_mut().unwrap(), t)
            .and_then(|_| read_text(peer.0.stdout.as_mut().unwrap()));
        r.map_err(|e| {
            p.remove(name);
            Fail(format!("configuration {name} ends the process: {e}"))
        })
    })
}

const BAD_MIME: [&str; 11] = ["text", "/", "/plain", "a b/c", "text/pl ain", "x", "text/plain/x y", "é/x", "text/é", "@/@x/ ", "no type"];
const BAD_LANG: [&str; 12] = ["e", "en_US", "1", "en--US", "en-", "-en", "toolonglanguage", "e n", "é", "en-toolongsubtag", "en US", "--"];

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut card = if s.chance(1, 2) { tiny_card(s) } else { gcard(s) };
    // Texts with none of these values, with well-formed ones, or with a malformed one
    let kind = s.below(4);
    for p in &mut card {
        if kind == 0 || kind == 3 && s.chance(1, 2) {
            p.params.language = None;
            p.params.mediatype = None;
        } else {
            if p.params.language.is_some() || s.chance(1, 4) {
                p.params.language = Some(lang_text(s));
            }
            if p.params.mediatype.is_some() || s.chance(1, 4) {
                p.params.mediatype = Some(mime_text(s));
            }
        }
        if let Val::Lang(t) = &mut p.val {
            *t = lang_text(s);
        }
    }
    if kind == 0 {
        card.retain(|p| !matches!(p.val, Val::Lang(_)));
    }
    let st = some_style(s);
    let mut lower = false;
    let mut bad = "";
    let t = match kind {
        0 | 1 => {
            let mut t = render(s, &[card.clone()], st);
            if kind == 0 && s.chance(1, 2) {
                let b = border_text(s, cx);
                t = if s.chance(1, 2) { mutate(s, &t, 6) } else { b };
                // Folds may hide a name
                let flat: String = t.replace("\r\n", "\n").replace("\n ", "").replace("\n\t", "").to_uppercase();
                if flat.contains("MEDIATYPE") || flat.contains("LANG") {
                    return Ok(());
                }
            }
            t
        }
        2 => {
            // Any letter case
            lower = true;
            for p in &mut card {
                p.params.language = p.params.language.take().map(|t| recase(s, &t, true));
                p.params.mediatype = p.params.mediatype.take().map(|t| {
                    // Lower case parameters of the type
                    let (a, b) = t.split_once(';').map(|(a, b)| (a, format!(";{b}"))).unwrap_or((&t, String::new()));
                    format!("{}{b}", recase(s, a, true))
                });
                if let Val::Lang(t) = &mut p.val {
                    *t = recase(s, t, true);
                }
            }
            render(s, &[card.clone()], st)
        }
        _ => {
            let mut lines = card_lines(s, &card, Style { folds: false, ..st });
            let l;
            match s.below(4) {
                0 => {
                    bad = "mime";
                    l = format!("NOTE;MEDIATYPE=\"{}\":x", s.pick::<&str>(&BAD_MIME));
                }
                1 => {
                    bad = "lang";
                    l = format!("NOTE;LANGUAGE={}:x", s.pick::<&str>(&BAD_LANG));
                }
                2 => {
                    bad = "lang";
                    l = format!("LANG:{}", s.pick::<&str>(&BAD_LANG));
                }
                _ => {
                    bad = "lang";
                    l = format!("X-A;VALUE=language-tag:{}", s.pick::<&str>(&BAD_LANG));
                }
            }
            place(s, &mut lines, l);
            assemble(s, &lines, PLAIN)
        }
    };
    cx.input(&t);
    cx.nontrivial = true;
    cx.label(["neither", "well-formed", "other letter case", "malformed"][kind as usize]);
    cx.label_if(bad == "mime", "malformed media type");
    cx.label_if(bad == "lang", "malformed language");
    let fold = |r: String| if lower { r.to_lowercase() } else { r };
    let mut results: Vec<(String, String)> = Vec::new();
    for (name, program) in programs() {
        let r = ask(&name, &program, &t)?;
        cx.evals += 1;
        ensure!(!r.starts_with("PANIC"), "configuration {name}: {r}");
        results.push((name, fold(r)));
    }
    cx.label_if(results[0].1.starts_with("OK"), "accepted");
    cx.label_if(results[0].1.starts_with("ERR"), "rejected");
    if bad.is_empty() {
        for (name, r) in &results[1..] {
            let (n0, r0) = &results[0];
            ensure!(r == r0, "configurations differ: {n0}: {r0}\n{name}: {r}");
        }
        if kind != 0 {
            ensure!(results[0].1.to_uppercase().starts_with("OK"), "well-formed values are rejected: {}", results[0].1);
        }
        return Ok(());
    }
    // Rejected with the feature only, and dropped in loose mode
    let side = |r: &str, n: usize| r.split('\n').nth(n).unwrap_or("").to_string();
    let base = render(s, &[card.clone()], PLAIN);
    for (name, r) in &results {
        let has = name == "full" || name == bad;
        let strict = side(r, 0);
        ensure!(
            strict.starts_with("ERR") == has,
            "malformed {bad} value, configuration {name}: {strict}"
        );
        if has {
            let program = programs().into_iter().find(|p| p.0 == *name).unwrap().1;
            let without = ask(name, &program, &base)?;
            ensure!(side(r, 1) == side(&without, 1), "loose parsing with a malformed {bad} value, configuration {name}: {r}");
        }
    }
    Ok(())
}

pub const SPEC: Spec = Spec {
    id: "C29",
    check,
    quick: 15_000,
    thorough: 800_000,
    rule: "texts of cards without MEDIATYPE and languages (also edited), with well-formed ones, with well-formed ones in \
           other letter case, and with a malformed one, given to builds with no feature, the default, mime, \
           language-tags and all features; data and printed text have to be the same (up to letter case), malformed \
           ones rejected with the feature only; every case is non-trivial",
    must_see: &[
        "neither", "well-formed", "other letter case", "malformed", "malformed media type", "malformed language",
        "accepted", "rejected",
    ],
    serial: false,
};
