//! Texts with one very long element, for a build that is not optimised.
//!
//! probe0 SEED FROM TO     cases FROM..TO, each announced before it is run
//! probe0 SEED I I+1 FILE  write the text of case I as well
use std::io::Write;

struct Rng(u64);
impl Rng {
    fn below(&mut self, n: u64) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        (z ^ (z >> 31)) % n
    }
    fn pick<'a>(&mut self, v: &[&'a str]) -> &'a str {
        v[self.below(v.len() as u64) as usize]
    }
}

/// Where the long element is, and a text around it.
const PLACES: [(&str, &str, &str); 26] = [
    ("name", "\nFN:x\n", ":x"),
    ("name", "\nFN:x\nX-", ":x"),
    ("name", "\nFN:x\n", ";PREF=1:x"),
    ("group", "\nFN:x\n", ".NOTE:x"),
    ("group", "\nFN:x\n", ".X-A:x"),
    ("parameter name", "\nFN:x\nNOTE;", "=1:x"),
    ("parameter name", "\nFN:x\nNOTE;X-", "=1:x"),
    ("parameter value", "\nFN:x\nNOTE;X-A=", ":x"),
    ("parameter value", "\nFN:x\nNOTE;SORT-AS=", ":x"),
    ("parameter value", "\nFN:x\nTEL;TYPE=", ":x"),
    ("parameter value", "\nFN:x\nNOTE;PREF=", ":x"),
    ("parameter value", "\nFN:x\nNOTE;PID=1.", ":x"),
    ("parameter value", "\nFN:x\nADR;LABEL=\"", "\":;;;;;;x"),
    ("parameter value", "\nFN:x\nADR;GEO=\"geo:", "\":;;;;;;x"),
    ("value", "\nFN:", ""),
    ("value", "\nFN:x\nN:", ""),
    ("value", "\nFN:x\nADR:;;;;;;", ""),
    ("value", "\nFN:x\nURL:https://example.com/", ""),
    ("value", "\nFN:x\nBDAY:", ""),
    ("value", "\nFN:x\nX-A;VALUE=integer:1", ""),
    ("value", "\nFN:x\nX-A;VALUE=float:1", ""),
    ("value", "\nFN:x\nCATEGORIES:", ""),
    ("value", "\nFN:x\nPHOTO;ENCODING=b;TYPE=JPEG:", ""),
    ("value", "\nFN:x\nGENDER:M;", ""),
    ("between", "\nFN:x\n", ""),
    ("between", "", "\nFN:x"),
];
const UNITS: [&str; 16] =
    ["a", "7", "-", "é", "\\n", "\\,", ",", ";", "\n ", "\r\n\t", " ", ".", "ab1", "日本", "%41", "\n"];

fn case(seed: u64, i: u64) -> (String, String) {
    let mut r = Rng(seed.wrapping_mul(0x2545f4914f6cdd1d) ^ (i << 20));
    r.below(2);
    let (what, before, after) = PLACES[r.below(PLACES.len() as u64) as usize];
    let mut t = String::new();
    let n = 1000u64 << r.below(8);
    let n = n + r.below(n);
    let two = r.below(3) == 0;
    let units = [r.pick(&UNITS), r.pick(&UNITS)];
    let mut k = 0;
    while t.len() < n as usize {
        t.push_str(if two { units[k % 2] } else { units[0] });
        k += 1;
    }
    // The longest run without a fold is what the lexer sees
    let flat = t.replace("\r\n\t", "").replace("\n ", "");
    let run = flat
        .split(|c: char| !(c.is_ascii_alphanumeric() || c == '-'))
        .map(|t| t.len())
        .max()
        .unwrap_or(0);
    let text = format!("BEGIN:VCARD\nVERSION:4.0{before}{t}{after}\nEND:VCARD\n");
    (format!("{what}: {} bytes of {:?}, run {run}", t.len(), if two { &units[..] } else { &units[..1] }), text)
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let n = |i: usize| a[i].parse::<u64>().expect("number");
    let mut out = std::io::stdout();
    let mut accepted = 0;
    for i in n(1)..n(2) {
        let (what, text) = case(n(0), i);
        if let Some(f) = a.get(3) {
            std::fs::write(f, &text).expect("file");
        }
        writeln!(out, "CASE {i} {what}").unwrap();
        out.flush().unwrap();
        let cards = vcard4::parse(&text).unwrap_or_default();
        accepted += cards.len();
        let loose = vcard4::parse_loose(&text).unwrap_or_default();
        for c in cards.iter().chain(&loose) {
            let t = c.to_string();
            assert!(vcard4::parse(&t).is_ok());
            assert!(*c == c.clone());
            let _ = c.parse_photo_jpeg();
        }
        for (k, r) in vcard4::iter(&text, true).enumerate() {
            assert!(k < text.len());
            let _ = r.is_ok();
        }
        for (k, r) in vcard4::iter(&text, false).enumerate() {
            assert!(k < text.len());
            let _ = r.is_ok();
        }
    }
    writeln!(out, "DONE {accepted}").unwrap();
}
