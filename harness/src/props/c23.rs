//! Memory of a dropped card.
use super::*;
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
    sync::atomic::{AtomicBool, AtomicU8, Ordering::Relaxed},
};

/// In every text of a card. It is kept disguised: a plain copy on the stack can become a part of what is in memory
/// between the fields of a value that is moved.
static MARK: [u8; 8] = [0xf5, 0xde, 0x96, 0xf8, 0xd9, 0x98, 0xf7, 0xc4];
static DISGUISE: AtomicU8 = AtomicU8::new(0xaf);
const NOTE: usize = 40;

fn plain(b: &[u8]) -> String {
    let d = DISGUISE.load(Relaxed);
    let mut t = String::with_capacity(b.len());
    for c in b {
        t.push((c ^ d) as char);
    }
    t
}
/// The text that is looked for.
fn marker() -> String {
    plain(&MARK)
}

thread_local! {
    /// Look at the blocks this thread frees
    static ON: Cell<bool> = const { Cell::new(false) };
    static BLOCKS: Cell<u64> = const { Cell::new(0) };
    /// What follows the mark in the first block that has it, disguised
    static FOUND: Cell<Option<[u8; NOTE]>> = const { Cell::new(None) };
}

/// The system allocator, which looks for the mark in memory that is given back.
pub struct Scan;

fn look(p: *mut u8, n: usize) {
    let _ = ON.try_with(|on| {
        if !on.get() {
            return;
        }
        BLOCKS.with(|b| b.set(b.get() + 1));
        let d = DISGUISE.load(Relaxed);
        // Bytes never written are read as well: they are zero, see below
        for i in 0..n.saturating_sub(MARK.len() - 1) {
            let hit = MARK.iter().enumerate().all(|(k, m)| unsafe { std::ptr::read_volatile(p.add(i + k)) } ^ d == *m);
            if hit {
                FOUND.with(|f| {
                    if f.get().is_none() {
                        let mut note = [d; NOTE];
                        for (k, b) in note.iter_mut().enumerate() {
                            if i + k < n {
                                *b = unsafe { std::ptr::read_volatile(p.add(i + k)) } ^ d;
                            }
                        }
                        f.set(Some(note));
                    }
                });
                return;
            }
        }
    });
}

/// Hand out zeroed memory, so that what is found in a block was written to that block
static CLEAN: AtomicBool = AtomicBool::new(false);

unsafe impl GlobalAlloc for Scan {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe { if CLEAN.load(Relaxed) { System.alloc_zeroed(l) } else { System.alloc(l) } }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        look(p, l.size());
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !CLEAN.load(Relaxed) {
            return unsafe { System.realloc(p, l, n) };
        }
        unsafe {
            let q = System.alloc_zeroed(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
                self.dealloc(p, l);
            }
            q
        }
    }
}

/// What the memory freed by `f` holds of marked text, and the number of blocks.
fn watch(f: impl FnOnce()) -> (Option<String>, u64) {
    FOUND.with(|x| x.set(None));
    BLOCKS.with(|x| x.set(0));
    ON.with(|x| x.set(true));
    f();
    ON.with(|x| x.set(false));
    let found = FOUND.with(|x| x.get()).map(|b| {
        let t = plain(&b);
        t.split('\0').next().unwrap().to_string()
    });
    (found, BLOCKS.with(|x| x.get()))
}

/// Put the mark into every text of a card, with its place.
fn mark(card: &mut Card) -> usize {
    let mut n = 0;
    let m = &marker();
    for p in card {
        let name = p.name.clone();
        if rank(&p.name) == NAMES.len() {
            p.name = format!("X-{m}name{n}");
            n += 1;
        }
        if let Some(g) = &mut p.group {
            *g = format!("{m}group{name}");
            n += 1;
        }
        for (k, _) in &mut p.params.ext {
            *k = format!("X-{m}parametername");
            n += 1;
        }
        for (what, t) in slots(p) {
            // The parameter holds text as well as a type
            let what = what.replace([' ', '-'], "");
            *t = match &what[..] {
                "TYPE" => format!("X-{m}{what}{name}{}", &t[2..]),
                _ => format!("{m}{what}{name}{t}"),
            };
            n += 1;
        }
    }
    n
}

/// Self-test: a plain text is noticed, a zeroed one is not.
fn self_test() -> Res {
    let t = marker() + " plain";
    let (found, _) = watch(move || drop(t));
    ensure!(found.is_some(), "harness: freed text is not noticed");
    let mut t = marker();
    unsafe { t.as_bytes_mut().fill(0) };
    let (found, _) = watch(move || drop(t));
    ensure!(found.is_none(), "harness: zeroed text is noticed");
    Ok(())
}

/// Change the texts of a card through its fields, leaving the old ones in spare memory.
fn modify(s: &mut Src, c: &mut Vcard, cx: &mut Ctx) {
    use vcard4::property::*;
    fn text(s: &mut Src, t: &mut String) {
        match s.below(4) {
            0 => t.clear(),
            1 => {
                while t.len() > 3 {
                    t.pop();
                }
            }
            2 => {
                if !t.is_empty() {
                    t.replace_range(0..t.chars().next().unwrap().len_utf8(), "");
                }
            }
            _ => t.retain(|c| c != 'e'),
        }
    }
    fn list(s: &mut Src, v: &mut Vec<String>) {
        for t in v.iter_mut() {
            if s.chance(1, 2) {
                text(s, t);
            }
        }
    }
    fn texts(s: &mut Src, v: &mut [TextProperty]) {
        for p in v {
            text(s, &mut p.value);
            if let Some(q) = &mut p.parameters {
                q.alt_id.iter_mut().for_each(|t| text(s, t));
                q.label.iter_mut().for_each(|t| text(s, t));
                q.sort_as.iter_mut().for_each(|v| list(s, v));
                q.extensions.iter_mut().flatten().for_each(|(k, v)| {
                    text(s, k);
                    list(s, v)
                });
            }
            p.group.iter_mut().for_each(|t| text(s, t));
        }
    }
    cx.label("modified");
    texts(s, &mut c.note);
    texts(s, &mut c.formatted_name);
    texts(s, &mut c.email);
    texts(s, &mut c.xml);
    c.name.iter_mut().for_each(|p| list(s, &mut p.value));
    c.org.iter_mut().for_each(|p| list(s, &mut p.value));
    c.categories.iter_mut().for_each(|p| list(s, &mut p.value));
    c.address.iter_mut().for_each(|p| {
        p.value.street_address.iter_mut().for_each(|t| text(s, t));
        p.value.country_name.iter_mut().for_each(|t| text(s, t));
    });
    c.gender.iter_mut().for_each(|p| p.value.identity.iter_mut().for_each(|t| text(s, t)));
    c.extensions.iter_mut().for_each(|p| {
        text(s, &mut p.name);
        if let AnyProperty::Text(t) = &mut p.value {
            text(s, t)
        }
    });
}

/// Look at what `f` gives back.
fn step(cx: &mut Ctx, what: &str, f: impl FnOnce()) -> Res {
    let (found, blocks) = watch(f);
    cx.evals += blocks;
    match found {
        Some(t) => fail!("{what}: memory given back holds {t:?}"),
        None => Ok(()),
    }
}

fn check(s: &mut Src, cx: &mut Ctx) -> Res {
    CLEAN.store(true, Relaxed);
    self_test()?;
    let mut card = gcard(s);
    let n = mark(&mut card);
    let mut c = if s.chance(1, 2) {
        cx.label("parsed");
        let st = some_style(s);
        let t = render(s, &[card.clone()], st);
        cx.input(&t);
        match vcard4::parse(&t) {
            Ok(mut v) => v.remove(0),
            Err(e) => fail!("{t:?}: {e}"),
        }
    } else {
        cx.label("built");
        cx.input(&format!("{card:?}"));
        build(&card)
    };
    cx.nontrivial = n > 2;
    for p in &card {
        cx.label_if(p.group.is_some(), "group");
        cx.label_if(!p.params.ext.is_empty(), "X- parameter");
        cx.label_if(p.name == "TZ" && matches!(p.val, Val::Text(_)), "TZ");
    }
    if s.chance(1, 4) {
        let d = c.clone();
        step(cx, "a clone dropped", move || drop(d))?;
    }
    // Remove properties as a whole
    let removals = s.below(4);
    for _ in 0..removals {
        let which = s.below(12);
        step(cx, "a property removed", || match which {
            0 => c.note.clear(),
            1 => drop(c.name.take()),
            2 => drop(c.tel.pop()),
            3 => c.address.truncate(0),
            4 => c.extensions.clear(),
            5 => drop(c.bday.take()),
            6 => drop(c.gender.take()),
            7 => drop(c.timezone.pop()),
            8 => drop(c.categories.pop()),
            9 => drop(c.uid.take()),
            10 => drop(c.lang.pop()),
            _ => drop(c.photo.pop()),
        })?;
    }
    #[cfg(feature = "zero")]
    if s.chance(1, 3) {
        return zeroized(s, cx, c);
    }
    match s.below(4) {
        0 => {
            let mut cxt = Ctx::default();
            modify(s, &mut c, &mut cxt);
            step(cx, "modified and dropped", move || drop(c))?;
            cx.label("modified");
            Ok(())
        }
        1 => {
            step(cx, "replaced", || c = Vcard::default())?;
            Ok(())
        }
        2 => {
            let v = vec![c.clone(), c];
            step(cx, "dropped in a list", move || drop(v))
        }
        _ => step(cx, "dropped", move || drop(c)),
    }
}

/// Zeroized by hand, as a whole or some of its properties.
#[cfg(feature = "zero")]
fn zeroized(s: &mut Src, cx: &mut Ctx, mut c: Vcard) -> Res {
    use zeroize::Zeroize;
    let m = &marker();
    if s.chance(1, 2) {
        cx.label("zeroized");
        step(cx, "zeroized", || c.zeroize())?;
        let rest = format!("{c:?}");
        ensure!(!rest.contains(&m[..]), "zeroized, but the card still holds {rest}");
        ensure!(c == Vcard::default(), "zeroized, but the card is {rest}");
        return step(cx, "zeroized and dropped", move || drop(c));
    }
    cx.label("properties zeroized");
    macro_rules! all {
        ($($f:ident)*) => {$(
            for p in c.$f.iter_mut() {
                step(cx, concat!(stringify!($f), " zeroized"), || p.zeroize())?;
                let rest = format!("{p:?}");
                ensure!(!rest.contains(&m[..]), "{} zeroized, but it still holds {rest}", stringify!($f));
            }
        )*};
    }
    all!(source kind xml formatted_name name nickname photo bday anniversary gender url address title role logo org
         member related tel email impp lang timezone geo categories note prod_id rev sound uid client_pid_map key fburl
         cal_adr_uri cal_uri extensions);
    step(cx, "properties zeroized and dropped", move || drop(c))
}

pub const SPEC: Spec = Spec {
    id: "C23",
    check,
    quick: 100_000,
    thorough: 1_500_000,
    rule: "cards with a mark in every text (values, components, groups, parameters, extension and parameter names), \
           built, parsed or cloned, some with texts shortened in place, properties removed or zeroized by hand; an allocator looks \
           for the mark in every block given back while the card or a property is dropped or zeroized (evaluations: \
           blocks) and the Debug form of what was zeroized is searched for it; \
           non-trivial: more than two marked texts",
    must_see: &["parsed", "built", "modified", "group", "X- parameter", "TZ", "zeroized", "properties zeroized"],
    serial: false,
};
