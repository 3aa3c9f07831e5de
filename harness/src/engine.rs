//! Generated-input search: every random choice is drawn from a tape, so a failing case is shrunk by
//! editing its tape and replayed from it.
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    panic::{AssertUnwindSafe, catch_unwind},
    sync::{
        Mutex,
        atomic::{AtomicU64, AtomicUsize, Ordering},
    },
    time::{Duration, Instant},
};

/// Source of choices: fresh ones from a generator, or those of a recorded tape (0 when it ends).
pub struct Src {
    state: u64,
    pub tape: Vec<u64>,
    replay: Option<Vec<u64>>,
    pos: usize,
    /// Size hint of the case, grows with the case index.
    pub size: u64,
}

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Src {
    pub fn random(seed: u64, size: u64) -> Self {
        Self { state: seed, tape: Vec::new(), replay: None, pos: 0, size }
    }
    pub fn replay(tape: Vec<u64>, size: u64) -> Self {
        Self { state: 0, tape: Vec::new(), replay: Some(tape), pos: 0, size }
    }
    fn raw(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.state)
    }
    /// A number below `n`. Smaller is simpler: alternatives are listed simplest first.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(t) => t.get(self.pos).copied().unwrap_or(0) % n,
            None => self.raw() % n,
        };
        self.pos += 1;
        self.tape.push(v);
        v
    }
    pub fn upto(&mut self, n: usize) -> usize {
        self.below(n as u64 + 1) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// True in `num` of `den` cases (false is simpler).
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den.saturating_sub(num)
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len() as u64) as usize]
    }
    /// A full-width number.
    pub fn u64(&mut self) -> u64 {
        let v = match &self.replay {
            Some(t) => t.get(self.pos).copied().unwrap_or(0),
            None => self.raw(),
        };
        self.pos += 1;
        self.tape.push(v);
        v
    }
    /// Index by weights.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let mut n = self.below(weights.iter().sum());
        for (i, w) in weights.iter().enumerate() {
            if n < *w {
                return i;
            }
            n -= w;
        }
        0
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = i - self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
    /// Number of repetitions: mostly few, at most `max`.
    pub fn count(&mut self, max: usize) -> usize {
        let mut n = 0;
        while n < max && self.chance(1, 2) {
            n += 1;
        }
        n
    }
}

/// What a case reports about itself.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    /// Identity of the case, to count distinct ones.
    pub key: u64,
    pub labels: Vec<&'static str>,
    pub sample: String,
    /// The concrete input, for the replay file.
    pub input: String,
    pub evals: u64,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
    /// Set the input under test: sample, replay text and identity.
    pub fn input(&mut self, s: &str) {
        self.input = s.to_string();
        INPUT_FILE.with(|f| {
            if let Some(f) = &*f.borrow() {
                let _ = std::fs::write(f, s);
            }
        });
        self.key = hash(s.as_bytes());
        if self.sample.is_empty() {
            self.sample = clip(s, 600);
        }
    }
}

pub fn clip(s: &str, max: usize) -> String {
    if s.len() <= max {
        return s.to_string();
    }
    let mut n = max;
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    format!("{}… ({} bytes)", &s[..n], s.len())
}

pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b {
        h = (h ^ *c as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

/// A violated property.
#[derive(Debug, Clone)]
pub struct Fail(pub String);
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::engine::Fail(format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { $crate::fail!($($a)*) } };
}

pub type Check = fn(&mut Src, &mut Ctx) -> Res;

pub struct Spec {
    pub id: &'static str,
    pub check: Check,
    /// Cases of the quick tier.
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    /// Labels that have to be seen in a run, or the generator does not reach what it should.
    pub must_see: &'static [&'static str],
    /// One thread only (checks that observe the allocator).
    pub serial: bool,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Run `f`, turning a panic into (message, location).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())
}

fn run_case(check: Check, src: &mut Src, ctx: &mut Ctx) -> Res {
    match guarded(|| check(src, ctx)) {
        Ok(r) => r,
        Err((msg, loc)) => {
            Err(Fail(format!("panic at {loc}: {}", clip(&msg, 500))))
        }
    }
}

pub struct Failure {
    pub index: u64,
    pub size: u64,
    pub tape: Vec<u64>,
    pub message: String,
    pub input: String,
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub evals: u64,
    pub distinct_nontrivial: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub failure: Option<Failure>,
}

fn size_of(index: u64) -> u64 {
    // Cycles so that every prefix of a run holds small and large cases
    4 + (index % 16) * 3
}

pub fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
    mix(seed ^ mix(hash(id.as_bytes()) ^ mix(index.wrapping_mul(0x2545f4914f6cdd1d))))
}

pub const STACK: usize = 64 << 20;

thread_local! {
    static INPUT_FILE: RefCell<Option<String>> = const { RefCell::new(None) };
}
static INPUT_PATH: Mutex<Option<String>> = Mutex::new(None);
/// Write the input of a case to a file before it is used, for cases that end the process.
pub fn set_input_file(path: &str) {
    *INPUT_PATH.lock().unwrap() = Some(path.to_string());
}

/// One case of a run, alone in its process.
pub fn one(prop: &Spec, seed: u64, index: u64) -> Res {
    let (check, id) = (prop.check, prop.id);
    let path = INPUT_PATH.lock().unwrap().clone();
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            INPUT_FILE.with(|f| *f.borrow_mut() = path);
            let mut src = Src::random(case_seed(seed, id, index), size_of(index));
            run_case(check, &mut src, &mut Ctx::default())
        })
        .unwrap()
        .join()
        .unwrap()
}

pub fn run(prop: &Spec, seed: u64, cases: u64, threads: usize, trace: Option<&str>) -> Report {
    let next = AtomicU64::new(0);
    let min_fail = AtomicU64::new(u64::MAX);
    let total: Mutex<(Report, HashSet<u64>)> = Default::default();
    let busy: Vec<(AtomicU64, Mutex<Option<Instant>>)> =
        (0..threads).map(|_| (AtomicU64::new(0), Mutex::new(None))).collect();
    let live = AtomicUsize::new(threads);
    std::thread::scope(|scope| {
        for t in 0..threads {
            let (next, min_fail, total, busy, live) = (&next, &min_fail, &total, &busy, &live);
            let work = move || {
                let mut rep = Report::default();
                let mut keys = HashSet::new();
                let mut samples: Vec<(u64, String)> = Vec::new();
                let mut fails: Vec<Failure> = Vec::new();
                // Where this thread is, for the driver when the process dies
                let slot = trace.map(|d| std::fs::File::create(format!("{d}/{t}")).expect("trace file"));
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= cases || i > min_fail.load(Ordering::SeqCst) {
                        break;
                    }
                    busy[t].0.store(i, Ordering::SeqCst);
                    *busy[t].1.lock().unwrap() = Some(Instant::now());
                    if let Some(f) = &slot {
                        use std::os::unix::fs::FileExt;
                        f.write_all_at(&i.to_le_bytes(), 0).expect("trace file");
                    }
                    let mut src = Src::random(case_seed(seed, prop.id, i), size_of(i));
                    let mut ctx = Ctx::default();
                    let r = run_case(prop.check, &mut src, &mut ctx);
                    *busy[t].1.lock().unwrap() = None;
                    rep.evaluations += 1;
                    rep.evals += ctx.evals.max(1);
                    for l in &ctx.labels {
                        *rep.labels.entry(l).or_default() += 1;
                    }
                    if ctx.nontrivial {
                        keys.insert(ctx.key);
                        if i < 400 || samples.len() < 3 {
                            samples.push((i, ctx.sample));
                        }
                    }
                    if let Err(f) = r {
                        min_fail.fetch_min(i, Ordering::SeqCst);
                        fails.push(Failure {
                            index: i,
                            size: size_of(i),
                            tape: src.tape,
                            message: f.0,
                            input: ctx.input,
                        });
                    }
                }
                let mut total = total.lock().unwrap();
                let (all, allkeys) = &mut *total;
                all.evaluations += rep.evaluations;
                all.evals += rep.evals;
                for (l, n) in rep.labels {
                    *all.labels.entry(l).or_default() += n;
                }
                allkeys.extend(keys);
                all.samples.extend(samples.into_iter().map(|(i, s)| format!("{i:09} {s}")));
                for f in fails {
                    if all.failure.as_ref().is_none_or(|g| f.index < g.index) {
                        all.failure = Some(f);
                    }
                }
                live.fetch_sub(1, Ordering::SeqCst);
            };
            std::thread::Builder::new().stack_size(STACK).spawn_scoped(scope, work).unwrap();
        }
        // Watchdog: a hang is an error of the run, not a violation
        while live.load(Ordering::SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(5));
            for (i, start) in &busy {
                if let Some(s) = *start.lock().unwrap()
                    && s.elapsed() > Duration::from_secs(60)
                {
                    eprintln!("ERROR: case {} of {} does not end", i.load(Ordering::SeqCst), prop.id);
                    std::process::exit(4);
                }
            }
        }
    });
    let (mut rep, keys) = total.into_inner().unwrap();
    rep.distinct_nontrivial = keys.len() as u64;
    rep.samples.sort();
    let step = (rep.samples.len() / 6).max(1);
    rep.samples = rep.samples.into_iter().step_by(step).take(6).collect();
    rep
}

/// Run one tape.
pub fn replay(check: Check, tape: &[u64], size: u64) -> (Res, Ctx, Vec<u64>) {
    let tape = tape.to_vec();
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let mut src = Src::replay(tape, size);
            let mut ctx = Ctx::default();
            let r = run_case(check, &mut src, &mut ctx);
            (r, ctx, src.tape)
        })
        .unwrap()
        .join()
        .unwrap_or_else(|_| {
            eprintln!("ERROR: replay thread died");
            std::process::exit(3)
        })
}

/// Shrink a failing tape: delete blocks, zero blocks, lower numbers.
pub fn shrink(check: Check, f: Failure) -> Failure {
    let start = Instant::now();
    let mut best = f;
    let mut tries = 0u32;
    let attempt = |tape: &[u64], best: &mut Failure, tries: &mut u32| -> bool {
        *tries += 1;
        let (r, ctx, used) = replay(check, tape, best.size);
        if let Err(e) = r {
            let better = (used.len(), used.iter().map(|v| *v as u128).sum::<u128>())
                < (best.tape.len(), best.tape.iter().map(|v| *v as u128).sum::<u128>());
            if better {
                best.tape = used;
                best.message = e.0;
                best.input = ctx.input;
                return true;
            }
        }
        false
    };
    let over = |tries: u32| tries > 6000 || start.elapsed() > Duration::from_secs(40);
    let mut progress = true;
    while progress && !over(tries) {
        progress = false;
        let mut block = best.tape.len().max(1);
        while block >= 1 {
            let mut i = 0;
            while i < best.tape.len() && !over(tries) {
                let end = (i + block).min(best.tape.len());
                let mut t = best.tape.clone();
                t.drain(i..end);
                if attempt(&t, &mut best, &mut tries) {
                    progress = true;
                    continue;
                }
                if best.tape[i..end].iter().any(|v| *v != 0) {
                    let mut t = best.tape.clone();
                    t[i..end].fill(0);
                    if attempt(&t, &mut best, &mut tries) {
                        progress = true;
                    }
                }
                i += block;
            }
            block /= 2;
        }
        for i in 0..best.tape.len() {
            if over(tries) {
                break;
            }
            let mut lo = 0;
            while i < best.tape.len() && best.tape[i] > lo && !over(tries) {
                let mid = lo + (best.tape[i] - lo) / 2;
                let mut t = best.tape.clone();
                t[i] = mid;
                if attempt(&t, &mut best, &mut tries) {
                    progress = true;
                } else {
                    lo = mid + 1;
                }
            }
        }
    }
    best
}
