//! Property-based testing core: choice-tape generation with universal
//! shrinking, a deterministic parallel runner, replay files, known findings
//! and the evidence writer.

use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- randomness

#[derive(Clone)]
struct SplitMix(u64);
impl SplitMix {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

/// Source of generator choices.  Every draw is recorded on a tape; shrinking
/// edits the tape and generates again (0 is always the simplest choice).
pub struct Src {
    rng: SplitMix,
    pub tape: Vec<u64>,
    fixed: Option<Vec<u64>>,
    pos: usize,
    pub thorough: bool,
}

impl Src {
    pub fn random(seed: u64, thorough: bool) -> Self {
        Src {
            rng: SplitMix(seed),
            tape: vec![],
            fixed: None,
            pos: 0,
            thorough,
        }
    }
    pub fn replay(tape: Vec<u64>, thorough: bool) -> Self {
        Src {
            rng: SplitMix(0),
            tape: vec![],
            fixed: Some(tape),
            pos: 0,
            thorough,
        }
    }
    /// Uniform in 0..n.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = match &self.fixed {
            Some(t) => t.get(self.pos).copied().unwrap_or(0).min(n - 1),
            None => {
                if n == u64::MAX {
                    self.rng.next().min(n - 1)
                } else {
                    self.rng.next() % n
                }
            }
        };
        self.pos += 1;
        self.tape.push(v);
        v
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    /// true with probability num/den; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn u8(&mut self) -> u8 {
        self.below(256) as u8
    }
    pub fn u16(&mut self) -> u16 {
        match self.below(4) {
            0 => self.below(8) as u16,
            1 => *self.pick(&[0u16, 1, 127, 128, 255, 256, 0x7fff, 0x8000, 0xfffe, 0xffff]),
            _ => self.below(65536) as u16,
        }
    }
    pub fn u32(&mut self) -> u32 {
        match self.below(4) {
            0 => self.below(8) as u32,
            1 => *self.pick(&[
                0u32, 1, 127, 128, 255, 256, 16383, 16384, 65535, 65536, 2097151, 2097152,
                0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff,
            ]),
            _ => self.below(1 << 32) as u32,
        }
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut r = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if r < *x as u64 {
                return i;
            }
            r -= *x as u64;
        }
        unreachable!()
    }
    pub fn opt<T>(&mut self, f: impl FnOnce(&mut Src) -> T) -> Option<T> {
        if self.bool() {
            Some(f(self))
        } else {
            None
        }
    }
    /// Vector with a per-element continue flag, so that elements delete well.
    pub fn vec<T>(
        &mut self,
        min: usize,
        max: usize,
        avg: usize,
        mut f: impl FnMut(&mut Src) -> T,
    ) -> Vec<T> {
        let mut out = vec![];
        while out.len() < max {
            if out.len() >= min && !self.chance(avg as u64, avg as u64 + 1) {
                break;
            }
            out.push(f(self));
        }
        out
    }
    /// Byte string whose length is drawn first, content from few draws (so the
    /// tape stays short for long strings).
    pub fn blob(&mut self, len: usize) -> Vec<u8> {
        match self.below(3) {
            0 => {
                let b = self.u8();
                vec![b; len]
            }
            1 => {
                let s = self.below(1 << 32);
                let mut r = SplitMix(s);
                (0..len).map(|_| r.next() as u8).collect()
            }
            _ => (0..len)
                .map(|i| (i as u64).wrapping_mul(7).wrapping_add(3) as u8)
                .collect(),
        }
    }
    pub fn bytes(&mut self, max: usize) -> Vec<u8> {
        let n = self.below(max as u64 + 1) as usize;
        if n <= 16 && self.bool() {
            (0..n).map(|_| self.u8()).collect()
        } else {
            self.blob(n)
        }
    }
}

pub fn hash64(data: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut s = SplitMix(h);
    s.next()
}

// ------------------------------------------------------------------- results

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Fail {
    /// Stable key of the failing behaviour.
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail {
        sig: sig.into(),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::core::Fail { sig: ($sig).to_string(), msg: format!($($arg)*) });
        }
    };
}

/// Per-case observations: class labels and the non-triviality verdict.
#[derive(Default)]
pub struct Obs {
    pub labels: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    /// The case could not be judged (for example: the machine stalled).
    pub inconclusive: bool,
    pub excluded: u64,
}
impl Obs {
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn add(&mut self, l: &'static str, n: u64) {
        *self.labels.entry(l).or_insert(0) += n;
    }
    pub fn nt(&mut self) {
        self.nontrivial = true;
    }
    pub fn nt_if(&mut self, c: bool) {
        if c {
            self.nontrivial = true;
        }
    }
}

// ------------------------------------------------------------------ sub-tests

pub struct Sub<C> {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// 0 = all cores
    pub threads: usize,
    pub gen: fn(&mut Src) -> C,
    pub check: fn(&C, &mut Obs) -> Res,
}

pub trait SubDyn: Sync + Send {
    fn name(&self) -> &'static str;
    fn cases(&self, thorough: bool) -> u64;
    fn threads(&self) -> usize;
    /// Generate from the source, run; returns (case json, result).
    fn run(&self, s: &mut Src, o: &mut Obs, want_json: bool) -> (Option<String>, Res);
    fn run_json(&self, json: &str, o: &mut Obs) -> Result<Res, String>;
    fn case_json(&self, s: &mut Src) -> String;
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}
static HARNESS_PANIC: AtomicBool = AtomicBool::new(false);
pub static OTHER_PANICS: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let quiet = QUIET.with(|q| *q.borrow());
        if quiet {
            PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
        } else {
            // a background thread of the code under test (or of the harness)
            if let Ok(mut v) = OTHER_PANICS.lock() {
                v.push((loc.clone(), msg.clone()));
            }
            eprintln!("[panic outside a guarded case] {loc}: {msg}");
        }
    }));
}

/// Runs f, turning a panic of the code under test into a failure.
pub fn guarded(f: impl FnOnce() -> Res) -> Res {
    QUIET.with(|q| *q.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = false);
    match r {
        Ok(r) => r,
        Err(_) => {
            let (loc, msg) = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| ("?".into(), "?".into()));
            if loc.starts_with("src/") {
                HARNESS_PANIC.store(true, Ordering::SeqCst);
                eprintln!("HARNESS PANIC at {loc}: {msg}");
            }
            let file = loc.rsplit_once(':').map(|x| x.0).unwrap_or(&loc);
            let file = file.rsplit("/ws/").next().unwrap_or(file);
            let short: String = msg
                .chars()
                .map(|c| if c.is_ascii_digit() { '#' } else { c })
                .take(60)
                .collect();
            Err(Fail {
                sig: format!("panic:{file}:{short}"),
                msg: format!("panicked at {loc}: {msg}"),
            })
        }
    }
}

impl<C: Serialize + DeserializeOwned + Debug> SubDyn for Sub<C> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            self.thorough
        } else {
            self.quick
        }
    }
    fn threads(&self) -> usize {
        if self.threads == 0 {
            std::thread::available_parallelism()
                .map(|n| n.get())
                .unwrap_or(4)
        } else {
            self.threads
        }
    }
    fn run(&self, s: &mut Src, o: &mut Obs, want_json: bool) -> (Option<String>, Res) {
        let mut json = None;
        let r = guarded(|| {
            let c = (self.gen)(s);
            if want_json {
                json = Some(serde_json::to_string(&c).unwrap());
            }
            (self.check)(&c, o)
        });
        (json, r)
    }
    fn run_json(&self, json: &str, o: &mut Obs) -> Result<Res, String> {
        let c: C = serde_json::from_str(json).map_err(|e| e.to_string())?;
        Ok(guarded(|| (self.check)(&c, o)))
    }
    fn case_json(&self, s: &mut Src) -> String {
        serde_json::to_string(&(self.gen)(s)).unwrap()
    }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Box<dyn SubDyn>>,
}

// ------------------------------------------------------------ known findings

#[derive(Debug, Clone)]
struct Known {
    property: String,
    sub: String,
    sig: String,
    what: String,
}

/// `known: property=<id> sub=<sub> sig=<sig> :: <what fails>` lines suppress
/// exactly that signature of that sub-check; `fixed:` lines suppress nothing.
fn load_known(root: &PathBuf) -> Vec<Known> {
    let mut out = vec![];
    let text = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    for line in text.lines() {
        let Some(rest) = line.strip_prefix("known: ") else {
            continue;
        };
        let Some((keys, what)) = rest.split_once(" :: ") else {
            continue;
        };
        let mut k = Known {
            property: String::new(),
            sub: String::new(),
            sig: String::new(),
            what: what.to_string(),
        };
        for part in keys.split_whitespace() {
            if let Some(v) = part.strip_prefix("property=") {
                k.property = v.into();
            } else if let Some(v) = part.strip_prefix("sub=") {
                k.sub = v.into();
            } else if let Some(v) = part.strip_prefix("sig=") {
                k.sig = v.into();
            }
        }
        out.push(k);
    }
    out
}

#[derive(Serialize, Deserialize)]
struct ReplayFile {
    property: String,
    sub: String,
    sig: String,
    msg: String,
    seed: u64,
    case: serde_json::Value,
}

// --------------------------------------------------------------------- runner

struct Failure {
    index: u64,
    tape: Vec<u64>,
    fail: Fail,
}

#[derive(Default)]
struct SubStats {
    evals: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    inconclusive: u64,
    excluded: u64,
    samples: BTreeMap<u64, String>,
    failures: BTreeMap<String, Failure>,
    suppressed: BTreeMap<String, u64>,
}

fn case_seed(seed: u64, prop: &str, sub: &str, i: u64) -> u64 {
    hash64(format!("{seed}/{prop}/{sub}/{i}").as_bytes())
}

/// What each thread is doing, so that a case that never ends is reported.
enum Job {
    Case(&'static str, u64),
    File(String),
}
static WATCH: Mutex<Vec<Option<(Instant, Job)>>> = Mutex::new(Vec::new());
const HANG: Duration = Duration::from_secs(100);

/// Which case each thread runs, kept in a file so that the parent process can
/// tell what brought this one down.
pub static CURRENT: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();

fn watch(slot: usize, job: Option<Job>) {
    if let Some(f) = CURRENT.get() {
        use std::os::unix::fs::FileExt;
        let mut rec = [b' '; 200];
        let text = match &job {
            Some(Job::Case(sub, i)) => format!("case\t{sub}\t{i}"),
            Some(Job::File(p)) => format!("file\t{p}"),
            None => String::new(),
        };
        let n = text.len().min(199);
        rec[..n].copy_from_slice(&text.as_bytes()[..n]);
        rec[199] = b'\n';
        let _ = f.write_at(&rec, slot as u64 * 200);
    }
    let mut w = WATCH.lock().unwrap();
    if w.len() <= slot {
        w.resize_with(slot + 1, || None);
    }
    w[slot] = job.map(|j| (Instant::now(), j));
}

fn start_watchdog(p: &Property, thorough: bool, seed: u64, root: PathBuf) -> impl Fn() + Send + 'static {
    let id = p.id;
    move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let g = WATCH.lock().unwrap();
        for (at, job) in g.iter().flatten() {
            if at.elapsed() < HANG {
                continue;
            }
            let path = match job {
                Job::File(f) => f.clone(),
                Job::Case(sub, i) => {
                    let props = crate::props();
                    let sd = props.iter().find(|q| q.id == id).and_then(|q| q.subs.iter().find(|s| s.name() == *sub));
                    let mut s = Src::random(case_seed(seed, id, sub, *i), thorough);
                    let json = sd.map(|d| d.case_json(&mut s)).unwrap_or_else(|| "null".into());
                    save_replay(&root, id, sub, "does-not-end", "the case does not end", seed, &json)
                }
            };
            println!("  [hang] does-not-end: no result after {} s", HANG.as_secs());
            println!("VIOLATION property={id} replay={path}");
            std::process::exit(1);
        }
    }
}

fn save_replay(root: &PathBuf, id: &str, sub: &str, sig: &str, msg: &str, seed: u64, json: &str) -> String {
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{sub}-{:08x}.json", hash64(sig.as_bytes()) as u32));
    let rf = ReplayFile {
        property: id.into(),
        sub: sub.into(),
        sig: sig.into(),
        msg: msg.into(),
        seed,
        case: serde_json::from_str(json).unwrap_or(serde_json::Value::Null),
    };
    std::fs::write(&path, serde_json::to_string_pretty(&rf).unwrap()).unwrap();
    path.to_string_lossy().to_string()
}

fn sig_clean(s: &str) -> String {
    s.chars()
        .map(|c| if c.is_whitespace() { '_' } else { c })
        .collect()
}

/// Runs one case and nothing else (in a process that may die from it).
pub fn run_one(p: &Property, sub: &str, i: u64, thorough: bool, seed: u64) {
    let Some(sd) = p.subs.iter().find(|s| s.name() == sub) else {
        return;
    };
    let sd = &**sd;
    std::thread::scope(|sc| {
        let _ = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
            let mut s = Src::random(case_seed(seed, p.id, sub, i), thorough);
            let _ = sd.run(&mut s, &mut Obs::default(), false);
        });
    });
}

pub fn save_case(p: &Property, root: &PathBuf, sub: &str, i: u64, thorough: bool, seed: u64, sig: &str) -> String {
    let json = match p.subs.iter().find(|s| s.name() == sub) {
        Some(sd) => {
            let mut s = Src::random(case_seed(seed, p.id, sub, i), thorough);
            sd.case_json(&mut s)
        }
        None => "null".into(),
    };
    save_replay(root, p.id, sub, sig, "the process dies", seed, &json)
}

pub fn run_property(p: &Property, thorough: bool, seed: u64, root: PathBuf) -> i32 {
    let t0 = Instant::now();
    let scale: f64 = std::env::var("VH_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);
    let only = std::env::var("VH_SUB").ok();
    let known = load_known(&root);
    std::thread::spawn(start_watchdog(p, thorough, seed, root.clone()));
    let mut violations: Vec<(String, Fail, Option<String>)> = vec![];
    let mut regress_run = 0u64;
    let mut errors: Vec<String> = vec![];

    // 1. regression replays and known findings
    let mut seen_known: BTreeMap<String, bool> = BTreeMap::new();
    for dir in ["regress", "findings"] {
        let d = root.join(dir).join(p.id);
        let mut files: Vec<_> = std::fs::read_dir(&d)
            .map(|it| it.flatten().map(|e| e.path()).collect())
            .unwrap_or_default();
        files.sort();
        for f in files {
            let Ok(text) = std::fs::read_to_string(&f) else {
                continue;
            };
            let rf: ReplayFile = match serde_json::from_str(&text) {
                Ok(r) => r,
                Err(e) => {
                    errors.push(format!("bad replay file {}: {e}", f.display()));
                    continue;
                }
            };
            let Some(sub) = p.subs.iter().find(|s| s.name() == rf.sub) else {
                errors.push(format!("{}: no sub {}", f.display(), rf.sub));
                continue;
            };
            let mut o = Obs::default();
            watch(0, Some(Job::File(f.to_string_lossy().to_string())));
            let res = sub.run_json(&rf.case.to_string(), &mut o);
            watch(0, None);
            match res {
                Err(e) => errors.push(format!("{}: {e}", f.display())),
                Ok(Ok(())) => {}
                Ok(Err(fl)) => {
                    let sig = sig_clean(&fl.sig);
                    if known
                        .iter()
                        .any(|k| k.property == p.id && k.sub == rf.sub && k.sig == sig)
                    {
                        seen_known.insert(format!("{}/{}", rf.sub, sig), true);
                    } else {
                        violations.push((
                            rf.sub.clone(),
                            fl,
                            Some(f.to_string_lossy().to_string()),
                        ));
                    }
                }
            }
            regress_run += 1;
        }
    }

    // 2. generated search
    let mut all: Vec<(&'static str, SubStats, f64)> = vec![];
    for sub in &p.subs {
        if let Some(o) = &only {
            if !sub.name().contains(o.as_str()) {
                continue;
            }
        }
        let ts = Instant::now();
        let n = ((sub.cases(thorough) as f64) * scale).ceil() as u64;
        let threads = sub.threads().min(n.max(1) as usize);
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let unknown_fails = AtomicUsize::new(0);
        // failures that are hangs take long; a minute of them is enough
        let first_fail = std::sync::OnceLock::<Instant>::new();
        let merged: Mutex<SubStats> = Mutex::new(SubStats::default());
        let known = &known;
        std::thread::scope(|scope| {
            let (next, stop, unknown_fails, merged) = (&next, &stop, &unknown_fails, &merged);
            let first_fail = &first_fail;
            let mut hs = vec![];
            for t in 0..threads {
                let h = std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(scope, move || {
                        let mut st = SubStats::default();
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= n || stop.load(Ordering::SeqCst) {
                                break;
                            }
                            watch(t + 1, Some(Job::Case(sub.name(), i)));
                            let mut s = Src::random(
                                case_seed(seed, p.id, sub.name(), i),
                                thorough,
                            );
                            let mut o = Obs::default();
                            let (json, r) = sub.run(&mut s, &mut o, true);
                            watch(t + 1, None);
                            st.evals += 1;
                            for (k, v) in &o.labels {
                                *st.labels.entry(k).or_insert(0) += v;
                            }
                            st.inconclusive += o.inconclusive as u64;
                            st.excluded += o.excluded;
                            if o.nontrivial {
                                let j = json.unwrap_or_default();
                                st.nontrivial.insert(hash64(j.as_bytes()));
                                if st.samples.len() < 3 {
                                    let mut j = j;
                                    if j.len() > 1500 {
                                        let mut k = 1500;
                                        while !j.is_char_boundary(k) {
                                            k -= 1;
                                        }
                                        j.truncate(k);
                                        j.push_str("...");
                                    }
                                    st.samples.insert(i, j);
                                }
                            }
                            if let Err(f) = r {
                                let sig = sig_clean(&f.sig);
                                if known.iter().any(|k| {
                                    k.property == p.id && k.sub == sub.name() && k.sig == sig
                                }) {
                                    *st.suppressed.entry(sig).or_insert(0) += 1;
                                } else {
                                    let since = first_fail.get_or_init(Instant::now).elapsed();
                                    if unknown_fails.fetch_add(1, Ordering::SeqCst) > 40 || since > Duration::from_secs(60) {
                                        stop.store(true, Ordering::SeqCst);
                                    }
                                    let e = st.failures.entry(sig).or_insert(Failure {
                                        index: i,
                                        tape: s.tape.clone(),
                                        fail: f.clone(),
                                    });
                                    if i < e.index {
                                        *e = Failure {
                                            index: i,
                                            tape: s.tape.clone(),
                                            fail: f,
                                        };
                                    }
                                }
                            }
                        }
                        let mut m = merged.lock().unwrap();
                        m.evals += st.evals;
                        m.inconclusive += st.inconclusive;
                        m.excluded += st.excluded;
                        m.nontrivial.extend(st.nontrivial);
                        for (k, v) in st.labels {
                            *m.labels.entry(k).or_insert(0) += v;
                        }
                        m.samples.extend(st.samples);
                        for (k, v) in st.suppressed {
                            *m.suppressed.entry(k).or_insert(0) += v;
                        }
                        for (k, f) in st.failures {
                            match m.failures.get(&k) {
                                Some(e) if e.index <= f.index => {}
                                _ => {
                                    m.failures.insert(k, f);
                                }
                            }
                        }
                    })
                    .unwrap();
                hs.push(h);
            }
            for h in hs {
                let _ = h.join();
            }
        });
        let st = merged.into_inner().unwrap();
        for sig in st.suppressed.keys() {
            seen_known.insert(format!("{}/{}", sub.name(), sig), true);
        }
        // 3. shrink
        for (sig, f) in st.failures.iter().take(4) {
            let mut s = Src::replay(f.tape.clone(), thorough);
            let whole = save_replay(&root, p.id, sub.name(), sig, &f.fail.msg, seed, &sub.case_json(&mut s));
            watch(0, Some(Job::File(whole)));
            let tape = shrink(sub.as_ref(), &f.tape, sig, thorough);
            watch(0, None);
            // confirm from a fresh run: the shrunk case first, else the original
            let mut found = None;
            for t in [&tape, &tape, &f.tape, &f.tape, &f.tape] {
                let mut s = Src::replay(t.clone(), thorough);
                let (json, r) = sub.run(&mut s, &mut Obs::default(), true);
                if let Err(fl) = r {
                    if sig_clean(&fl.sig) == *sig {
                        found = Some((json, fl));
                        break;
                    }
                }
            }
            // a race may need the load of the first time
            if found.is_none() && sub.threads() > 1 {
                let again: Mutex<Option<(Option<String>, Fail)>> = Mutex::new(None);
                let until = Instant::now() + Duration::from_secs(60);
                std::thread::scope(|sc| {
                    for _ in 0..sub.threads().min(24) {
                        sc.spawn(|| {
                            for _ in 0..10 {
                                if again.lock().unwrap().is_some() || Instant::now() > until {
                                    break;
                                }
                                let mut s = Src::replay(f.tape.clone(), thorough);
                                let (json, r) = sub.run(&mut s, &mut Obs::default(), true);
                                if let Err(fl) = r {
                                    let g = sig_clean(&fl.sig);
                                    if !known.iter().any(|k| k.property == p.id && k.sub == sub.name() && k.sig == g) {
                                        again.lock().unwrap().get_or_insert((json, fl));
                                    }
                                }
                            }
                        });
                    }
                });
                found = again.into_inner().unwrap();
            }
            let confirmed = found.is_some();
            let (json, fl) = found.unwrap_or((None, f.fail.clone()));
            if !confirmed {
                eprintln!("{}", format!(
                    "WARNING: case {} of {}/{} failed once with [{}] {} but not again",
                    f.index,
                    p.id,
                    sub.name(),
                    sig,
                    f.fail.msg
                ));
                continue;
            }
            let path = save_replay(&root, p.id, sub.name(), sig, &fl.msg, seed, json.as_deref().unwrap_or("null"));
            violations.push((
                sub.name().to_string(),
                fl,
                Some(path),
            ));
        }
        all.push((sub.name(), st, ts.elapsed().as_secs_f64()));
    }

    // 4. report
    for k in known.iter().filter(|k| k.property == p.id) {
        if seen_known.contains_key(&format!("{}/{}", k.sub, k.sig)) {
            println!("KNOWN-FINDING: property={} {}", p.id, k.what);
        }
    }
    let evals: u64 = all.iter().map(|(_, s, _)| s.evals).sum();
    let dn: u64 = all.iter().map(|(_, s, _)| s.nontrivial.len() as u64).sum();
    let mut samples = vec![];
    let mut subs = serde_json::Map::new();
    for (name, s, w) in &all {
        for (i, j) in s.samples.iter().take(2) {
            samples.push(format!("{name}#{i}: {j}"));
        }
        subs.insert(
            name.to_string(),
            serde_json::json!({
                "evaluations": s.evals,
                "distinct_nontrivial": s.nontrivial.len(),
                "inconclusive": s.inconclusive,
                "excluded_by_known_finding": s.excluded,
                "known_finding_hits": s.suppressed,
                "classes": s.labels,
                "wall_s": w,
            }),
        );
        println!(
            "{}/{}: {} cases, {} distinct non-trivial, {} inconclusive, {:.1}s  {:?}",
            p.id,
            name,
            s.evals,
            s.nontrivial.len(),
            s.inconclusive,
            w,
            s.labels
        );
    }
    let ev = serde_json::json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": dn,
            "rule": p.rule,
            "samples": samples,
            "replayed_regressions": regress_run,
            "sub_checks": subs,
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let evdir = root.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(
        evdir.join(format!("{}.json", p.id)),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .unwrap();
    for (sub, f, path) in &violations {
        println!("  [{sub}] {}: {}", f.sig, f.msg);
        println!(
            "VIOLATION property={} replay={}",
            p.id,
            path.as_deref().unwrap_or("-")
        );
    }
    for e in &errors {
        eprintln!("ERROR {e}");
    }
    if !violations.is_empty() {
        return 1;
    }
    if HARNESS_PANIC.load(Ordering::SeqCst) {
        eprintln!("ERROR the harness itself panicked");
        return 2;
    }
    if !errors.is_empty() {
        return 2;
    }
    let tot_inc: u64 = all.iter().map(|(_, s, _)| s.inconclusive).sum();
    if evals > 0 && tot_inc * 2 > evals {
        eprintln!("ERROR more than half of the cases were inconclusive");
        return 2;
    }
    0
}

fn shrink(sub: &dyn SubDyn, tape: &[u64], sig: &str, thorough: bool) -> Vec<u64> {
    // many kinds of failure must not use up the time a check has
    static TOTAL: AtomicU64 = AtomicU64::new(0);
    let t0 = Instant::now();
    let limit = Duration::from_secs(45).min(Duration::from_secs(150u64.saturating_sub(TOTAL.load(Ordering::SeqCst))));
    let mut best = tape.to_vec();
    let runs = std::cell::Cell::new(0usize);
    let try_tape = |cand: Vec<u64>, best: &mut Vec<u64>| -> bool {
        if runs.get() > 4000 || t0.elapsed() > limit {
            return false;
        }
        runs.set(runs.get() + 1);
        let mut s = Src::replay(cand, thorough);
        let mut o = Obs::default();
        let (_, r) = sub.run(&mut s, &mut o, false);
        if let Err(f) = r {
            if sig_clean(&f.sig) == sig {
                let used = s.tape;
                let better = used.len() < best.len()
                    || (used.len() == best.len() && used < *best);
                if better {
                    *best = used;
                    return true;
                }
            }
        }
        false
    };
    loop {
        let before = best.clone();
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                let mut c = best.clone();
                c.drain(i..end);
                if !try_tape(c, &mut best) {
                    let mut c = best.clone();
                    let e2 = (i + size).min(c.len());
                    let mut changed = false;
                    for x in &mut c[i.min(e2)..e2] {
                        if *x != 0 {
                            changed = true;
                        }
                        *x = 0;
                    }
                    if changed {
                        try_tape(c, &mut best);
                    }
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                if i >= c.len() {
                    break;
                }
                c[i] = mid;
                if try_tape(c, &mut best) {
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
                if i >= best.len() {
                    break;
                }
            }
            i += 1;
        }
        if best == before || runs.get() > 4000 || t0.elapsed() > limit {
            TOTAL.fetch_add(t0.elapsed().as_secs(), Ordering::SeqCst);
            return best;
        }
    }
}

/// Replays a saved case, bypassing generation.
pub fn replay_file(props: &[Property], path: &str) -> i32 {
    let rf: ReplayFile = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let Some(p) = props.iter().find(|p| p.id == rf.property) else {
        eprintln!("unknown property {}", rf.property);
        return 2;
    };
    let Some(sub) = p.subs.iter().find(|s| s.name() == rf.sub) else {
        eprintln!("unknown sub-check {}", rf.sub);
        return 2;
    };
    match sub.run_json(&rf.case.to_string(), &mut Obs::default()) {
        Err(e) => {
            eprintln!("cannot read case: {e}");
            2
        }
        Ok(Ok(())) => {
            println!("held: {} {}", rf.property, rf.sub);
            0
        }
        Ok(Err(f)) => {
            println!("  [{}] {}: {}", rf.sub, f.sig, f.msg);
            println!("VIOLATION property={} replay={}", rf.property, path);
            1
        }
    }
}
