//! The property-based testing engine.
//!
//! A check is a list of sections.  A section is a function that draws one case from a choice
//! source (`Src`), calls the code under test, and judges the result with an oracle.  Every random
//! choice comes from the source, so a case is replayed from the recorded choices and shrunk by
//! editing them (deleting, zeroing, lowering), whatever the type of the case.
//!
//! Case `i` of a section depends on (VERIF_SEED, section, i) only, not on threads or timing.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::fs;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- choice source

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
}
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    // FNV-1a over the Hash stream: the same in every run and on every platform.
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            mix(self.0)
        }
        fn write(&mut self, b: &[u8]) {
            for &x in b {
                self.0 = (self.0 ^ x as u64).wrapping_mul(0x100_0000_01b3);
            }
        }
    }
    let mut f = F(0xcbf2_9ce4_8422_2325);
    t.hash(&mut f);
    f.finish()
}

pub struct Src {
    rng: Option<Rng>,
    data: Vec<u64>,
    pos: usize,
    log: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { rng: Some(Rng::new(seed)), data: vec![], pos: 0, log: vec![] }
    }
    pub fn replay(data: Vec<u64>) -> Src {
        Src { rng: None, data, pos: 0, log: vec![] }
    }
    /// A choice in `0..n`.  0 is the simplest one.
    pub fn raw(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &mut self.rng {
            Some(r) => ((r.next() as u128 * n as u128) >> 64) as u64,
            None => {
                let v = self.data.get(self.pos).copied().unwrap_or(0);
                if v < n {
                    v
                } else {
                    v % n
                }
            }
        };
        self.pos += 1;
        self.log.push(v);
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.raw(n as u64) as usize
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.raw(hi - lo + 1)
    }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.raw(2) == 1
    }
    /// True with probability num/den; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.raw(den) >= den - num
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())].clone()
    }
    /// Index drawn with the given weights.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = self.raw(total as u64) as u32;
        for (i, &x) in w.iter().enumerate() {
            if v < x {
                return i;
            }
            v -= x;
        }
        unreachable!()
    }
    /// A list of about `avg` elements, at most `max`.
    pub fn list<T>(&mut self, avg: usize, max: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        let mut out = vec![];
        while out.len() < max && self.raw(avg as u64 + 1) != 0 {
            out.push(f(self));
        }
        out
    }
    /// Any Unicode scalar value.
    pub fn any_char(&mut self) -> char {
        let v = self.raw(0x11_0000 - 0x800) as u32;
        char::from_u32(if v >= 0xD800 { v + 0x800 } else { v }).unwrap()
    }
}

// ---------------------------------------------------------------- reporting from a case

pub type Res = Result<(), String>;

pub struct Rep {
    pub verbose: bool,
    desc: String,
    hash: u64,
    nontrivial: bool,
    classes: Vec<&'static str>,
    known: Vec<(&'static str, String)>,
    excluded: Vec<&'static str>,
    evals: u64,
}

impl Rep {
    fn new(verbose: bool) -> Rep {
        Rep {
            verbose,
            desc: String::new(),
            hash: 0,
            nontrivial: false,
            classes: vec![],
            known: vec![],
            excluded: vec![],
            evals: 1,
        }
    }
    /// Names the case: what is counted as distinct, and what is printed.
    pub fn case<T: Hash + Debug + ?Sized>(&mut self, t: &T) {
        self.hash = hash_of(t);
        if self.verbose {
            self.desc = format!("{:?}", t);
        }
    }
    pub fn note(&mut self, s: impl FnOnce() -> String) {
        if self.verbose {
            self.desc.push_str(&s());
        }
    }
    pub fn nontrivial(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    pub fn class(&mut self, c: &'static str) {
        self.classes.push(c);
    }
    /// This case shows the recorded defect `key` (it must be listed in the known-findings file).
    pub fn known(&mut self, key: &'static str, detail: String) {
        self.known.push((key, detail));
    }
    /// This case was cut down because it would run into `key`, which is recorded; counted.
    pub fn excluded(&mut self, key: &'static str) {
        self.excluded.push(key);
    }
    /// More than one input was tried in this case.
    pub fn evals(&mut self, n: u64) {
        self.evals = n;
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)); }
    }};
}

// ---------------------------------------------------------------- sections and checks

pub type RunFn = Box<dyn Fn(&mut Src, &mut Rep) -> Res + Sync + Send>;

pub struct Section {
    pub name: &'static str,
    pub run: RunFn,
    /// Number of cases: quick, thorough.  For an exhaustive section both are the size of the space.
    pub cases: (u64, u64),
    pub exhaustive: bool,
    /// 1 for sections that start processes or threads of their own
    pub threads: usize,
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub sections: Vec<Section>,
}

impl Check {
    pub fn new(id: &'static str, rule: &'static str) -> Check {
        Check { id, rule, assumptions: vec![], sections: vec![] }
    }
    pub fn assume(mut self, a: &'static str) -> Check {
        self.assumptions.push(a);
        self
    }
    pub fn random(
        mut self,
        name: &'static str,
        quick: u64,
        thorough: u64,
        run: impl Fn(&mut Src, &mut Rep) -> Res + Sync + Send + 'static,
    ) -> Check {
        self.sections.push(Section {
            name,
            run: Box::new(run),
            cases: (quick, thorough),
            exhaustive: false,
            threads: 8,
        });
        self
    }
    pub fn single_threaded(mut self) -> Check {
        self.sections.last_mut().unwrap().threads = 1;
        self
    }
    /// Every `i` in `0..n`: the section draws `src.raw(n)` first and nothing else.
    pub fn exhaustive(
        mut self,
        name: &'static str,
        n: u64,
        run: impl Fn(u64, &mut Rep) -> Res + Sync + Send + 'static,
    ) -> Check {
        self.sections.push(Section {
            name,
            run: Box::new(move |s, r| {
                let i = s.raw(n);
                run(i, r)
            }),
            cases: (n, n),
            exhaustive: true,
            threads: 8,
        });
        self
    }
    /// Every Unicode scalar value.
    pub fn every_char(
        self,
        name: &'static str,
        run: impl Fn(char, &mut Rep) -> Res + Sync + Send + 'static,
    ) -> Check {
        self.exhaustive(name, 0x11_0000 - 0x800, move |i, r| {
            let v = i as u32;
            run(char::from_u32(if v >= 0xD800 { v + 0x800 } else { v }).unwrap(), r)
        })
    }
}

// ---------------------------------------------------------------- running

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static IN_CASE: Cell<bool> = const { Cell::new(false) };
}

fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_CASE.with(|c| c.get()) {
            let m = msg_of(info.payload());
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, loc));
        } else {
            old(info)
        }
    }));
}
fn msg_of(p: &dyn Any) -> String {
    p.downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "?".into())
}

/// One of two sizes, by the tier.
pub fn tier<T>(quick: T, thorough: T) -> T {
    if std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) {
        thorough
    } else {
        quick
    }
}

/// Runs tested code that may panic, and says where it did.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = IN_CASE.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|c| c.set(was));
    r.map_err(|_| format!("panicked: {}", PANIC.with(|p| p.borrow().clone())))
}

fn run_case(sec: &Section, src: &mut Src, verbose: bool) -> (Res, Rep) {
    let mut rep = Rep::new(verbose);
    let r = match catch(|| (sec.run)(src, &mut rep)) {
        Ok(r) => r,
        Err(p) => Err(p),
    };
    (r, rep)
}

fn source_for(seed: u64, sec: &Section, i: u64) -> Src {
    if sec.exhaustive {
        Src::replay(vec![i])
    } else {
        Src::random(mix(seed ^ mix(hash_of(sec.name) ^ mix(i))))
    }
}

pub struct Failure {
    pub section: &'static str,
    pub choices: Vec<u64>,
    pub case: String,
    pub message: String,
}

fn shrink(sec: &Section, choices: Vec<u64>, known: &dyn Fn(&Rep) -> Option<String>, seq: &AtomicU64) -> (Vec<u64>, String, String) {
    let start = Instant::now();
    let mut budget = 6000usize;
    let attempt = |c: &[u64]| -> Option<(Vec<u64>, String, String)> {
        seq.fetch_add(1, SeqCst);
        let mut s = Src::replay(c.to_vec());
        let (r, rep) = run_case(sec, &mut s, true);
        let r = match r {
            Err(m) => Some(m),
            Ok(()) => known(&rep),
        };
        r.map(|m| (s.log, rep.desc, m))
    };
    let mut best = match attempt(&choices) {
        Some(b) => b,
        None => return (choices, "?".into(), "does not fail again when replayed".into()),
    };
    if sec.exhaustive {
        return best;
    }
    let smaller = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    loop {
        let before = best.0.clone();
        let mut chunk = best.0.len().min(64).max(1);
        while chunk >= 1 {
            let mut i = 0;
            while i < best.0.len() {
                if budget == 0 || start.elapsed() > Duration::from_secs(40) {
                    return best;
                }
                let end = (i + chunk).min(best.0.len());
                // delete
                let mut c = best.0.clone();
                c.drain(i..end);
                budget = budget.saturating_sub(1);
                if let Some(b) = attempt(&c) {
                    if smaller(&b.0, &best.0) {
                        best = b;
                        continue;
                    }
                }
                // zero
                if best.0[i..end].iter().any(|&x| x != 0) {
                    let mut c = best.0.clone();
                    c[i..end].iter_mut().for_each(|x| *x = 0);
                    budget = budget.saturating_sub(1);
                    if let Some(b) = attempt(&c) {
                        if smaller(&b.0, &best.0) {
                            best = b;
                        }
                    }
                }
                i += chunk;
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        for i in 0..best.0.len() {
            let mut lo = 0u64;
            while i < best.0.len() && lo < best.0[i] && budget > 0 {
                let mid = lo + (best.0[i] - lo) / 2;
                let mut c = best.0.clone();
                c[i] = mid;
                budget = budget.saturating_sub(1);
                match attempt(&c) {
                    Some(b) if smaller(&b.0, &best.0) => best = b,
                    _ => lo = mid + 1,
                }
            }
        }
        if best.0 == before || budget == 0 {
            return best;
        }
    }
}

#[derive(Default)]
struct Stats {
    evals: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    known: BTreeMap<&'static str, (u64, String)>,
    excluded: BTreeMap<&'static str, u64>,
    samples: Vec<(u64, String)>,
}
impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.nontrivial += o.nontrivial;
        self.distinct.extend(o.distinct);
        for (k, v) in o.classes {
            *self.classes.entry(k).or_default() += v;
        }
        for (k, v) in o.known {
            let e = self.known.entry(k).or_insert((0, v.1.clone()));
            e.0 += v.0;
            if v.1.len() < e.1.len() || (v.1.len() == e.1.len() && v.1 < e.1) {
                e.1 = v.1;
            }
        }
        for (k, v) in o.excluded {
            *self.excluded.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
    }
}

pub struct Config {
    pub seed: u64,
    pub thorough: bool,
    pub root: PathBuf,
    pub listed: HashSet<String>,
    pub scale: f64,
}

const CPU_LIMIT_TICKS: u64 = 3000; // 30 s of CPU time (100 ticks a second) for one case
pub const EXIT_HANG: i32 = 77;

fn thread_ticks(tid: u64) -> Option<u64> {
    let s = fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?)
}
fn own_tid() -> u64 {
    fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|n| n.to_str().and_then(|n| n.parse().ok())))
        .unwrap_or(0)
}

struct Slot {
    tid: AtomicU64,
    seq: AtomicU64, // 0: idle
}

/// Ends the process with EXIT_HANG when one case uses more than 30 s of CPU time.
fn watchdog(slots: &'static [Slot]) {
    std::thread::spawn(move || {
        let mut seen: Vec<(u64, u64)> = vec![(0, 0); slots.len()];
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for (i, s) in slots.iter().enumerate() {
                let (tid, seq) = (s.tid.load(SeqCst), s.seq.load(SeqCst));
                if tid == 0 || seq == 0 {
                    seen[i].0 = 0;
                    continue;
                }
                let t = match thread_ticks(tid) {
                    Some(t) => t,
                    None => continue,
                };
                if seen[i].0 != seq {
                    seen[i] = (seq, t);
                } else if t.saturating_sub(seen[i].1) > CPU_LIMIT_TICKS {
                    // while shrinking, the violation has been reported already
                    std::process::exit(if SHRINKING.load(SeqCst) { 1 } else { EXIT_HANG });
                }
            }
        }
    });
}

const NSLOTS: usize = 8;

fn run_section(
    cfg: &Config,
    check: &Check,
    sidx: usize,
    slots: &'static [Slot],
    inflight: &fs::File,
) -> (Stats, Option<Failure>) {
    let sec = &check.sections[sidx];
    let mut n = if cfg.thorough { sec.cases.1 } else { sec.cases.0 };
    if !sec.exhaustive {
        n = ((n as f64 * cfg.scale) as u64).max(1);
    }
    let next = AtomicU64::new(0);
    let limit = AtomicU64::new(n);
    let fails: Mutex<Vec<(u64, Vec<u64>)>> = Mutex::new(vec![]);
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    let unlisted = |rep: &Rep| -> Option<String> {
        rep.known
            .iter()
            .find(|(k, _)| !cfg.listed.contains(&format!("{} {}", check.id, k)))
            .map(|(k, d)| format!("[{}] {}", k, d))
    };
    let threads = sec.threads.min(NSLOTS);
    std::thread::scope(|sc| {
        for slot_idx in 0..threads {
            let (next, limit, fails, total, unlisted) = (&next, &limit, &fails, &total, &unlisted);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || {
                    let slot = &slots[slot_idx];
                    slot.tid.store(own_tid(), SeqCst);
                    let mut st = Stats::default();
                    let step = (n / 2000).clamp(1, 256);
                    'outer: loop {
                        let base = next.fetch_add(step, SeqCst);
                        if base >= n {
                            break;
                        }
                        for i in base..(base + step).min(n) {
                            if i >= limit.load(Relaxed) {
                                break 'outer;
                            }
                            let mut b = [0u8; 16];
                            b[..8].copy_from_slice(&(sidx as u64 + 1).to_le_bytes());
                            b[8..].copy_from_slice(&i.to_le_bytes());
                            let _ = inflight.write_at(&b, slot_idx as u64 * 16);
                            slot.seq.fetch_add(1, SeqCst);
                            let mut src = source_for(cfg.seed, sec, i);
                            let verbose = i < 60 || (sec.exhaustive && i % (n / 16 + 1) == 0);
                            let (r, rep) = run_case(sec, &mut src, verbose);
                            st.evals += rep.evals;
                            if rep.nontrivial {
                                st.nontrivial += 1;
                                if !sec.exhaustive {
                                    st.distinct.insert(rep.hash);
                                }
                                if verbose && st.samples.len() < 8 {
                                    st.samples.push((i, rep.desc.clone()));
                                }
                            }
                            for c in &rep.classes {
                                *st.classes.entry(c).or_default() += 1;
                            }
                            for c in &rep.excluded {
                                *st.excluded.entry(c).or_default() += 1;
                            }
                            let bad = match r {
                                Err(_) => true,
                                Ok(()) => unlisted(&rep).is_some(),
                            };
                            if bad {
                                limit.fetch_min(i, SeqCst);
                                fails.lock().unwrap().push((i, src.log));
                            } else {
                                for (k, d) in rep.known {
                                    let e = st.known.entry(k).or_insert((0, d.clone()));
                                    e.0 += 1;
                                    if d.len() < e.1.len() || (d.len() == e.1.len() && d < e.1) {
                                        e.1 = d;
                                    }
                                }
                            }
                        }
                    }
                    slot.tid.store(0, SeqCst);
                    let _ = inflight.write_at(&[0u8; 16], slot_idx as u64 * 16);
                    total.lock().unwrap().merge(st);
                })
                .unwrap();
        }
    });
    let mut st = total.into_inner().unwrap();
    if sec.exhaustive {
        // every case is a different one
        st.distinct = HashSet::new();
    }
    st.samples.sort();
    st.samples.dedup();
    let mut fails = fails.into_inner().unwrap();
    fails.sort();
    let fail = fails.into_iter().next().map(|(_, choices)| {
        // Report the case as found first; the shrunk one replaces it.
        let mut src = Src::replay(choices.clone());
        let (r, rep) = run_case(sec, &mut src, true);
        let message = r.err().or_else(|| unlisted(&rep)).unwrap_or_else(|| "does not fail again".into());
        let f = Failure { section: sec.name, choices: choices.clone(), case: rep.desc, message };
        violation(cfg, check, &f);
        SHRINKING.store(true, SeqCst);
        slots[0].tid.store(own_tid(), SeqCst);
        let (choices, case, message) = shrink(sec, choices, &unlisted, &slots[0].seq);
        slots[0].tid.store(0, SeqCst);
        let f = Failure { section: sec.name, choices, case, message };
        let p = write_replay(cfg, check, &f);
        println!("# shrunk: {}", f.message);
        println!("#   case: {} ({})", clip(&f.case, 1500), p.display());
        f
    });
    (st, fail)
}

pub fn js(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "…"
    }
}

fn write_replay(cfg: &Config, check: &Check, f: &Failure) -> PathBuf {
    let dir = cfg.root.join("evidence").join("replay");
    let _ = fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{}.json", check.id, f.section));
    let v = serde_json::json!({
        "property": check.id, "section": f.section, "choices": f.choices,
        "case": f.case, "message": f.message,
        "replay_with": format!("/verif/run.sh {} --replay {}", check.id, p.display()),
    });
    fs::write(&p, serde_json::to_string_pretty(&v).unwrap() + "\n").expect("write replay");
    p
}

fn violation(cfg: &Config, check: &Check, f: &Failure) {
    let p = write_replay(cfg, check, f);
    println!("# {} section {}: {}", check.id, f.section, f.message);
    println!("#   case: {}", clip(&f.case, 1500));
    println!("VIOLATION property={} replay={}", check.id, p.display());
}

fn read_inflight(p: &Path) -> Vec<(usize, u64)> {
    let b = fs::read(p).unwrap_or_default();
    b.chunks_exact(16)
        .filter_map(|c| {
            let s = u64::from_le_bytes(c[..8].try_into().unwrap());
            let i = u64::from_le_bytes(c[8..].try_into().unwrap());
            if s > 0 {
                Some((s as usize - 1, i))
            } else {
                None
            }
        })
        .collect()
}

pub fn load_listed(root: &Path) -> HashSet<String> {
    // lines: "finding: property=C09 key=<key> <description>"
    let mut out = HashSet::new();
    for l in fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("finding: property=") {
            let mut w = r.split_whitespace();
            if let (Some(p), Some(k)) = (w.next(), w.next().and_then(|k| k.strip_prefix("key="))) {
                out.insert(format!("{} {}", p, k));
            }
        }
    }
    out
}

/// The worker: runs all sections, writes the evidence, returns the exit code.
fn worker(cfg: &Config, check: &Check, inflight_path: &Path) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let slots: &'static [Slot] = Box::leak(
        (0..NSLOTS)
            .map(|_| Slot { tid: AtomicU64::new(0), seq: AtomicU64::new(0) })
            .collect::<Vec<_>>()
            .into_boxed_slice(),
    );
    watchdog(slots);
    let inflight = fs::File::create(inflight_path).expect("inflight file");
    let mut sections = serde_json::Map::new();
    let (mut evals, mut distinct) = (0u64, 0u64);
    let mut samples: Vec<serde_json::Value> = vec![];
    let mut known: BTreeMap<&'static str, (u64, String)> = BTreeMap::new();
    let mut failures = vec![];
    for sidx in 0..check.sections.len() {
        let ts = Instant::now();
        let sec = &check.sections[sidx];
        let (st, fail) = run_section(cfg, check, sidx, slots, &inflight);
        let d = if sec.exhaustive { st.nontrivial } else { st.distinct.len() as u64 };
        evals += st.evals;
        distinct += d;
        for (_, s) in st.samples.iter().take(3) {
            samples.push(serde_json::json!({"section": sec.name, "case": clip(s, 400)}));
        }
        let mut o = serde_json::json!({
            "evaluations": st.evals, "nontrivial": st.nontrivial, "distinct_nontrivial": d,
            "enumerated_completely": sec.exhaustive && fail.is_none(),
            "seconds": ts.elapsed().as_secs_f64(),
        });
        if !st.classes.is_empty() {
            o["classes"] = serde_json::json!(st.classes);
        }
        if !st.excluded.is_empty() {
            o["excluded_because_recorded"] = serde_json::json!(st.excluded);
        }
        eprintln!(
            "  {:<26} {:>9} cases, {:>9} non-trivial, {:>9} distinct, {:.1}s {}",
            sec.name,
            st.evals,
            st.nontrivial,
            d,
            ts.elapsed().as_secs_f64(),
            st.classes.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(" ")
        );
        for (k, v) in st.known {
            o["known_findings"][k] = serde_json::json!(v.0);
            let e = known.entry(k).or_insert((0, v.1.clone()));
            e.0 += v.0;
        }
        sections.insert(sec.name.to_string(), o);
        if let Some(f) = fail {
            failures.push(f);
            break;
        }
    }
    for (k, (n, d)) in &known {
        println!("KNOWN-FINDING: property={} {}: {} ({} cases)", check.id, k, clip(d, 600), n);
    }
    write_evidence(cfg, check, evals, distinct, samples, sections, failures.len(), t0.elapsed().as_secs_f64());
    if failures.is_empty() {
        0
    } else {
        1
    }
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    cfg: &Config,
    check: &Check,
    evals: u64,
    distinct: u64,
    samples: Vec<serde_json::Value>,
    sections: serde_json::Map<String, serde_json::Value>,
    violations: usize,
    wall: f64,
) {
    let exhaustive = check.sections.iter().all(|s| s.exhaustive);
    let ev = serde_json::json!({
        "property": check.id,
        "tier": if cfg.thorough { "thorough" } else { "quick" },
        "seed": cfg.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct,
            "rule": check.rule,
            "samples": samples,
            "exhaustive": exhaustive && violations == 0,
            "sections": sections,
        },
        "assumptions": check.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let dir = cfg.root.join("evidence");
    let _ = fs::create_dir_all(&dir);
    fs::write(
        dir.join(format!("{}.json", check.id)),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    )
    .expect("write evidence");
}

static SHRINKING: AtomicBool = AtomicBool::new(false);

/// Runs one case alone (used to confirm that a case kills or hangs the process).
fn one_case(cfg: &Config, check: &Check, sidx: usize, i: u64) -> i32 {
    install_hook();
    let slots: &'static [Slot] = Box::leak(vec![Slot { tid: AtomicU64::new(0), seq: AtomicU64::new(1) }].into_boxed_slice());
    watchdog(slots);
    let sec = &check.sections[sidx];
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(sc, || {
                slots[0].tid.store(own_tid(), SeqCst);
                let mut src = source_for(cfg.seed, sec, i);
                let (r, rep) = run_case(sec, &mut src, true);
                println!("case: {}", rep.desc);
                println!("result: {:?}", r);
                slots[0].tid.store(0, SeqCst);
            })
            .unwrap();
    });
    0
}

fn replay(cfg: &Config, check: &Check, path: &str) -> i32 {
    install_hook();
    let v: serde_json::Value = serde_json::from_str(&fs::read_to_string(path).expect("replay file")).expect("json");
    let name = v["section"].as_str().unwrap();
    let sec = check.sections.iter().find(|s| s.name == name).expect("section");
    let mut src = if let Some(i) = v["index"].as_u64() {
        source_for(v["seed"].as_u64().unwrap_or(cfg.seed), sec, i)
    } else {
        Src::replay(v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect())
    };
    let (r, rep) = run_case(sec, &mut src, true);
    println!("case: {}", rep.desc);
    for (k, d) in &rep.known {
        println!("known: {} {}", k, d);
    }
    match r {
        Ok(()) => {
            println!("holds");
            0
        }
        Err(m) => {
            println!("fails: {}", m);
            println!("VIOLATION property={} replay={}", check.id, path);
            1
        }
    }
}

pub fn main_with(checks: &dyn Fn(&str) -> Option<Check>, args: &[String]) -> i32 {
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let cfg = Config { seed, thorough, listed: load_listed(&root), root, scale };
    let id = &args[0];
    let check = match checks(id) {
        Some(c) => c,
        None => {
            eprintln!("no check {}", id);
            return 2;
        }
    };
    let opt = |n: &str| args.iter().position(|a| a == n).map(|p| args[p + 1].clone());
    if let Some(p) = opt("--replay") {
        return replay(&cfg, &check, &p);
    }
    if let Some(p) = opt("--worker") {
        return worker(&cfg, &check, Path::new(&p));
    }
    if let Some(p) = opt("--case") {
        let (s, i) = p.split_once(':').unwrap();
        return one_case(&cfg, &check, s.parse().unwrap(), i.parse().unwrap());
    }
    // Supervisor: the tested code runs in a child, so that a crash (stack overflow, abort) or a
    // hang of one case can be pinned on that case.
    let exe = std::env::current_exe().expect("exe");
    let inflight = cfg.root.join("evidence").join(format!(".inflight-{}-{}", id, std::process::id()));
    let _ = fs::create_dir_all(inflight.parent().unwrap());
    let ev = cfg.root.join("evidence").join(format!("{}.json", id));
    let _ = fs::remove_file(&ev);
    let st = std::process::Command::new(&exe)
        .arg(id)
        .arg("--worker")
        .arg(&inflight)
        .status()
        .expect("worker");
    let mut code = match st.code() {
        Some(0) => 0,
        Some(1) => 1,
        c => {
            let mut out = 3;
            for (s, i) in read_inflight(&inflight) {
                let o = std::process::Command::new(&exe)
                    .arg(id)
                    .arg("--case")
                    .arg(format!("{}:{}", s, i))
                    .output()
                    .expect("case");
                if o.status.code() != Some(0) {
                    let what = if o.status.code() == Some(EXIT_HANG) {
                        "the case does not end: over 30 s of CPU time, twice".to_string()
                    } else {
                        format!("the case ends the process ({}), twice", o.status)
                    };
                    let f = Failure {
                        section: check.sections[s].name,
                        choices: vec![],
                        case: format!("seed {} section {} index {}", cfg.seed, check.sections[s].name, i),
                        message: format!("{}; {}", what, clip(String::from_utf8_lossy(&o.stderr).trim(), 400)),
                    };
                    let p = write_replay(&cfg, &check, &f);
                    let mut v: serde_json::Value =
                        serde_json::from_str(&fs::read_to_string(&p).unwrap()).unwrap();
                    v["index"] = serde_json::json!(i);
                    v["seed"] = serde_json::json!(cfg.seed);
                    fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).unwrap();
                    println!("# {} section {}: {}", check.id, f.section, f.message);
                    println!("VIOLATION property={} replay={}", check.id, p.display());
                    write_evidence(
                        &cfg,
                        &check,
                        i + 1,
                        0,
                        vec![serde_json::json!(f.case)],
                        serde_json::Map::new(),
                        1,
                        0.0,
                    );
                    out = 1;
                    break;
                }
            }
            if out == 3 {
                eprintln!("worker ended with {:?} and no case does so alone: no answer", c);
            }
            out
        }
    };
    let _ = fs::remove_file(&inflight);
    if code == 0 && !ev.exists() {
        code = 3;
    }
    code
}
