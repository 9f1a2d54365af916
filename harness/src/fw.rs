//! Check framework: seeded proptest runs split in fixed shards, panic capture, crash slots, evidence.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a single case reports about itself.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
}
impl Obs {
    pub fn class(&mut self, c: &'static str) {
        self.classes.push(c);
    }
    pub fn class_if(&mut self, b: bool, c: &'static str) {
        if b {
            self.classes.push(c);
        }
    }
}

#[derive(Default, Clone, Serialize, Deserialize)]
pub struct SubStats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct_nontrivial: u64,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    #[serde(skip)]
    pub seen: HashSet<u64>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Violation {
    pub property: String,
    pub sub: String,
    pub message: String,
    pub case: serde_json::Value,
}

pub trait SubCheck: Send + Sync {
    fn name(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn cases(&self, tier: Tier) -> u32;
    fn run_shard(&self, cx: &RunCx, shard: u32, cases: u32) -> Option<Violation>;
    fn replay(&self, case: &serde_json::Value) -> Result<(), String>;
}

pub struct RunCx<'a> {
    pub property: &'static str,
    pub seed: u64,
    pub stats: &'a Mutex<SubStats>,
    pub stop: &'a AtomicBool,
    pub slot: &'a Slot,
}

pub struct Check<T: 'static> {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub strat: fn() -> BoxedStrategy<T>,
    pub f: fn(&T, &mut Obs) -> Result<(), String>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = payload_str(info.payload());
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
    }));
}

pub fn payload_str(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".into()
    }
}

/// Run a closure, turning a panic into an Err with its message.
pub fn no_panic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            let hook = LAST_PANIC.with(|p| p.borrow_mut().take());
            Err(hook.unwrap_or_else(|| format!("panic (other thread): {}", payload_str(&*e))))
        }
    }
}

pub fn h64<H: Hash + ?Sized>(h: &H) -> u64 {
    // fixed-key hasher: deterministic between runs
    let mut s = std::collections::hash_map::DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}

fn seed_bytes(seed: u64, parts: &str) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        let v = h64(&(seed, parts, i));
        out[i as usize * 8..i as usize * 8 + 8].copy_from_slice(&v.to_le_bytes());
    }
    out
}

impl<T> Check<T>
where
    T: Debug + Clone + Serialize + DeserializeOwned + 'static,
{
    fn eval(&self, v: &T, slot: &Slot, obs: &mut Obs) -> (Result<(), String>, Option<Vec<u8>>) {
        let js = serde_json::to_vec(v).ok();
        if let Some(js) = &js {
            slot.store(self.name, js);
        }
        slot.begin();
        let r = match no_panic(|| (self.f)(v, obs)) {
            Ok(r) => r,
            Err(p) => Err(p),
        };
        slot.end();
        (r, js)
    }
}

impl<T> SubCheck for Check<T>
where
    T: Debug + Clone + Serialize + DeserializeOwned + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        }
    }
    fn run_shard(&self, cx: &RunCx, shard: u32, cases: u32) -> Option<Violation> {
        let rng = TestRng::from_seed(
            RngAlgorithm::ChaCha,
            &seed_bytes(cx.seed, &format!("{}/{}/{}", cx.property, self.name, shard)),
        );
        let config = Config {
            failure_persistence: None,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(config, rng);
        let strat = (self.strat)();
        for _ in 0..cases {
            if cx.stop.load(Ordering::Relaxed) {
                return None;
            }
            let mut tree = match strat.new_tree(&mut runner) {
                Ok(t) => t,
                Err(e) => {
                    return Some(Violation {
                        property: cx.property.into(),
                        sub: self.name.into(),
                        message: format!("HARNESS-ERROR generator failed: {e}"),
                        case: serde_json::Value::Null,
                    })
                }
            };
            let v = tree.current();
            let mut obs = Obs::default();
            let (r, js) = self.eval(&v, cx.slot, &mut obs);
            {
                let mut st = cx.stats.lock().unwrap();
                st.evaluations += 1;
                for c in &obs.classes {
                    *st.classes.entry(c.to_string()).or_default() += 1;
                }
                if obs.nontrivial {
                    st.nontrivial += 1;
                    if let Some(js) = &js {
                        let h = h64(&js[..]);
                        if st.seen.insert(h) {
                            st.distinct_nontrivial += 1;
                            if st.samples.len() < 3 {
                                let s = String::from_utf8_lossy(js);
                                let mut t: String = s.chars().take(900).collect();
                                if t.len() < s.len() {
                                    t.push_str("…");
                                }
                                st.samples.push(serde_json::json!({"sub": self.name, "case": t}));
                            }
                        }
                    }
                }
            }
            if let Err(first) = r {
                cx.stop.store(true, Ordering::Relaxed);
                // shrink
                let mut best = (v, first);
                let start = std::time::Instant::now();
                let mut iters = 0;
                'outer: while iters < 4000 && start.elapsed().as_secs() < 60 {
                    iters += 1;
                    if !tree.simplify() {
                        break;
                    }
                    loop {
                        let cand = tree.current();
                        let mut o = Obs::default();
                        let (r, _) = self.eval(&cand, cx.slot, &mut o);
                        match r {
                            Err(m) => {
                                best = (cand, m);
                                break;
                            }
                            Ok(()) => {
                                iters += 1;
                                if iters >= 4000 || start.elapsed().as_secs() >= 60 || !tree.complicate() {
                                    break 'outer;
                                }
                            }
                        }
                    }
                }
                return Some(Violation {
                    property: cx.property.into(),
                    sub: self.name.into(),
                    message: best.1,
                    case: serde_json::to_value(&best.0).unwrap_or(serde_json::Value::Null),
                });
            }
        }
        None
    }
    fn replay(&self, case: &serde_json::Value) -> Result<(), String> {
        let v: T = serde_json::from_value(case.clone()).map_err(|e| format!("HARNESS-ERROR bad replay case: {e}"))?;
        let mut obs = Obs::default();
        match no_panic(|| (self.f)(&v, &mut obs)) {
            Ok(r) => r,
            Err(p) => Err(p),
        }
    }
}

pub struct Property {
    pub id: &'static str,
    pub subs: Vec<Box<dyn SubCheck>>,
    pub assumptions: &'static [&'static str],
    /// how many worker threads may run shards (1 = serial)
    pub threads: usize,
}

// ------------------------------------------------------------------ crash slots

/// A memory-mapped file the current case is written into, so that an abort
/// (stack overflow, allocation failure) can be attributed by the parent.
pub struct Slot {
    ptr: *mut u8,
    len: usize,
    /// when the case being evaluated began (ms since the epoch), 0 between cases
    since: AtomicU64,
}

fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_millis() as u64).unwrap_or(0)
}
/// A case takes milliseconds (the 2^32 searches of C03: about 10 s on 8 idle cores, more when other
/// processes compete for them); one that has not answered by then never will.
pub const HANG_SECS: u64 = 200;
unsafe impl Send for Slot {}
unsafe impl Sync for Slot {}
pub const SLOT_LEN: usize = 4 << 20;
impl Slot {
    pub fn open(path: &std::path::Path) -> Slot {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .create(true)
            .truncate(true)
            .read(true)
            .write(true)
            .open(path)
            .expect("slot file");
        f.set_len(SLOT_LEN as u64).expect("slot len");
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SLOT_LEN,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Slot { ptr: p as *mut u8, len: SLOT_LEN, since: AtomicU64::new(0) }
    }
    pub fn begin(&self) {
        self.since.store(now_ms(), Ordering::SeqCst);
    }
    pub fn end(&self) {
        self.since.store(0, Ordering::SeqCst);
    }
    pub fn hangs(&self) -> bool {
        let t = self.since.load(Ordering::SeqCst);
        t != 0 && now_ms().saturating_sub(t) > HANG_SECS * 1000
    }
    pub fn store(&self, sub: &str, js: &[u8]) {
        let total = 12 + sub.len() + js.len();
        unsafe {
            if total > self.len {
                std::ptr::copy_nonoverlapping([0u8; 12].as_ptr(), self.ptr, 12);
                return;
            }
            std::ptr::copy_nonoverlapping((sub.len() as u32).to_le_bytes().as_ptr(), self.ptr, 4);
            std::ptr::copy_nonoverlapping((js.len() as u64).to_le_bytes().as_ptr(), self.ptr.add(4), 8);
            std::ptr::copy_nonoverlapping(sub.as_ptr(), self.ptr.add(12), sub.len());
            std::ptr::copy_nonoverlapping(js.as_ptr(), self.ptr.add(12 + sub.len()), js.len());
        }
    }
    pub fn read_file(path: &std::path::Path) -> Option<(String, serde_json::Value)> {
        let b = std::fs::read(path).ok()?;
        let sl = u32::from_le_bytes(b.get(0..4)?.try_into().ok()?) as usize;
        let jl = u64::from_le_bytes(b.get(4..12)?.try_into().ok()?) as usize;
        if sl == 0 {
            return None;
        }
        let sub = String::from_utf8(b.get(12..12 + sl)?.to_vec()).ok()?;
        let js = from_json(b.get(12 + sl..12 + sl + jl)?).ok()?;
        Some((sub, js))
    }
}

// ------------------------------------------------------------------ scratch

static SCRATCH_N: AtomicU64 = AtomicU64::new(0);
pub static SCRATCH_DIR: Mutex<Option<PathBuf>> = Mutex::new(None);

pub fn scratch_dir() -> PathBuf {
    SCRATCH_DIR.lock().unwrap().clone().expect("scratch dir")
}

/// A fresh empty directory below the run's scratch directory, removed on drop.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        let n = SCRATCH_N.fetch_add(1, Ordering::Relaxed);
        let p = scratch_dir().join(format!("c{n}"));
        std::fs::create_dir_all(&p).expect("scratch");
        Scratch(p)
    }
    pub fn write(&self, name: &str, data: &[u8]) -> PathBuf {
        let p = self.0.join(name);
        if let Some(d) = p.parent() {
            std::fs::create_dir_all(d).expect("scratch sub");
        }
        std::fs::write(&p, data).expect("scratch write");
        p
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// ------------------------------------------------------------------ worker

#[derive(Serialize, Deserialize, Default)]
pub struct WorkerReport {
    pub stats: BTreeMap<String, SubStats>,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
}

struct OnDrop<F: FnMut()>(F);
impl<F: FnMut()> Drop for OnDrop<F> {
    fn drop(&mut self) {
        (self.0)()
    }
}

pub const SHARDS: u32 = 16;
/// Cases hold trees far deeper than the recursion limit of the JSON reader.
pub fn from_json<T: serde::de::DeserializeOwned>(b: &[u8]) -> serde_json::Result<T> {
    let mut d = serde_json::Deserializer::from_slice(b);
    d.disable_recursion_limit();
    T::deserialize(&mut d)
}

pub const STACK: usize = 8 << 20;

pub fn run_worker(p: &Property, seed: u64, tier: Tier, only: Option<&str>, state: &std::path::Path, scale: f64, on_hang: &(dyn Fn(WorkerReport) + Sync)) -> WorkerReport {
    let subs: Vec<&Box<dyn SubCheck>> = p
        .subs
        .iter()
        .filter(|s| only.map(|o| o == s.name()).unwrap_or(true))
        .collect();
    let stats: Vec<Mutex<SubStats>> = subs.iter().map(|_| Mutex::new(SubStats::default())).collect();
    let stops: Vec<AtomicBool> = subs.iter().map(|_| AtomicBool::new(false)).collect();
    let mut jobs = vec![];
    for (i, s) in subs.iter().enumerate() {
        let total = ((s.cases(tier) as f64) * scale).ceil().max(1.0) as u32;
        let per = total / SHARDS;
        for sh in 0..SHARDS {
            let n = per + if sh < total % SHARDS { 1 } else { 0 };
            if n > 0 {
                jobs.push((i, sh, n));
            }
        }
    }
    let next = AtomicUsize::new(0);
    let violations = Mutex::new(vec![]);
    let times = Mutex::new(vec![0f64; subs.len()]);
    let slots: Vec<Slot> = (0..p.threads.max(1)).map(|t| Slot::open(&state.join(format!("slot{t}")))).collect();
    let running = AtomicUsize::new(slots.len());
    std::thread::scope(|sc| {
        // a case that never answers can't be joined: report it and end the process
        sc.spawn(|| {
            while running.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(std::time::Duration::from_millis(200));
                let Some(t) = slots.iter().position(|s| s.hangs()) else { continue };
                let (sub, case) = Slot::read_file(&state.join(format!("slot{t}"))).unwrap_or_default();
                let mut rep = WorkerReport::default();
                for (i, s) in subs.iter().enumerate() {
                    if let Ok(st) = stats[i].try_lock() {
                        rep.stats.insert(s.name().to_string(), st.clone());
                    }
                }
                let message = format!("no answer within {HANG_SECS} s (deadlock or endless loop)");
                rep.violations.push(Violation { property: p.id.into(), sub, message, case });
                on_hang(rep);
            }
        });
        for t in 0..p.threads.max(1) {
            let (jobs, next, subs, stats, stops, violations, times) =
                (&jobs, &next, &subs, &stats, &stops, &violations, &times);
            let (slot, running) = (&slots[t], &running);
            std::thread::Builder::new()
                .stack_size(STACK)
                .name(format!("shard-runner-{t}"))
                .spawn_scoped(sc, move || {
                    let _done = OnDrop(|| {
                        running.fetch_sub(1, Ordering::SeqCst);
                    });
                    loop {
                    let j = next.fetch_add(1, Ordering::Relaxed);
                    if j >= jobs.len() {
                        break;
                    }
                    let (i, sh, n) = jobs[j];
                    let cx = RunCx { property: p.id, seed, stats: &stats[i], stop: &stops[i], slot };
                    let t0 = std::time::Instant::now();
                    if let Some(v) = subs[i].run_shard(&cx, sh, n) {
                        violations.lock().unwrap().push(v);
                    }
                    times.lock().unwrap()[i] += t0.elapsed().as_secs_f64();
                    }
                })
                .unwrap();
        }
    });
    if std::env::var("WZPBT_TIMES").is_ok() {
        for (i, s) in subs.iter().enumerate() {
            eprintln!("{:40} {:8.2}s cpu", s.name(), times.lock().unwrap()[i]);
        }
    }
    let mut rep = WorkerReport::default();
    for (s, st) in subs.iter().zip(stats) {
        rep.stats.insert(s.name().to_string(), st.into_inner().unwrap());
    }
    for v in violations.into_inner().unwrap() {
        if v.message.contains("HARNESS-ERROR") {
            rep.errors.push(format!("{}: {}", v.sub, v.message));
        } else {
            rep.violations.push(v);
        }
    }
    rep
}
