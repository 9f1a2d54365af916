//! A stand-in for `std::sync::RwLock` whose operations are the points at which a controlled run
//! switches between its threads. Outside a controlled run it is a plain `std::sync::RwLock`.
//!
//! In a controlled run exactly one thread runs at a time, the switches are decided by a given
//! `Policy`, and a state in which no thread can go on is reported as a deadlock. The locks behave
//! as those of std on Linux: a reader waits while a writer is waiting, and `try_read` fails then.
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
pub use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
use std::sync::{Arc, Condvar, Mutex};

// ------------------------------------------------------------------ scheduler

#[derive(Clone, Debug)]
pub enum Policy {
    /// go on with a thread until it blocks, but at these steps switch to the n-th other one
    Preempt(Vec<(u64, u8)>),
    /// switch with a probability of p/256 at every step
    Random { seed: u64, p: u8 },
    /// mostly switch where a thread that holds a lock is about to take another one, which is what
    /// threads that lock each other out do
    Nested { seed: u64, p: u8 },
}

#[derive(Debug, Default)]
pub struct Outcome {
    pub deadlock: Option<String>,
    /// thread and message
    pub panics: Vec<(usize, String)>,
    pub steps: u64,
    pub switches: u64,
    /// times a thread had to wait for a lock
    pub waits: u64,
    /// control was given up: a thread waited for something the run does not know about
    pub free: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum T {
    Ready,
    Blocked(usize, bool),
    Done,
}
#[derive(Default)]
struct L {
    writer: Option<usize>,
    readers: Vec<usize>,
    /// writers that wait
    queue: Vec<usize>,
}
struct St {
    current: usize,
    threads: Vec<T>,
    locks: HashMap<usize, L>,
    policy: Policy,
    rng: u64,
    abort: bool,
    out: Outcome,
}
/// without a step for so long, the running thread is taken to wait for another one in a way that is
/// not known here (a lock of another kind, say): from then on all of them just run
const STALL: std::time::Duration = std::time::Duration::from_secs(4);
struct Sched {
    m: Mutex<St>,
    cv: Vec<Condvar>,
}
/// the payload that ends the threads of a run given up
struct Abort;

thread_local! {
    static CUR: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}
fn cur() -> Option<(Arc<Sched>, usize)> {
    CUR.try_with(|c| c.borrow().clone()).ok().flatten()
}

impl St {
    fn next_rng(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn others(&self) -> Vec<usize> {
        let n = self.threads.len();
        (1..n).map(|d| (self.current + d) % n).filter(|t| self.threads[*t] == T::Ready).collect()
    }
    /// the thread to go on with before a step of the current one
    fn choose(&mut self) -> usize {
        self.out.steps += 1;
        let others = self.others();
        if others.is_empty() {
            return self.current;
        }
        let step = self.out.steps;
        let pick = match &self.policy {
            Policy::Preempt(l) => l.iter().find(|x| x.0 == step).map(|x| x.1 as usize),
            Policy::Random { p, .. } | Policy::Nested { p, .. } => {
                let mut p = *p as u64;
                if matches!(self.policy, Policy::Nested { .. }) && self.locks.values().any(|l| l.writer == Some(self.current) || l.readers.contains(&self.current)) {
                    p = 224;
                }
                let r = self.next_rng();
                (r % 256 < p).then_some((r >> 32) as usize)
            }
        };
        match pick {
            Some(k) => others[k % others.len()],
            None => self.current,
        }
    }
    fn can(&self, lock: usize, write: bool) -> bool {
        match self.locks.get(&lock) {
            None => true,
            Some(l) if write => l.writer.is_none() && l.readers.is_empty(),
            Some(l) => l.writer.is_none() && l.queue.is_empty(),
        }
    }
    fn take(&mut self, lock: usize, write: bool, me: usize) {
        let l = self.locks.entry(lock).or_default();
        if write {
            l.writer = Some(me);
            l.queue.retain(|t| *t != me);
        } else {
            l.readers.push(me);
        }
    }
    fn describe(&self) -> String {
        let mut names: HashMap<usize, usize> = HashMap::new();
        let mut out = vec![];
        for (i, t) in self.threads.iter().enumerate() {
            if let T::Blocked(lock, write) = t {
                let n = names.len();
                let k = *names.entry(*lock).or_insert(n);
                let l = &self.locks[lock];
                let held = match l.writer {
                    Some(w) => format!("written by thread {w}"),
                    None => format!("read by threads {:?}{}", l.readers, if l.queue.is_empty() { String::new() } else { format!(", writers waiting {:?}", l.queue) }),
                };
                out.push(format!("thread {i} waits to {} lock {k} ({held})", if *write { "write" } else { "read" }));
            }
        }
        out.join("; ")
    }
}
impl Sched {
    fn wait_turn<'a>(&'a self, mut st: std::sync::MutexGuard<'a, St>, me: usize) -> std::sync::MutexGuard<'a, St> {
        let mut seen = (st.out.steps, st.out.switches);
        while st.current != me && !st.abort && !st.out.free {
            let (s, t) = self.cv[me].wait_timeout(st, STALL).unwrap();
            st = s;
            if t.timed_out() && st.current != me && !st.abort {
                let now = (st.out.steps, st.out.switches);
                if now == seen {
                    st.out.free = true;
                    self.cv.iter().for_each(|c| c.notify_all());
                }
                seen = now;
            }
        }
        if st.abort {
            drop(st);
            panic_any(Abort);
        }
        st
    }
    /// hand over to another thread, or give up when there is none
    fn leave(&self, st: &mut St) {
        if st.out.free {
            return;
        }
        let others = st.others();
        if let Some(t) = others.first() {
            st.out.switches += 1;
            st.current = *t;
            self.cv[*t].notify_one();
        } else if st.threads.iter().any(|t| matches!(t, T::Blocked(..))) {
            st.out.deadlock = Some(st.describe());
            st.abort = true;
            self.cv.iter().for_each(|c| c.notify_all());
        }
    }
    fn step(&self, me: usize) -> std::sync::MutexGuard<'_, St> {
        let mut st = self.m.lock().unwrap();
        if st.abort {
            drop(st);
            panic_any(Abort);
        }
        if st.out.free {
            return st;
        }
        let next = st.choose();
        if next != me {
            st.out.switches += 1;
            st.current = next;
            self.cv[next].notify_one();
            st = self.wait_turn(st, me);
        }
        st
    }
    fn lock(&self, lock: usize, write: bool, me: usize) {
        let mut st = self.step(me);
        while !st.out.free && !st.can(lock, write) {
            st.out.waits += 1;
            st.threads[me] = T::Blocked(lock, write);
            if write {
                let l = st.locks.get_mut(&lock).unwrap();
                if !l.queue.contains(&me) {
                    l.queue.push(me);
                }
            }
            self.leave(&mut st);
            st = self.wait_turn(st, me);
        }
        if !st.out.free {
            st.take(lock, write, me);
        }
    }
    fn try_lock(&self, lock: usize, write: bool, me: usize) -> bool {
        let mut st = self.step(me);
        if st.out.free {
            return true;
        }
        let ok = st.can(lock, write);
        if ok {
            st.take(lock, write, me);
        }
        ok
    }
    fn unlock(&self, lock: usize, write: bool, me: usize) {
        let mut st = self.m.lock().unwrap();
        let Some(l) = st.locks.get_mut(&lock) else { return };
        if write {
            l.writer = None;
        } else if let Some(i) = l.readers.iter().position(|t| *t == me) {
            l.readers.swap_remove(i);
        }
        if l.writer.is_none() && l.readers.is_empty() && l.queue.is_empty() {
            st.locks.remove(&lock);
        }
        for t in st.threads.iter_mut() {
            if matches!(t, T::Blocked(x, _) if *x == lock) {
                *t = T::Ready;
            }
        }
    }
}

/// Run the threads under control.
pub fn run<'a>(threads: Vec<Box<dyn FnOnce() + Send + 'a>>, policy: Policy) -> Outcome {
    let n = threads.len();
    let rng = match &policy {
        Policy::Random { seed, .. } | Policy::Nested { seed, .. } => *seed,
        _ => 0,
    };
    let sched = Arc::new(Sched {
        m: Mutex::new(St { current: 0, threads: vec![T::Ready; n], locks: HashMap::new(), policy, rng, abort: false, out: Outcome::default() }),
        cv: (0..n).map(|_| Condvar::new()).collect(),
    });
    std::thread::scope(|s| {
        for (me, f) in threads.into_iter().enumerate() {
            let sched = sched.clone();
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, move || {
                    CUR.with(|c| *c.borrow_mut() = Some((sched.clone(), me)));
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        drop(sched.wait_turn(sched.m.lock().unwrap(), me));
                        f()
                    }));
                    CUR.with(|c| *c.borrow_mut() = None);
                    let mut st = sched.m.lock().unwrap();
                    if let Err(e) = r {
                        if !e.is::<Abort>() {
                            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
                            st.out.panics.push((me, m.unwrap_or_else(|| "panic".into())));
                        }
                    }
                    st.threads[me] = T::Done;
                    if !st.abort {
                        sched.leave(&mut st);
                    }
                })
                .expect("spawn");
        }
    });
    let mut st = sched.m.lock().unwrap();
    std::mem::take(&mut st.out)
}
/// Whether this thread ends because its run was given up.
pub fn aborted() -> bool {
    cur().is_some_and(|(s, _)| s.m.lock().unwrap().abort)
}

// ------------------------------------------------------------------ the lock

pub struct RwLock<T: ?Sized> {
    inner: std::sync::RwLock<T>,
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { inner: std::sync::RwLock::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
/// How a held lock is known to the run it was taken in.
struct Held {
    run: Option<(Arc<Sched>, usize)>,
    lock: usize,
    write: bool,
}
impl Drop for Held {
    fn drop(&mut self) {
        if let Some((s, me)) = &self.run {
            s.unlock(self.lock, self.write, *me);
        }
    }
}
impl<T: ?Sized> RwLock<T> {
    fn id(&self) -> usize {
        &self.inner as *const _ as *const u8 as usize
    }
    /// None: not under control, or being unwound
    fn held(&self, write: bool) -> Held {
        let lock = self.id();
        let run = cur().filter(|_| !std::thread::panicking());
        if let Some((s, me)) = &run {
            s.lock(lock, write, *me);
        }
        Held { run, lock, write }
    }
    fn try_held(&self, write: bool) -> Option<Held> {
        let lock = self.id();
        let run = cur().filter(|_| !std::thread::panicking());
        if let Some((s, me)) = &run {
            if !s.try_lock(lock, write, *me) {
                return None;
            }
        }
        Some(Held { run, lock, write })
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        let held = self.held(false);
        match self.inner.read() {
            Ok(g) => Ok(RwLockReadGuard { inner: g, _held: held }),
            Err(e) => Err(PoisonError::new(RwLockReadGuard { inner: e.into_inner(), _held: held })),
        }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        let held = self.held(true);
        match self.inner.write() {
            Ok(g) => Ok(RwLockWriteGuard { inner: Some(g), lock: self, _held: held }),
            Err(e) => Err(PoisonError::new(RwLockWriteGuard { inner: Some(e.into_inner()), lock: self, _held: held })),
        }
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        let Some(held) = self.try_held(false) else { return Err(TryLockError::WouldBlock) };
        match self.inner.try_read() {
            Ok(g) => Ok(RwLockReadGuard { inner: g, _held: held }),
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(RwLockReadGuard { inner: e.into_inner(), _held: held }))),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        let Some(held) = self.try_held(true) else { return Err(TryLockError::WouldBlock) };
        match self.inner.try_write() {
            Ok(g) => Ok(RwLockWriteGuard { inner: Some(g), lock: self, _held: held }),
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(RwLockWriteGuard { inner: Some(e.into_inner()), lock: self, _held: held }))),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}

pub struct RwLockReadGuard<'a, T: ?Sized> {
    // the lock of std is given back before the run is told
    inner: std::sync::RwLockReadGuard<'a, T>,
    _held: Held,
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.inner
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    inner: Option<std::sync::RwLockWriteGuard<'a, T>>,
    lock: &'a RwLock<T>,
    _held: Held,
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.inner = None;
        // a run given up must not spoil what outlives it
        if std::thread::panicking() && aborted() {
            self.lock.inner.clear_poison();
        }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.inner.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.inner.as_mut().unwrap()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
