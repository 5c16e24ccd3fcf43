//! Schedule control for the real code: a fixed set of threads run one at a time
//! and hand over only at accesses to shared memory (reported by the hooks in
//! `masstree::verif`). Which thread goes on is decided by a `Strategy`, so a
//! run is a function of (scenario, strategy) and can be repeated exactly.
//!
//! With no hooks compiled in, `run` still works: the operating system schedules.
use crate::rng::Rng;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::{Acquire, Relaxed, Release, SeqCst}};
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};

pub const MAXT: usize = 8;

/// Which accesses a segment counts.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Class {
    /// Every access.
    Any,
    /// Stores and read-modify-writes.
    W,
    /// Writes of 1, 4, 8 or 16 bytes (key lengths, versions, pointers and keys, orders).
    W1,
    W4,
    W8,
    W16,
    /// Loads of versions.
    R4,
    /// Writes to the address that the thread of the previous segment was about to
    /// access when it stopped.
    Hit,
    /// Like `Hit`, for the pointers and keys the thread of the previous segment read last.
    HitRead,
    /// Read-modify-writes of versions (locking); it stops right before the last of them.
    Lock,
}

impl Class {
    fn matches(self, size: usize, load: bool) -> bool {
        match self {
            Class::Any => true,
            Class::W => !load,
            Class::W1 => !load && size == 1,
            Class::W4 => !load && size == 4,
            Class::W8 => !load && size == 8,
            Class::W16 => !load && size == 16,
            Class::R4 => load && size == 4,
            Class::Hit | Class::HitRead | Class::Lock => false,
        }
    }
}

/// What an access does.
#[derive(Clone, Copy, PartialEq, Eq)]
enum Acc {
    Load,
    Rmw,
    Other,
}

/// How the next thread is chosen.
#[derive(Clone, Debug)]
pub enum Strategy {
    /// Threads really run in parallel; each access may be delayed (1 in `den`).
    Free { den: usize, spins: usize },
    /// At each access switch with probability 1/den to a random thread.
    Walk { den: usize },
    /// PCT: random priorities, lowered at the given steps.
    Pct { changes: Vec<u64> },
    /// Thread, number of accesses of a class (it stops right after the last of
    /// them); then everybody to completion in `tail` order.
    Segments { segs: Vec<(usize, u64, Class)>, tail: Vec<usize> },
    /// Like `Walk`, but `victim` stops for good at its step `at` until all others are
    /// done or stuck.
    Stall { den: usize, victim: usize, at: u64 },
    /// From its step `at` on, up to `times` times, `victim` stops right before it follows
    /// a pointer it has just loaded, in an operation that has already made `writes`
    /// writes, and the others make `hold` accesses.
    Hunt { den: usize, victim: usize, at: u64, writes: u64, times: u64, hold: u64 },
}

impl Strategy {
    pub fn describe(&self) -> String {
        match self {
            Strategy::Free { den, spins } => format!("free(1/{den},{spins})"),
            Strategy::Walk { den } => format!("walk(1/{den})"),
            Strategy::Pct { changes } => format!("pct{changes:?}"),
            Strategy::Segments { segs, tail } => format!("segments{segs:?}+{tail:?}"),
            Strategy::Stall { den, victim, at } => format!("stall(1/{den},t{victim}@{at})"),
            Strategy::Hunt { den, victim, at, writes, times, hold } => format!("hunt(1/{den},t{victim}@{at}w{writes},{times}*{hold})"),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Strategy::Free { .. } => "free",
            Strategy::Walk { .. } => "walk",
            Strategy::Pct { .. } => "pct",
            Strategy::Segments { .. } => "segments",
            Strategy::Stall { .. } => "stall",
            Strategy::Hunt { .. } => "hunt",
        }
    }
}

thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
    /// The 8 bytes this thread loaded last.
    static LAST8: Cell<usize> = const { Cell::new(0) };
    static DELAY: Cell<u64> = const { Cell::new(0) };
}

/// Index of the calling thread in the current run, if any.
pub fn tid() -> Option<usize> {
    TID.try_with(Cell::get).ok().filter(|&t| t < MAXT)
}

struct State {
    n: usize,
    done: [bool; MAXT],
    spinning: [bool; MAXT],
    prio: [i64; MAXT],
    steps: [u64; MAXT],
    recent: [[usize; 8]; MAXT],
    rpos: [usize; MAXT],
    same: [u32; MAXT],
    strat: Strategy,
    rng: Rng,
    seg: usize,
    seg_left: u64,
    /// What each thread is about to access (or has just accessed, while running).
    pending: [(usize, bool); MAXT],
    /// The last few addresses of 8-byte loads.
    read8: [[usize; 4]; MAXT],
    low: i64,
    /// The access about to be made follows the pointer the thread just loaded.
    chased: bool,
    /// Writes of thread 0's current operation.
    writes: u64,
    hunts: u64,
    held_to: u64,
    run_len: u64,
    idle: u64,
    fair: bool,
    budget: u64,
    /// Longest stretch one thread may run before it is asked to hand over.
    slice: u64,
    switches: u64,
    hash: u64,
}

static STATE: OnceLock<Mutex<Option<State>>> = OnceLock::new();
static CUR: AtomicUsize = AtomicUsize::new(usize::MAX);
static STEP: AtomicU64 = AtomicU64::new(0);
static CONTROLLED: AtomicBool = AtomicBool::new(false);
static FREE_DEN: AtomicUsize = AtomicUsize::new(0);
static FREE_SPINS: AtomicUsize = AtomicUsize::new(0);
static CLOCK: AtomicU64 = AtomicU64::new(0);
static STUCK: AtomicBool = AtomicBool::new(false);
static THREADS: Mutex<[Option<std::thread::Thread>; MAXT]> = Mutex::new([const { None }; MAXT]);

/// Events seen through the hooks since the process started.
pub static LOADS: AtomicU64 = AtomicU64::new(0);
pub static STORES: AtomicU64 = AtomicU64::new(0);
pub static RMWS: AtomicU64 = AtomicU64::new(0);

fn state() -> &'static Mutex<Option<State>> {
    STATE.get_or_init(|| Mutex::new(None))
}

/// A strictly increasing time stamp, the same for all threads.
pub fn now() -> u64 {
    crate::weak::sync();
    CLOCK.fetch_add(1, SeqCst)
}

/// Steps taken so far in the current (or last) run.
pub fn steps() -> u64 {
    STEP.load(Relaxed)
}

fn lock() -> std::sync::MutexGuard<'static, Option<State>> {
    state().lock().unwrap_or_else(std::sync::PoisonError::into_inner)
}

fn handover(to: usize) {
    CUR.store(to, Release);
    let th = THREADS.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
    if let Some(t) = &th[to] {
        t.unpark();
    }
}

fn wait_turn(me: usize) {
    let mut t0: Option<Instant> = None;
    while CUR.load(Acquire) != me && CONTROLLED.load(Acquire) {
        std::thread::park_timeout(Duration::from_millis(500));
        let t = *t0.get_or_insert_with(Instant::now);
        if t.elapsed() > Duration::from_secs(30) {
            // The running thread is blocked outside our control (or in a loop
            // with no shared access): let everyone go.
            STUCK.store(true, SeqCst);
            CONTROLLED.store(false, SeqCst);
            let th = THREADS.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
            for t in th.iter().flatten() {
                t.unpark();
            }
        }
    }
}

impl State {
    fn runnable(&self) -> impl Iterator<Item = usize> + '_ {
        (0..self.n).filter(|&t| !self.done[t])
    }
    fn pick_other(&mut self, me: Option<usize>) -> Option<usize> {
        let mut c: [usize; MAXT] = [0; MAXT];
        let mut k = 0;
        for t in 0..self.n {
            if !self.done[t] && !self.spinning[t] && Some(t) != me {
                c[k] = t;
                k += 1;
            }
        }
        if k == 0 {
            for t in 0..self.n {
                if !self.done[t] && Some(t) != me {
                    c[k] = t;
                    k += 1;
                }
            }
        }
        if k == 0 {
            return None;
        }
        Some(c[self.rng.below(k)])
    }
    fn best_prio(&self, all: bool) -> Option<usize> {
        self.runnable().filter(|&t| all || !self.spinning[t]).max_by_key(|&t| self.prio[t])
    }
    /// Decide who runs next; `me` is about to make an access.
    fn next(&mut self, me: usize, forced: bool, size: usize, acc: Acc, done: (usize, bool)) -> usize {
        let load = acc == Acc::Load;
        let step = STEP.load(Relaxed);
        if self.fair {
            // round robin, short slices
            if forced || step % 64 == 0 {
                for d in 1..=self.n {
                    let t = (me + d) % self.n;
                    if !self.done[t] {
                        return t;
                    }
                }
            }
            return me;
        }
        match &self.strat {
            Strategy::Free { .. } => me,
            Strategy::Walk { den } => {
                let den = *den;
                if forced || self.rng.below(den) == 0 {
                    self.pick_other(Some(me)).unwrap_or(me)
                } else {
                    me
                }
            }
            Strategy::Stall { den, victim, at } => {
                let (den, victim, at) = (*den, *victim, *at);
                let stalled = self.steps[victim] >= at && !self.done[victim];
                if stalled {
                    // others first, as long as one of them is not spinning
                    let any = (0..self.n).any(|t| t != victim && !self.done[t] && !self.spinning[t]);
                    if any {
                        if me == victim || forced || self.rng.below(den) == 0 {
                            let mut c = [0; MAXT];
                            let mut k = 0;
                            for t in 0..self.n {
                                if t != victim && !self.done[t] && !self.spinning[t] && (t != me || !forced) {
                                    c[k] = t;
                                    k += 1;
                                }
                            }
                            if k > 0 {
                                return c[self.rng.below(k)];
                            }
                        }
                        if me != victim && !forced {
                            return me;
                        }
                    }
                    return self.pick_other(if forced { Some(me) } else { None }).unwrap_or(me);
                }
                if forced || self.rng.below(den) == 0 {
                    self.pick_other(Some(me)).unwrap_or(me)
                } else {
                    me
                }
            }
            &Strategy::Hunt { den, victim, at, writes, times, hold } => {
                let ripe = self.steps[victim] >= at && self.writes >= writes;
                if me == victim && !forced && ripe && self.hunts < times && self.chased {
                    self.hunts += 1;
                    self.held_to = step + hold;
                }
                let others = (0..self.n).any(|t| t != victim && !self.done[t] && !self.spinning[t]);
                if step < self.held_to && others {
                    if me != victim && !forced && self.rng.below(den) != 0 {
                        return me;
                    }
                    let spun = std::mem::replace(&mut self.spinning[victim], true);
                    let to = self.pick_other(Some(me)).filter(|&t| t != victim).unwrap_or(me);
                    self.spinning[victim] = spun;
                    if to != victim && !(forced && to == me) {
                        return to;
                    }
                }
                if step >= self.held_to && me != victim && !self.done[victim] && !self.spinning[victim] && self.hunts < times && ripe {
                    // the prey goes on alone until the next stop
                    return victim;
                }
                if forced || (me != victim && self.rng.below(den) == 0) {
                    self.pick_other(Some(me)).unwrap_or(me)
                } else {
                    me
                }
            }
            Strategy::Pct { changes } => {
                if forced || changes.contains(&step) {
                    self.low -= 1;
                    self.prio[me] = self.low;
                }
                self.best_prio(false).or_else(|| self.best_prio(true)).unwrap_or(me)
            }
            Strategy::Segments { segs, tail } => {
                loop {
                    if self.seg < segs.len() {
                        let (t, _, class) = segs[self.seg];
                        if t >= self.n || self.done[t] || self.seg_left == 0 || (forced && t == me) {
                            self.seg += 1;
                            self.seg_left = segs.get(self.seg).map_or(0, |s| s.1);
                            continue;
                        }
                        if t == me {
                            if matches!(class, Class::Hit | Class::HitRead | Class::Lock) {
                                let v = if self.seg == 0 { usize::MAX } else { segs[self.seg - 1].0 };
                                let hit = match class {
                                    Class::Lock => acc == Acc::Rmw && size == 4,
                                    Class::Hit => v < MAXT && v != me && done.1 && done.0 == self.pending[v].0,
                                    _ => v < MAXT && v != me && done.1 && self.read8[v].contains(&done.0),
                                };
                                if hit {
                                    self.seg_left -= 1;
                                    if self.seg_left == 0 {
                                        continue;
                                    }
                                }
                            } else if class.matches(size, load) {
                                self.seg_left -= 1;
                            }
                        }
                        return t;
                    }
                    break;
                }
                for &t in tail {
                    if t < self.n && !self.done[t] && !self.spinning[t] && !(forced && t == me) {
                        return t;
                    }
                }
                self.pick_other(Some(me)).unwrap_or(me)
            }
        }
    }
}

fn budget_exceeded(kind: &str, s: &State) {
    let waiting: Vec<usize> = s.runnable().collect();
    crate::report::violation(
        "no-progress",
        &format!(
            "{kind}: after {} accesses ({} by fair scheduling) threads {:?} have not completed their operations",
            STEP.load(Relaxed),
            s.budget,
            waiting
        ),
    );
}

/// Called before each access to shared memory.
fn on_access(addr: usize, size: usize, acc: Acc) {
    let is_load = acc == Acc::Load;
    let Some(me) = tid() else { return };
    if !CONTROLLED.load(Relaxed) {
        let den = FREE_DEN.load(Relaxed);
        if den > 0 {
            DELAY.with(|d| {
                let mut r = Rng::new(d.get().wrapping_add(me as u64 + 1));
                let x = r.next();
                d.set(x);
                if x % den as u64 == 0 {
                    let spins = FREE_SPINS.load(Relaxed);
                    let y = (x >> 32) as usize;
                    if y % 7 == 0 {
                        std::thread::yield_now();
                    } else {
                        for _ in 0..y % spins.max(1) {
                            std::hint::spin_loop();
                        }
                    }
                }
            });
        }
        return;
    }
    let mut g = lock();
    let Some(s) = g.as_mut() else { return };
    let step = STEP.fetch_add(1, Relaxed) + 1;
    s.steps[me] += 1;
    s.run_len += 1;
    s.idle += 1;
    // Spin detection: many loads in a row from a handful of addresses.
    if is_load {
        if s.recent[me].contains(&addr) {
            s.same[me] += 1;
        } else {
            let p = s.rpos[me];
            s.recent[me][p] = addr;
            s.rpos[me] = (p + 1) % 8;
            s.same[me] = s.same[me].saturating_sub(4);
        }
    } else {
        s.same[me] += 1;
    }
    let mut forced = false;
    if s.same[me] >= 40 {
        s.same[me] = 0;
        s.spinning[me] = true;
        forced = true;
    }
    if s.run_len > s.slice {
        forced = true;
    }
    if !s.fair && (step > s.budget || s.idle > 200_000.max(s.slice)) {
        s.fair = true;
        s.idle = 0;
    } else if s.fair && (step > 3 * s.budget || s.idle > 400_000.max(s.slice)) {
        budget_exceeded("step budget", s);
    }
    // the access made before this one
    let done = std::mem::replace(&mut s.pending[me], (addr, !is_load));
    if me == 0 && !is_load {
        s.writes += 1;
    }
    s.chased = addr != usize::MAX && LAST8.with(|l| l.replace(0)) == addr;
    let to = s.next(me, forced, size, acc, done);
    if is_load && size == 8 {
        s.read8[me].rotate_right(1);
        s.read8[me][0] = addr;
    }
    if to != me {
        s.run_len = 0;
        s.switches += 1;
        s.hash = (s.hash ^ (step << 3) ^ to as u64).wrapping_mul(0x100_0000_01b3);
        drop(g);
        handover(to);
        wait_turn(me);
    }
}

/// Called when the running thread changed shared memory: spinners may go on.
fn on_change() {
    let Some(me) = tid() else { return };
    if !CONTROLLED.load(Relaxed) {
        return;
    }
    let mut g = lock();
    if let Some(s) = g.as_mut() {
        s.same[me] = 0;
        s.idle = 0;
        s.spinning = [false; MAXT];
    }
}

/// Thread 0 begins another operation.
pub fn mark() {
    if tid() == Some(0) && CONTROLLED.load(Relaxed) {
        if let Some(s) = lock().as_mut() {
            s.writes = 0;
        }
    }
}

/// A scheduling point in harness code.
pub fn point() {
    on_access(usize::MAX, 0, Acc::Other);
    on_change();
}

#[cfg(masstree_verif)]
mod hooks {
    use super::*;
    use masstree::verif::{Hooks, Kind, Op};
    fn before(op: &Op) {
        if tid().is_some() {
            match op.kind {
                Kind::Load => LOADS.fetch_add(1, Relaxed),
                Kind::Store => STORES.fetch_add(1, Relaxed),
                Kind::Rmw => RMWS.fetch_add(1, Relaxed),
                Kind::Fence => {
                    crate::weak::fence(op.order);
                    return;
                }
            };
            let acc = match op.kind {
                Kind::Load => Acc::Load,
                Kind::Rmw => Acc::Rmw,
                _ => Acc::Other,
            };
            on_access(op.addr, op.size, acc);
        }
    }
    fn loaded(op: &Op, v: u128) -> u128 {
        let v = crate::weak::loaded(op.addr, op.size, op.order, v);
        if op.size == 8 {
            LAST8.with(|l| l.set(v as usize));
        }
        v
    }
    fn stored(op: &Op, old: u128, new: u128) {
        crate::weak::stored(op.addr, op.order, old, new);
        on_change();
    }
    fn updated(op: &Op, old: u128, new: Option<u128>) {
        crate::weak::updated(op.addr, op.order, old, new);
        if new.is_some_and(|n| n != old) {
            on_change();
        }
    }
    pub static HOOKS: Hooks = Hooks { before, loaded, stored, updated };
}

/// Are the hooks compiled in?
pub const HOOKED: bool = cfg!(masstree_verif);

pub fn install() {
    #[cfg(masstree_verif)]
    masstree::verif::install(&hooks::HOOKS);
}

type Job = Box<dyn FnOnce() + Send>;
struct Slot {
    job: Mutex<Option<Job>>,
    cv: Condvar,
}
struct Pool {
    slots: Vec<Arc<Slot>>,
}
static POOL: Mutex<Option<Pool>> = Mutex::new(None);
static LEFT: (Mutex<usize>, Condvar) = (Mutex::new(0), Condvar::new());

fn ensure_pool(n: usize) {
    let mut p = POOL.lock().unwrap();
    let pool = p.get_or_insert_with(|| Pool { slots: vec![] });
    while pool.slots.len() < n {
        let i = pool.slots.len();
        let slot = Arc::new(Slot { job: Mutex::new(None), cv: Condvar::new() });
        let s2 = slot.clone();
        let h = std::thread::Builder::new()
            .name(format!("w{i}"))
            .stack_size(4 << 20)
            .spawn(move || {
                loop {
                    let job = {
                        let mut g = s2.job.lock().unwrap();
                        loop {
                            if let Some(j) = g.take() {
                                break j;
                            }
                            g = s2.cv.wait(g).unwrap();
                        }
                    };
                    job();
                }
            })
            .unwrap();
        THREADS.lock().unwrap()[i] = Some(h.thread().clone());
        pool.slots.push(slot);
    }
}

/// What a run looked like.
#[derive(Clone, Debug, Default)]
pub struct RunInfo {
    pub steps: u64,
    pub per_thread: Vec<u64>,
    pub switches: u64,
    pub hash: u64,
    pub stuck: bool,
}

fn finish(me: usize) {
    TID.with(|t| t.set(usize::MAX));
    if CONTROLLED.load(Acquire) {
        let mut g = lock();
        if let Some(s) = g.as_mut() {
            s.done[me] = true;
            s.spinning = [false; MAXT];
            s.idle = 0;
            let to = match &s.strat {
                Strategy::Pct { .. } if !s.fair => s.best_prio(false).or_else(|| s.best_prio(true)),
                Strategy::Segments { .. } if !s.fair => {
                    if s.runnable().next().is_some() { Some(s.next(me, true, 0, Acc::Other, (0, false))) } else { None }
                }
                _ => s.pick_other(Some(me)),
            };
            s.hash = (s.hash ^ 0x55 ^ me as u64).wrapping_mul(0x100_0000_01b3);
            drop(g);
            if let Some(t) = to {
                handover(t);
            }
        }
    }
    let mut l = LEFT.0.lock().unwrap();
    *l -= 1;
    if *l == 0 {
        LEFT.1.notify_all();
    }
}

/// Run the given closures to completion as threads 0..n of one run.
/// The closures must not unwind.
pub fn run<'a>(strat: Strategy, seed: u64, budget: u64, jobs: Vec<Box<dyn FnOnce() + Send + 'a>>) -> RunInfo {
    let n = jobs.len();
    assert!(n <= MAXT);
    ensure_pool(n);
    let free = matches!(strat, Strategy::Free { .. }) || !HOOKED;
    let mut rng = Rng::derive(seed, 77, 1);
    if let Strategy::Free { den, spins } = strat {
        FREE_DEN.store(den, Relaxed);
        FREE_SPINS.store(spins, Relaxed);
    } else {
        FREE_DEN.store(0, Relaxed);
    }
    let mut prio = [0i64; MAXT];
    let mut order: Vec<i64> = (1..=n as i64).collect();
    rng.shuffle(&mut order);
    prio[..n].copy_from_slice(&order);
    let first = match &strat {
        Strategy::Segments { segs, tail } => segs.first().map_or(tail[0], |s| s.0),
        Strategy::Pct { .. } => (0..n).max_by_key(|&t| prio[t]).unwrap(),
        Strategy::Stall { victim, .. } => *victim % n,
        _ => rng.below(n),
    };
    let seg_left = match &strat {
        Strategy::Segments { segs, .. } => segs.first().map_or(0, |s| s.1),
        _ => 0,
    };
    *lock() = Some(State {
        n,
        done: [false; MAXT],
        spinning: [false; MAXT],
        prio,
        steps: [0; MAXT],
        recent: [[0; 8]; MAXT],
        rpos: [0; MAXT],
        same: [0; MAXT],
        strat,
        rng,
        seg: 0,
        seg_left,
        pending: [(0, false); MAXT],
        read8: [[0; 4]; MAXT],
        low: 0,
        chased: false,
        writes: 0,
        hunts: 0,
        held_to: 0,
        run_len: 0,
        idle: 0,
        fair: false,
        budget,
        slice: if budget > 100_000 { budget } else { 6000 },
        switches: 0,
        hash: 0xcbf2_9ce4_8422_2325,
    });
    let weak = !free && crate::weak::ALL.load(Relaxed);
    if weak {
        let mut r = Rng::derive(seed, 78, 1);
        let cfg = crate::weak::Weak { pinned: false, ..crate::weak::Weak::generate(&mut r) };
        crate::weak::start(cfg, seed);
    }
    STEP.store(0, Relaxed);
    CUR.store(if free { usize::MAX } else { first }, SeqCst);
    CONTROLLED.store(!free, SeqCst);
    *LEFT.0.lock().unwrap() = n;
    let barrier = Arc::new(std::sync::Barrier::new(if free { n } else { 1 }));
    {
        let p = POOL.lock().unwrap();
        let pool = p.as_ref().unwrap();
        for (i, job) in jobs.into_iter().enumerate() {
            // SAFETY: `run` returns only when every job has finished (LEFT == 0).
            let job: Job = unsafe { std::mem::transmute::<Box<dyn FnOnce() + Send + 'a>, Job>(job) };
            let b = barrier.clone();
            let wrapped: Job = Box::new(move || {
                TID.with(|t| t.set(i));
                DELAY.with(|d| d.set(seed ^ (i as u64) << 32));
                if free {
                    b.wait();
                } else {
                    wait_turn(i);
                }
                job();
                finish(i);
            });
            let slot = &pool.slots[i];
            *slot.job.lock().unwrap() = Some(wrapped);
            slot.cv.notify_one();
        }
    }
    let t0 = Instant::now();
    {
        let mut l = LEFT.0.lock().unwrap();
        while *l > 0 {
            let (g, _) = LEFT.1.wait_timeout(l, Duration::from_secs(2)).unwrap();
            l = g;
            if *l > 0 && t0.elapsed() > Duration::from_secs(crate::report::run_timeout()) {
                drop(l);
                crate::report::hang(&format!(
                    "a run has not finished after {} s of wall-clock time (controlled={}, accesses={})",
                    t0.elapsed().as_secs(),
                    CONTROLLED.load(SeqCst),
                    STEP.load(Relaxed)
                ));
            }
        }
    }
    CONTROLLED.store(false, SeqCst);
    if weak {
        crate::weak::stop();
    }
    let s = lock().take().unwrap();
    RunInfo {
        steps: STEP.load(Relaxed),
        per_thread: s.steps[..n].to_vec(),
        switches: s.switches,
        hash: s.hash,
        stuck: STUCK.swap(false, SeqCst),
    }
}

