//! Weak-memory executions: under the controlled scheduler, a load may yield an older
//! value, as the C11 memory model permits (and hardware weaker than x86 does), instead
//! of the one in memory.
//!
//! Every location keeps its recent stores in modification order. A store carries the
//! clock a reader acquires, and for each thread the moment from which that thread knows
//! the store. A load may yield any store not older than the newest one known, through
//! happens-before, to the loading thread. Read-modify-writes yield the newest. Whatever
//! synchronises outside the hooks (beginning and end of operations, memory handed back
//! to the allocator) only adds happens-before edges, so that no impossible value is
//! ever yielded.
use crate::rng::Rng;
use crate::sched::{MAXT, tid};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::Mutex;
use std::sync::atomic::Ordering;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

type Vc = [u32; MAXT];
const NEVER: u32 = u32::MAX;
const KEEP: usize = 12;

#[derive(Clone)]
struct St {
    val: u128,
    seen: Vc,
    msg: Vc,
}

#[derive(Default)]
struct Loc {
    hist: Vec<St>,
    /// Old values in a row, per thread.
    row: [u8; MAXT],
}

#[derive(Clone, Copy, Default)]
struct Th {
    vc: Vc,
    rel: Vc,
    acq: Vc,
}

/// Which loads may yield old values: one in `den`, of these sizes.
#[derive(Clone, Copy, Debug)]
pub struct Weak {
    pub num: usize,
    pub den: usize,
    /// Bit n: objects of n bytes.
    pub sizes: u32,
    /// Only threads in this set are affected.
    pub threads: u32,
    /// Longest run of old values one thread may get from one location.
    pub row: u8,
    /// Nothing retired during the run is given back before its end (the caller sees to
    /// that); otherwise see `enter`.
    pub pinned: bool,
}

impl Weak {
    pub fn generate(rng: &mut Rng) -> Weak {
        let (num, den) = *rng.pick(&[(1, 1), (1, 1), (1, 2), (1, 2), (1, 6)]);
        Weak {
            num,
            den,
            sizes: *rng.pick(&[!0u32, !0, 1 << 4, 1 << 8, (1 << 16) | (1 << 8), (1 << 4) | (1 << 16), 1 << 1 | 1 << 8, !(1 << 4)]),
            threads: *rng.pick(&[!0u32, !0, 1, 2, 4]),
            row: *rng.pick(&[1u8, 3, 8]),
            pinned: rng.chance(2, 3),
        }
    }
}

struct State {
    locs: BTreeMap<usize, Loc>,
    th: [Th; MAXT],
    global: Vc,
    /// Blocks freed during this run.
    freed: BTreeMap<usize, usize>,
    /// Blocks handed out during this run: end, to which thread, and when.
    blocks: BTreeMap<usize, (usize, usize, u32)>,
    /// An access to a block whose allocation does not happen before it.
    race: Option<String>,
    rng: Rng,
    cfg: Weak,
}

/// Should every controlled run be a weak-memory one (component engines)?
pub static ALL: AtomicBool = AtomicBool::new(false);
static ON: AtomicBool = AtomicBool::new(false);
static STATE: Mutex<Option<State>> = Mutex::new(None);
pub static STALE: AtomicU64 = AtomicU64::new(0);
pub static CHOICES: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}

fn join(a: &mut Vc, b: &Vc) {
    for (x, y) in a.iter_mut().zip(b) {
        *x = (*x).max(*y);
    }
}

fn with<R>(f: impl FnOnce(&mut State, usize) -> R) -> Option<R> {
    if !ON.load(Relaxed) {
        return None;
    }
    let me = tid()?;
    if INSIDE.try_with(|i| i.replace(true)).unwrap_or(true) {
        return None;
    }
    let r = {
        let mut g = STATE.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
        g.as_mut().map(|s| f(s, me))
    };
    INSIDE.with(|i| i.set(false));
    r
}

pub fn start(cfg: Weak, seed: u64) {
    *STATE.lock().unwrap() = Some(State {
        locs: BTreeMap::new(),
        th: [Th::default(); MAXT],
        global: [0; MAXT],
        freed: BTreeMap::new(),
        blocks: BTreeMap::new(),
        race: None,
        rng: Rng::derive(seed, 41, 3),
        cfg,
    });
    ON.store(true, Relaxed);
}

/// Record what the engine saw.
pub fn count() {
    crate::report::count("old_values_possible", CHOICES.load(Relaxed));
    crate::report::count("old_values_yielded", STALE.load(Relaxed));
}

pub fn stop() {
    ON.store(false, Relaxed);
    let s = STATE.lock().unwrap().take();
    if let Some(m) = s.and_then(|s| s.race) {
        crate::report::violation("data-race", &m);
    }
}

/// A block is handed out by the allocator.
pub fn allocated(addr: usize, size: usize) {
    with(|s, me| {
        s.th[me].vc[me] += 1;
        let at = s.th[me].vc[me];
        s.blocks.insert(addr, (addr + size, me, at));
    });
}

/// Memory at this address is read by other means than an instrumented access.
pub fn touch(addr: usize) {
    with(|s, me| s.check(addr, me));
}

/// A guard is taken: the reclamation scheme makes everything unlinked before known to it.
/// (The scheme's own accesses are not instrumented; this assumes more than it gives.)
pub fn enter() {
    with(|s, me| {
        if !s.cfg.pinned {
            let all: Vec<Vc> = s.th.iter().map(|t| t.vc).collect();
            for v in &all {
                join(&mut s.th[me].vc, v);
            }
        }
    });
}

/// Everything synchronised so far is known here from now on, and the other way round.
pub fn sync() {
    with(|s, me| s.sync(me));
}

fn acquires(o: Ordering) -> bool {
    matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst)
}
fn releases(o: Ordering) -> bool {
    matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst)
}

fn initial(val: u128) -> St {
    St { val, seen: [0; MAXT], msg: [0; MAXT] }
}

impl State {
    fn sync(&mut self, me: usize) {
        let t = &mut self.th[me];
        t.vc[me] += 1;
        let acq = t.acq;
        join(&mut t.vc, &acq);
        join(&mut t.vc, &self.global);
        join(&mut self.global, &t.vc);
        t.rel = t.vc;
    }
    fn check(&mut self, addr: usize, me: usize) {
        if let Some((&start, &(end, by, at))) = self.blocks.range(..=addr).next_back() {
            if addr < end && by != me && self.th[me].vc[by] < at && self.race.is_none() {
                self.race = Some(format!(
                    "thread {me} reaches byte {} of a block of {} bytes that thread {by} allocated, and nothing orders the block's initialisation before that",
                    addr - start,
                    end - start
                ));
            }
        }
    }
    fn loc(&mut self, addr: usize, now: u128) -> &mut Loc {
        let l = self.locs.entry(addr).or_default();
        if l.hist.last().is_none_or(|s| s.val != now) {
            // written by means the hooks do not see
            l.hist.clear();
            l.hist.push(initial(now));
        }
        l
    }
    fn push(&mut self, addr: usize, me: usize, val: u128, msg: Vc) {
        let mut seen = [NEVER; MAXT];
        seen[me] = self.th[me].vc[me];
        let l = self.locs.get_mut(&addr).unwrap();
        if l.hist.len() >= KEEP {
            l.hist.remove(0);
        }
        l.hist.push(St { val, seen, msg });
    }
    fn take(&mut self, me: usize, msg: &Vc, order: Ordering) {
        let t = &mut self.th[me];
        if acquires(order) {
            join(&mut t.vc, msg);
        }
        join(&mut t.acq, msg);
    }
}

pub fn fence(order: Ordering) {
    with(|s, me| {
        s.th[me].vc[me] += 1;
        if acquires(order) {
            let a = s.th[me].acq;
            join(&mut s.th[me].vc, &a);
        }
        if order == Ordering::SeqCst {
            s.sync(me);
        }
        if releases(order) {
            s.th[me].rel = s.th[me].vc;
        }
    });
}

/// The value a load yields.
pub fn loaded(addr: usize, size: usize, order: Ordering, now: u128) -> u128 {
    with(|s, me| {
        s.th[me].vc[me] += 1;
        if order == Ordering::SeqCst {
            s.sync(me);
        }
        s.check(addr, me);
        let vc = s.th[me].vc;
        let cfg = s.cfg;
        let l = s.loc(addr, now);
        let last = l.hist.len() - 1;
        let lo = (0..=last).rev().find(|&i| l.hist[i].seen.iter().zip(&vc).any(|(a, b)| a <= b)).unwrap_or(0);
        let mut i = last;
        if lo < last {
            CHOICES.fetch_add(1, Relaxed);
            let may = cfg.sizes >> size.min(31) & 1 == 1 && cfg.threads >> me & 1 == 1 && l.row[me] < cfg.row;
            if may && s.rng.below(cfg.den) < cfg.num {
                i = if s.rng.chance(1, 2) { lo } else { lo + s.rng.below(last - lo) };
                let l = &s.locs[&addr];
                let leads_nowhere = |v: u128| {
                    let v = v as usize;
                    s.freed.range(..=v).next_back().is_some_and(|(_, &end)| v < end)
                };
                while size == 8 && i < last && leads_nowhere(l.hist[i].val) {
                    i += 1;
                }
            }
        }
        let l = s.locs.get_mut(&addr).unwrap();
        if i < last {
            STALE.fetch_add(1, Relaxed);
            l.row[me] += 1;
        } else {
            l.row[me] = 0;
        }
        let st = &mut l.hist[i];
        st.seen[me] = st.seen[me].min(vc[me]);
        let (val, msg) = (st.val, st.msg);
        s.take(me, &msg, order);
        val
    })
    .unwrap_or(now)
}

pub fn stored(addr: usize, order: Ordering, old: u128, new: u128) {
    with(|s, me| {
        s.th[me].vc[me] += 1;
        if order == Ordering::SeqCst {
            s.sync(me);
        }
        s.check(addr, me);
        s.loc(addr, old);
        let msg = if releases(order) { s.th[me].vc } else { s.th[me].rel };
        s.push(addr, me, new, msg);
    });
}

pub fn updated(addr: usize, order: Ordering, old: u128, new: Option<u128>) {
    with(|s, me| {
        s.th[me].vc[me] += 1;
        if order == Ordering::SeqCst {
            s.sync(me);
        }
        s.check(addr, me);
        let at = s.th[me].vc[me];
        let l = s.loc(addr, old);
        l.row[me] = 0;
        let st = l.hist.last_mut().unwrap();
        st.seen[me] = st.seen[me].min(at);
        let got = st.msg;
        s.take(me, &got, order);
        if let Some(n) = new {
            let mut msg = if releases(order) { s.th[me].vc } else { s.th[me].rel };
            join(&mut msg, &got);
            s.push(addr, me, n, msg);
        }
    });
}

/// A block goes back to the allocator: its locations are gone, and values leading there
/// are not yielded any more. (The reclamation scheme orders the removal of the last way
/// to a block before every later use of it by other means than the accesses seen here.)
pub fn freed(addr: usize, size: usize) {
    with(|s, _| {
        let gone: Vec<usize> = s.locs.range(addr..addr + size).map(|(a, _)| *a).collect();
        for a in gone {
            s.locs.remove(&a);
        }
        s.freed.insert(addr, addr + size);
        s.blocks.remove(&addr);
    });
}
