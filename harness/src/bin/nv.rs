//! P12: node version words. `seq`: random lock cycles against a model of the word's meaning.
//! `conc`: lock holders and optimistic readers under the scheduler.
use masstree::nodeversion::{LockGuard, NodeVersion, SingleThreadedNodeVersion};
use mtv::report::{self, Args, violation};
use mtv::rng::Rng;
use mtv::{comp, sched};
use serde_json::json;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::time::Duration;

#[global_allocator]
static A: mtv::alloc::Counting = mtv::alloc::Counting;

const LOCK: u32 = 1;
const DIRTY: u32 = 6;
const LEAF: u32 = 1 << 31;
const ROOT: u32 = 1 << 30;
const DELETED: u32 = 1 << 29;

/// What an unlocked word stands for, with every snapshot taken so far.
struct Model {
    leaf: bool,
    root: bool,
    deleted: bool,
    /// (snapshot, number of phases completed when it was taken, number of split phases)
    snaps: Vec<(u32, u64, u64)>,
    phases: u64,
    splits: u64,
}

fn counters(rng: &mut Rng) -> u32 {
    let (x, y) = (rng.next() as u32 & 63, rng.next() as u32 & ((1 << 19) - 1));
    let vi = *rng.pick(&[0u32, 1, 62, 63, x]);
    let vs = *rng.pick(&[0u32, 1, (1 << 19) - 1, (1 << 19) - 2, y]);
    (vi << 3) | (vs << 9)
}

fn rest(v: &NodeVersion, m: &Model, when: &str) {
    let w = v.value();
    if v.is_locked() || w & LOCK != 0 || v.is_split_locked() {
        violation("lock-left", &format!("{when}: the lock mark is still set in {w:#010x}"));
    }
    if v.is_dirty() || v.is_inserting() || v.is_splitting() || w & DIRTY != 0 {
        violation("mark-left", &format!("{when}: an in-progress mark is still set in {w:#010x}"));
    }
    if v.is_leaf() != m.leaf || v.is_root() != m.root || v.is_deleted() != m.deleted {
        violation(
            "flags",
            &format!("{when}: (leaf, root, deleted) = {:?} in {w:#010x}, expected {:?}", (v.is_leaf(), v.is_root(), v.is_deleted()), (m.leaf, m.root, m.deleted)),
        );
    }
    if v.is_leaf() != (w & LEAF != 0) || v.is_root() != (w & ROOT != 0) || v.is_deleted() != (w & DELETED != 0) {
        violation("flags", &format!("{when}: flag accessors disagree with the word {w:#010x}"));
    }
    let s = v.stable();
    if s != w {
        violation("stable", &format!("{when}: stable() = {s:#010x} on a word at rest {w:#010x}"));
    }
}

fn snapshots(v: &NodeVersion, m: &Model, when: &str) {
    for &(s, p, q) in &m.snaps {
        let (c, cl, sp, ss) = (v.has_changed(s), v.has_changed_or_locked(s), v.has_split(s), v.simple_has_split(s));
        if m.phases > p && !(c && cl) {
            violation("change-hidden", &format!("{when}: a snapshot {s:#010x} taken {} phases ago is reported unchanged (has_changed {c}, or_locked {cl}); word {:#010x}", m.phases - p, v.value()));
        }
        if m.splits > q && !(sp && ss) {
            violation("split-hidden", &format!("{when}: a snapshot {s:#010x} taken {} splits ago is reported unsplit (has_split {sp}, simple {ss}); word {:#010x}", m.splits - q, v.value()));
        }
        report::count("validations", 1);
    }
}

fn held(v: &NodeVersion, g: &LockGuard<'_>, snap: u32, when: &str) {
    if !v.is_locked() || !v.is_dirty() {
        violation("held", &format!("{when}: a held lock is not visible in {:#010x}", v.value()));
    }
    if v.try_lock().is_some() {
        violation("exclusion", &format!("{when}: try_lock succeeded on a held lock"));
    }
    let wait = Duration::from_micros(3);
    let began = std::time::Instant::now();
    if v.try_lock_for(wait).is_some() {
        violation("exclusion", &format!("{when}: try_lock_for succeeded on a held lock"));
    }
    let waited = began.elapsed();
    if waited < wait {
        violation("refused", &format!("{when}: try_lock_for gave up after {waited:?}, before its timeout of {wait:?}"));
    }
    if !v.has_changed_or_locked(snap) {
        violation("change-hidden", &format!("{when}: has_changed_or_locked is false while the lock is held and marked"));
    }
    if g.locked_value() & LOCK == 0 {
        violation("held", &format!("{when}: locked_value {:#010x} does not show the lock", g.locked_value()));
    }
}

fn run_seq(rng: &mut Rng, iter: u64) {
    let flags = [0, LEAF, ROOT, LEAF | ROOT, LEAF | DELETED, DELETED][rng.below(6)];
    let fresh = rng.chance(1, 4);
    let v = if fresh { NodeVersion::new(flags & LEAF != 0) } else { NodeVersion::from_value(flags | counters(rng)) };
    let start = v.value();
    if fresh && (v.is_leaf() != (flags & LEAF != 0) || v.is_root() || v.is_deleted() || v.is_locked() || v.is_dirty()) {
        violation("flags", &format!("a new version has word {start:#010x}"));
    }
    let mut m = Model { leaf: v.is_leaf(), root: v.is_root(), deleted: v.is_deleted(), snaps: vec![], phases: 0, splits: 0 };
    if iter % 4000 == 0 {
        // once all the way round the split counter, or the counters together, and more
        let (by_split, cycles) = if rng.chance(2, 3) { (true, (1u32 << 20) + 500) } else { (false, (1u32 << 26) + 500) };
        for i in 0..cycles {
            let mut g = v.lock();
            if by_split {
                g.mark_split();
                m.root = false;
            }
            drop(g);
            if i % (1 << 19) == 77 {
                rest(&v, &m, "far round the counters");
            }
            if i % (1 << 16) == 0 {
                mtv::watch::tick();
            }
        }
        rest(&v, &m, "once round the counters");
        report::count("wraps", 2);
        report::count("phases", u64::from(cycles));
    }
    let n = if rng.chance(1, 40) { 3000 } else { rng.range(5, 200) };
    let mut log = vec![];
    for step in 0..n {
        let pre = v.stable();
        if step < 4 || rng.chance(1, (n as usize / 20).max(1)) {
            m.snaps.push((pre, m.phases, m.splits));
        }
        for (a, b) in [("has_changed", v.has_changed(pre)), ("has_changed_or_locked", v.has_changed_or_locked(pre)), ("has_split", v.has_split(pre)), ("simple_has_split", v.simple_has_split(pre))] {
            if b {
                violation("change-invented", &format!("{a} is true for the snapshot {pre:#010x} just taken of {:#010x}", v.value()));
            }
        }
        if rng.chance(1, 10) {
            // a clone is a word of its own
            let c = v.clone();
            if c.value() != v.value() {
                violation("clone", "a cloned version differs from its source");
            }
            drop(c.lock());
            if v.value() != pre {
                violation("clone", "locking a clone changed the source");
            }
        }
        match rng.below(12) {
            0 => {
                v.mark_root();
                m.root = true;
                log.push("root");
            }
            1 => {
                v.mark_nonroot();
                m.root = false;
                log.push("nonroot");
            }
            2 => {
                // a node born locked by a split
                let g = v.lock();
                let c = NodeVersion::new_for_split(&v);
                if c.is_leaf() != m.leaf || !c.is_locked() || !c.is_splitting() || !c.is_split_locked() || c.is_root() || c.is_deleted() {
                    violation("new-for-split", &format!("new_for_split gave {:#010x} for a source {:#010x}", c.value(), v.value()));
                }
                if c.value() & !(LEAF | LOCK | DIRTY) != 0 {
                    violation("new-for-split", &format!("new_for_split gave non-zero counters {:#010x}", c.value()));
                }
                if c.try_lock().is_some() {
                    violation("exclusion", "a node born locked could be locked");
                }
                let born = c.value();
                c.unlock_for_split();
                if c.is_locked() || c.is_dirty() || c.is_split_locked() || c.is_leaf() != m.leaf || c.is_root() || c.is_deleted() {
                    violation("mark-left", &format!("unlock_for_split left {:#010x}", c.value()));
                }
                if !c.has_split(born) || !c.has_changed(born & !(LOCK | DIRTY)) {
                    violation("split-hidden", "unlock_for_split did not advance the split counter");
                }
                if c.try_lock().is_none() {
                    violation("lock-left", "a node released by unlock_for_split cannot be locked");
                }
                drop(g);
                m.phases += 1;
                log.push("born");
            }
            3 => {
                // unlock_for_split on a word locked by hand with any flags
                let w = (v.value() & (LEAF | DELETED)) | counters(rng) | LOCK | 4;
                let c = NodeVersion::from_value(w);
                let (l, d) = (c.is_leaf(), c.is_deleted());
                c.unlock_for_split();
                if c.is_locked() || c.is_dirty() || c.is_leaf() != l || c.is_deleted() != d || !c.has_split(w) || c.is_root() {
                    violation("mark-left", &format!("unlock_for_split turned {w:#010x} into {:#010x}", c.value()));
                }
            }
            _ => {
                let how = rng.below(4);
                let mut g = match how {
                    0 => v.lock(),
                    1 => v.try_lock().unwrap_or_else(|| violation("refused", "try_lock failed on a free lock")),
                    2 => v.try_lock_for(Duration::from_secs(5)).unwrap_or_else(|| violation("refused", "try_lock_for failed on a free lock")),
                    _ => v.lock_with_yield(),
                };
                held(&v, &g, pre, "after locking");
                let mut split = false;
                let (mut root, mut deleted) = (m.root, m.deleted);
                let mut marks = vec![];
                for _ in 0..rng.below(4) {
                    match rng.below(8) {
                        0..3 => {
                            g.mark_insert();
                            if !v.is_inserting() {
                                violation("held", "mark_insert did not set the mark");
                            }
                            marks.push("i");
                        }
                        3..6 => {
                            g.mark_split();
                            split = true;
                            if !v.is_splitting() || !v.is_split_locked() {
                                violation("held", "mark_split did not set the mark");
                            }
                            if !v.has_changed(pre) {
                                violation("change-hidden", "has_changed is false while a split is in progress");
                            }
                            marks.push("s");
                        }
                        6 => {
                            g.mark_nonroot();
                            root = false;
                            if v.is_root() {
                                violation("flags", "mark_nonroot left the root flag");
                            }
                            marks.push("n");
                        }
                        _ => {
                            if rng.chance(1, 6) {
                                g.mark_deleted();
                                split = true;
                                deleted = true;
                                if !v.is_deleted() {
                                    violation("flags", "mark_deleted did not set the flag");
                                }
                                marks.push("d");
                            }
                        }
                    }
                    held(&v, &g, pre, "after marking");
                }
                if rng.chance(1, 30) {
                    // the lock is released by unwinding, too
                    let r = report::catch(move || {
                        let _g = g;
                        std::panic::resume_unwind(Box::new(()));
                    });
                    assert!(r.is_err());
                } else {
                    drop(g);
                }
                m.phases += 1;
                m.splits += u64::from(split);
                m.deleted = deleted;
                m.root = root && !split;
                log.push(if split { "split" } else { "insert" });
                report::count("phases", 1);
            }
        }
        rest(&v, &m, log.last().unwrap_or(&""));
        if step % 16 == 0 || n < 30 {
            snapshots(&v, &m, "after a step");
        }
    }
    snapshots(&v, &m, "at the end");
    // the single-threaded twin
    let leaf = rng.chance(1, 2);
    let mut s = SingleThreadedNodeVersion::new(leaf);
    let (mut root, mut deleted) = (false, false);
    let mut snaps: Vec<(u32, bool)> = vec![];
    for _ in 0..rng.range(1, 60) {
        for x in &mut snaps {
            if !s.has_changed(x.0) {
                violation("change-hidden", "single-threaded version: a completed phase is not reported");
            }
            if x.1 && !s.has_split(x.0) {
                violation("split-hidden", "single-threaded version: a completed split is not reported");
            }
        }
        let pre = s.stable();
        if s.has_changed(pre) || s.has_split(pre) || pre & (LOCK | DIRTY) != 0 {
            violation("change-invented", "single-threaded version: change reported without one");
        }
        if rng.chance(1, 6) {
            s.mark_root();
            root = true;
        } else if rng.chance(1, 8) {
            s.mark_nonroot();
            root = false;
        }
        let pre = s.stable();
        let mut split = false;
        let mut g = s.lock();
        for _ in 0..rng.below(3) {
            match rng.below(6) {
                0..2 => g.mark_insert(),
                2..4 => {
                    g.mark_split();
                    split = true;
                }
                4 => {
                    g.mark_nonroot();
                    root = false;
                }
                _ => {
                    g.mark_deleted();
                    split = true;
                    deleted = true;
                }
            }
        }
        drop(g);
        root &= !split;
        for x in &mut snaps {
            x.1 |= split;
        }
        snaps.push((pre, split));
        if s.is_leaf() != leaf || s.is_root() != root || s.is_deleted() != deleted || s.stable() & (LOCK | DIRTY) != 0 {
            violation("flags", &format!("single-threaded version: word {:#010x}, expected (leaf, root, deleted) = {:?}", s.stable(), (leaf, root, deleted)));
        }
    }
    let mut h = DefaultHasher::new();
    (start, &log, m.root, m.deleted, s.stable()).hash(&mut h);
    report::distinct("programs", h.finish());
    if iter % 2000 == 7 {
        report::sample(json!({"iter": iter, "start": format!("{start:#010x}"), "steps": log.iter().take(40).collect::<Vec<_>>()}));
    }
}

struct Phase {
    call: u64,
    unlock: u64,
    ret: u64,
    split: bool,
}
struct Look {
    who: usize,
    call: u64,
    snap_ret: u64,
    check: u64,
    ret: u64,
    snap: u32,
    changed: bool,
    or_locked: bool,
    split: bool,
    pair: (u64, u64),
}

/// Plain memory guarded by the lock (a race on it is a failure of exclusion, visible to sanitizers too).
struct Plain(std::cell::UnsafeCell<u64>);
unsafe impl Sync for Plain {}

fn run_conc(rng: &mut Rng, iter: u64) {
    let init = [LEAF, 0, LEAF | ROOT][rng.below(3)] | counters(rng);
    let v = NodeVersion::from_value(init);
    let (a, b) = (AtomicU64::new(0), AtomicU64::new(0));
    let inside = AtomicBool::new(false);
    let plain = Plain(std::cell::UnsafeCell::new(0));
    let phases: Mutex<Vec<Phase>> = Mutex::new(vec![]);
    let looks: Mutex<Vec<Look>> = Mutex::new(vec![]);
    let n = rng.range(2, 5);
    let writers = rng.range(1, n);
    let mut jobs: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
    let mut plan = vec![];
    for t in 0..n {
        let ops = rng.range(1, 5);
        let s = rng.next();
        let (v, a, b, inside, plain, phases, looks) = (&v, &a, &b, &inside, &plain, &phases, &looks);
        plan.push((t < writers, ops));
        jobs.push(Box::new(move || {
            let r = report::catch(|| {
            let mut rng = Rng::derive(s, 9, t as u64);
            for _ in 0..ops {
                if t < writers {
                    let call = sched::now();
                    let g = match rng.below(4) {
                        0 => v.try_lock(),
                        1 => v.try_lock_for(Duration::from_micros(20)),
                        2 => Some(v.lock()),
                        _ => Some(v.lock_with_yield()),
                    };
                    let Some(mut g) = g else {
                        report::count("lock_refused", 1);
                        continue;
                    };
                    if inside.swap(true, Relaxed) {
                        violation("exclusion", &format!("thread {t} acquired a lock that another thread holds"));
                    }
                    let split = rng.chance(1, 2);
                    if split {
                        g.mark_split();
                    } else if rng.chance(1, 2) {
                        g.mark_insert();
                    }
                    let x = unsafe { &mut *plain.0.get() };
                    let old = *x;
                    a.store(old + 1, Relaxed);
                    sched::point();
                    *x = old + 1;
                    b.store(old + 1, Relaxed);
                    sched::point();
                    if *x != old + 1 || !v.is_locked() {
                        violation("exclusion", &format!("thread {t}: the protected counter changed while the lock was held"));
                    }
                    inside.store(false, Relaxed);
                    let unlock = sched::now();
                    drop(g);
                    let ret = sched::now();
                    phases.lock().unwrap().push(Phase { call, unlock, ret, split });
                } else {
                    let call = sched::now();
                    let snap = v.stable();
                    let snap_ret = sched::now();
                    if snap & (LOCK | DIRTY) != 0 {
                        violation("snapshot-dirty", &format!("thread {t}: stable() returned {snap:#010x} in the middle of a modification"));
                    }
                    let x = a.load(Relaxed);
                    sched::point();
                    let y = b.load(Relaxed);
                    sched::point();
                    std::sync::atomic::fence(std::sync::atomic::Ordering::SeqCst);
                    let check = sched::now();
                    let (split, changed, or_locked) = if rng.chance(1, 2) {
                        (v.has_split(snap), v.has_changed(snap), v.has_changed_or_locked(snap))
                    } else {
                        (v.simple_has_split(snap), v.has_changed(snap), v.has_changed_or_locked(snap))
                    };
                    let ret = sched::now();
                    looks.lock().unwrap().push(Look { who: t, call, snap_ret, check, ret, snap, changed, or_locked, split, pair: (x, y) });
                }
            }
            });
            if let Err(m) = r {
                violation("panic", &format!("thread {t}: a lock operation panicked: {m}"));
            }
        }));
    }
    let strat = comp::strategy(rng, n, 60);
    let desc = strat.describe();
    report::scenario(format!("word {init:#010x}, threads (writer, operations) {plan:?}, schedule {desc}"));
    let info = sched::run(strat, rng.next(), 200_000, jobs);
    let phases = phases.into_inner().unwrap();
    for l in looks.into_inner().unwrap() {
        for p in &phases {
            if p.unlock > l.snap_ret && p.ret < l.check {
                if !l.changed || !l.or_locked {
                    violation("change-hidden", &format!("thread {}: a phase completed between the snapshot {:#010x} and its validation is not reported (has_changed {}, or_locked {})", l.who, l.snap, l.changed, l.or_locked));
                }
                if p.split && !l.split {
                    violation("split-hidden", &format!("thread {}: a split completed between the snapshot {:#010x} and its validation is not reported as a split", l.who, l.snap));
                }
            }
        }
        if phases.iter().all(|p| p.ret < l.call || p.call > l.ret) && (l.changed || l.or_locked || l.split) && info.steps > 0 {
            // lock attempts that failed leave no trace either
            violation("change-invented", &format!("thread {}: a change is reported though none happened", l.who));
        }
        if !l.or_locked && l.pair.0 != l.pair.1 {
            violation("torn-read", &format!("thread {}: a read of {:?} in the middle of a modification was validated", l.who, l.pair));
        }
        report::count("validated_reads", 1);
        report::count(if l.or_locked { "reads_told_of_change" } else { "reads_unchanged" }, 1);
    }
    let done = unsafe { *plain.0.get() };
    if done != phases.len() as u64 || a.load(Relaxed) != done || b.load(Relaxed) != done {
        violation("exclusion", &format!("{} phases ran but the protected counter is {done}", phases.len()));
    }
    if v.is_locked() || v.is_dirty() || v.is_leaf() != (init & LEAF != 0) {
        violation("lock-left", &format!("the word is {:#010x} after all threads finished", v.value()));
    }
    report::count("phases", done);
    {
        let mut h = DefaultHasher::new();
        (init, &plan, info.hash).hash(&mut h);
        report::distinct("programs", h.finish());
    }
    if iter % 3000 == 7 {
        report::sample(json!({"iter": iter, "threads": format!("{plan:?}"), "schedule": desc, "steps": info.steps}));
    }
}

/// As `run_conc`, where loads may yield older values: what a validated reader or a holder
/// sees must be right although nothing but the version word orders the accesses.
#[cfg(masstree_verif)]
fn run_weak(rng: &mut Rng, iter: u64) {
    use masstree::verif::atomic::AtomicU64;
    use std::sync::atomic::Ordering::{Acquire, Release};
    let init = [LEAF, 0, LEAF | ROOT][rng.below(3)] | counters(rng);
    let v = NodeVersion::from_value(init);
    const W: usize = 3;
    let data: [AtomicU64; W] = [const { AtomicU64::new(0) }; W];
    // written and read without any ordering, by holders
    let total = AtomicU64::new(0);
    let n = rng.range(2, 4);
    let writers = rng.range(1, n);
    // relaxed stores need what the lock provides; releasing ones need less
    let order = if rng.chance(1, 2) { Relaxed } else { Release };
    let mut jobs: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
    let mut plan = vec![];
    for t in 0..n {
        let ops = rng.range(1, 4);
        let s = rng.next();
        plan.push((t < writers, ops));
        let (v, data, total) = (&v, &data, &total);
        jobs.push(Box::new(move || {
            let r = report::catch(|| {
                let mut rng = Rng::derive(s, 10, t as u64);
                for _ in 0..ops {
                    if t < writers {
                        let g = match rng.below(4) {
                            0 => v.try_lock(),
                            1 => v.try_lock_for(Duration::from_micros(20)),
                            2 => Some(v.lock()),
                            _ => Some(v.lock_with_yield()),
                        };
                        let Some(mut g) = g else { continue };
                        let split = rng.chance(1, 2);
                        if split {
                            g.mark_split();
                        } else if rng.chance(1, 2) {
                            g.mark_insert();
                        }
                        let x = total.load(Relaxed);
                        for d in data {
                            if d.load(Relaxed) != x {
                                violation("exclusion", &format!("thread {t}: a holder sees the counters apart: {x} and {}", d.load(Relaxed)));
                            }
                        }
                        for d in data {
                            d.store(x + 1, order);
                        }
                        total.store(x + 1, Relaxed);
                        drop(g);
                    } else {
                        let snap = v.stable();
                        let mut got = [0; W];
                        let up = rng.chance(1, 2);
                        for i in 0..W {
                            let i = if up { i } else { W - 1 - i };
                            got[i] = data[i].load(Acquire);
                        }
                        let (changed, or_locked, split) = (v.has_changed(snap), v.has_changed_or_locked(snap), v.has_split(snap));
                        if !or_locked && got.iter().any(|x| *x != got[0]) {
                            violation("torn-read", &format!("thread {t}: a read of {got:?} in the middle of a modification was validated (has_changed {changed}, has_split {split})"));
                        }
                        report::count("validated_reads", 1);
                    }
                }
            });
            if let Err(m) = r {
                violation("panic", &format!("thread {t}: a lock operation panicked: {m}"));
            }
        }));
    }
    let strat = comp::strategy(rng, n, 60);
    let desc = strat.describe();
    report::scenario(format!("word {init:#010x}, threads (writer, operations) {plan:?}, stores {order:?}, schedule {desc}"));
    let info = sched::run(strat, rng.next(), 200_000, jobs);
    let mut h = DefaultHasher::new();
    (init, &plan, info.hash).hash(&mut h);
    report::distinct("programs", h.finish());
    report::count("phases", total.load(Relaxed));
    if iter % 3000 == 7 {
        report::sample(json!({"iter": iter, "threads": format!("{plan:?}"), "schedule": desc, "steps": info.steps}));
    }
}

fn main() {
    let (engine, args): (String, Args) = Args::parse();
    report::init(&engine, &args);
    sched::install();
    match engine.as_str() {
        "seq" => comp::drive(&args, 31, run_seq),
        "conc" => comp::drive(&args, 32, run_conc),
        #[cfg(masstree_verif)]
        "weak" => comp::drive(&args, 33, run_weak),
        _ => {
            eprintln!("unknown engine {engine}");
            std::process::exit(2)
        }
    }
}
