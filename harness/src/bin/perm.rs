//! P13: slot-order words. `seq`: random operation sequences against a vector model, both encodings, all widths.
//! `conc`: compare-and-swap, freeze and unfreeze on one leaf's shared word under the scheduler.
use masstree::leaf_trait::FreezeGuardOps;
use masstree::permuter::Permuter;
use masstree::{AtomicPermuter24, Freeze24Utils, LeafNode24, LeafValue, Permuter24, PermutationProvider, TreeLeafNode, TreePermutation};
use mtv::report::{self, Args, violation};
use mtv::rng::Rng;
use mtv::{comp, sched};
use serde_json::json;
use std::collections::HashMap;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::sync::Mutex;
use std::sync::atomic::Ordering::{AcqRel, Acquire, Release};

#[global_allocator]
static A: mtv::alloc::Counting = mtv::alloc::Counting;

/// Operations beyond the tree's own trait.
trait Word: TreePermutation + Copy + PartialEq {
    fn remove(&mut self, i: usize);
    fn remove_to_back(&mut self, i: usize);
    fn exchange(&mut self, i: usize, j: usize);
    fn rotate(&mut self, i: usize, j: usize);
    fn set(&mut self, i: usize, s: usize);
    fn valid(&self);
    fn provider(&self) -> (usize, Vec<usize>);
}
macro_rules! word {
    ($t:ty) => {
        fn remove(&mut self, i: usize) {
            <$t>::remove(self, i)
        }
        fn remove_to_back(&mut self, i: usize) {
            <$t>::remove_to_back(self, i)
        }
        fn exchange(&mut self, i: usize, j: usize) {
            <$t>::exchange(self, i, j)
        }
        fn rotate(&mut self, i: usize, j: usize) {
            <$t>::rotate(self, i, j)
        }
        fn set(&mut self, i: usize, s: usize) {
            <$t>::set(self, i, s)
        }
        fn valid(&self) {
            self.debug_assert_valid()
        }
        fn provider(&self) -> (usize, Vec<usize>) {
            (PermutationProvider::size(self), (0..<Self as TreePermutation>::WIDTH).map(|i| PermutationProvider::get(self, i)).collect())
        }
    };
}
impl<const W: usize> Word for Permuter<W> {
    word!(Permuter<W>);
}
impl Word for Permuter24 {
    word!(Permuter24);
}

#[derive(Clone, PartialEq, Debug)]
struct Model {
    slots: Vec<usize>,
    size: usize,
}

fn decode<P: Word>(p: &P) -> Model {
    Model { slots: (0..P::WIDTH).map(|i| p.get(i)).collect(), size: p.size() }
}

fn compare<P: Word>(p: &P, m: &Model, op: &str, before: &Model) {
    let d = decode(p);
    let mut seen = d.slots.clone();
    seen.sort_unstable();
    if seen != (0..P::WIDTH).collect::<Vec<_>>() || d.size > P::WIDTH {
        violation("not-a-permutation", &format!("width {}: {op} on {before:?} leaves {d:?}", P::WIDTH));
    }
    if d != *m {
        violation("wrong-order", &format!("width {}: {op} on {before:?} gives {d:?}, expected {m:?}", P::WIDTH));
    }
    if p.back() != m.slots[P::WIDTH - 1] {
        violation("wrong-order", &format!("width {}: back() = {} after {op}, expected {}", P::WIDTH, p.back(), m.slots[P::WIDTH - 1]));
    }
    for o in 0..P::WIDTH - m.size {
        if p.back_at_offset(o) != m.slots[P::WIDTH - 1 - o] {
            violation("wrong-order", &format!("width {}: back_at_offset({o}) = {} after {op}", P::WIDTH, p.back_at_offset(o)));
        }
    }
    let (n, v) = p.provider();
    if n != m.size || v != m.slots {
        violation("wrong-order", &format!("width {}: the suffix storage's view of the order differs after {op}", P::WIDTH));
    }
    if P::is_frozen_raw(p.value()) {
        violation("frozen-wrong", &format!("width {}: an ordinary word {d:?} counts as frozen", P::WIDTH));
    }
    let f = P::freeze_raw(p.value());
    if !P::is_frozen_raw(f) {
        violation("frozen-wrong", &format!("width {}: a frozen word does not count as frozen, from {d:?}", P::WIDTH));
    }
    let fp = P::from_value(f);
    let differ = (0..P::WIDTH).filter(|&i| fp.get(i) != p.get(i)).count();
    if fp.size() != p.size() || differ > 1 {
        violation("frozen-wrong", &format!("width {}: freezing changed the size or {differ} positions of {d:?}", P::WIDTH));
    }
    p.valid();
    report::count("words_checked", 1);
}

fn run_word<P: Word>(rng: &mut Rng, iter: u64) {
    let w = P::WIDTH;
    let (mut p, mut m) = if rng.chance(1, 2) {
        (P::empty(), Model { slots: (0..w).rev().collect(), size: 0 })
    } else {
        let n = rng.below(w + 1);
        (P::make_sorted(n), Model { slots: (0..n).chain((n..w).rev()).collect(), size: n })
    };
    compare(&p, &m, "construction", &m);
    let mut ops = vec![];
    let n = rng.range(5, 120);
    let grow = rng.range(1, 4);
    for _ in 0..n {
        let before = m.clone();
        let op;
        match rng.below(10 + grow * 3) {
            0 if m.size > 0 => {
                let i = rng.below(m.size);
                op = format!("remove({i})");
                p.remove(i);
                let s = m.slots.remove(i);
                m.slots.insert(m.size - 1, s);
                m.size -= 1;
            }
            1 if m.size > 0 => {
                let i = rng.below(m.size);
                op = format!("remove_to_back({i})");
                p.remove_to_back(i);
                let s = m.slots.remove(i);
                m.slots.push(s);
                m.size -= 1;
            }
            2 => {
                let (i, j) = (rng.below(w), rng.below(w));
                op = format!("exchange({i},{j})");
                p.exchange(i, j);
                m.slots.swap(i, j);
            }
            3 => {
                let i = rng.below(w + 1);
                let j = i + rng.below(w + 1 - i);
                op = format!("rotate({i},{j})");
                p.rotate(i, j);
                m.slots[i..].rotate_left(j - i);
            }
            4 if m.size < w => {
                let (i, j) = (m.size + rng.below(w - m.size), m.size + rng.below(w - m.size));
                op = format!("swap_free_slots({i},{j})");
                p.swap_free_slots(i, j);
                m.slots.swap(i, j);
            }
            5 => {
                let s = rng.below(w + 1);
                op = format!("set_size({s})");
                p.set_size(s);
                m.size = s;
            }
            6 => {
                let (i, j) = (rng.below(w), rng.below(w));
                op = format!("set({i}) and set({j})");
                let (a, b) = (p.get(i), p.get(j));
                p.set(i, b);
                p.set(j, a);
                m.slots.swap(i, j);
            }
            7 => {
                op = "from_value(value())".to_string();
                p = P::from_value(p.value());
            }
            8 if m.size < w => {
                let i = rng.below(m.size + 1);
                op = format!("insert_from_back_immutable({i})");
                let old = p.value();
                let (q, s) = p.insert_from_back_immutable(i);
                if p.value() != old {
                    violation("wrong-order", "insert_from_back_immutable changed its source");
                }
                let t = m.slots.pop().unwrap();
                m.slots.insert(i, t);
                m.size += 1;
                if s != t {
                    violation("wrong-order", &format!("width {w}: {op} on {before:?} returned slot {s}, expected {t}"));
                }
                p = q;
            }
            _ if m.size < w => {
                let i = match rng.below(4) {
                    0 => 0,
                    1 => m.size,
                    _ => rng.below(m.size + 1),
                };
                op = format!("insert_from_back({i})");
                let s = p.insert_from_back(i);
                let t = m.slots.pop().unwrap();
                m.slots.insert(i, t);
                m.size += 1;
                if s != t {
                    violation("wrong-order", &format!("width {w}: {op} on {before:?} returned slot {s}, expected {t}"));
                }
            }
            _ => continue,
        }
        compare(&p, &m, &op, &before);
        ops.push(op);
    }
    let mut h = DefaultHasher::new();
    (w, &ops).hash(&mut h);
    report::distinct("programs", h.finish());
    if iter % 3000 == 5 {
        report::sample(json!({"iter": iter, "width": w, "operations": ops.iter().take(30).collect::<Vec<_>>()}));
    }
}

/// The shared word and the freeze helpers, one thread.
fn run_atomic(rng: &mut Rng) {
    let random = |rng: &mut Rng| {
        let mut p = Permuter24::empty();
        for _ in 0..rng.below(25) {
            let i = rng.below(p.size() + 1);
            p.insert_from_back(i);
        }
        for _ in 0..10 {
            p.exchange(rng.below(24), rng.below(24));
        }
        p
    };
    let a = AtomicPermuter24::from_permuter(random(rng));
    let mut cur = a.load(Acquire);
    for _ in 0..rng.range(5, 40) {
        match rng.below(7) {
            0 => {
                let n = random(rng);
                a.store(n, Release);
                cur = n;
            }
            1 | 2 => {
                let (exp, new) = (if rng.chance(1, 2) { cur } else { random(rng) }, random(rng));
                let r = a.compare_exchange(exp, new, AcqRel, Acquire);
                if r.is_ok() != (exp == cur) || r.map_or_else(|e| e, |v| v) != cur {
                    violation("swap-wrong", &format!("compare_exchange of {:#x} with current {:#x} gave {r:?}", exp.value(), cur.value()));
                }
                if exp == cur {
                    cur = new;
                }
            }
            3 => {
                let (exp, new) = (if rng.chance(1, 2) { cur } else { random(rng) }, random(rng));
                let r = a.compare_exchange_weak(exp, new, AcqRel, Acquire);
                if r.is_ok() && exp != cur || r.map_or_else(|e| e, |v| v) != cur {
                    violation("swap-wrong", &format!("compare_exchange_weak of {:#x} with current {:#x} gave {r:?}", exp.value(), cur.value()));
                }
                if r.is_ok() {
                    cur = new;
                }
            }
            4 => {
                let f = Freeze24Utils::freeze_raw(cur.value());
                let ok = a.compare_exchange_raw(cur.value(), f, AcqRel, Acquire);
                if ok != Ok(cur.value()) || a.load_raw(Acquire) != f || !Freeze24Utils::is_frozen(f) {
                    violation("swap-wrong", "freezing the word through a raw swap failed");
                }
                let next = cur.insert_from_back_immutable_checked();
                if let Some(n) = next
                    && a.compare_exchange(cur, n, AcqRel, Acquire).is_ok()
                {
                    violation("frozen-modified", "a swap succeeded on a frozen word");
                }
                let back = Freeze24Utils::unfreeze_raw(f, Freeze24Utils::get_slot23(cur.value()));
                if back != cur.value() || Freeze24Utils::is_frozen(back) {
                    violation("frozen-wrong", &format!("unfreezing gives {back:#x}, was {:#x}", cur.value()));
                }
                a.store_raw(back, Release);
            }
            _ => {}
        }
        if a.load(Acquire) != cur || a.load_raw(Acquire) != cur.value() {
            violation("swap-wrong", &format!("the word is {:#x}, expected {:#x}", a.load_raw(Acquire), cur.value()));
        }
        report::count("words_checked", 1);
    }
    if AtomicPermuter24::new().load(Acquire) != Permuter24::empty() {
        violation("wrong-order", "a new shared word is not the empty order");
    }
}
/// A leaf's own word, one thread.
fn run_leaf_word(rng: &mut Rng) {
    type L = LeafNode24<LeafValue<u64>>;
    let leaf: Box<L> = LeafNode24::new();
    let leaf: &L = &leaf;
    let mut cur = leaf.permutation();
    for _ in 0..rng.range(5, 40) {
        let new = {
            let k = rng.below(25);
            shuffled(rng, k)
        };
        match rng.below(4) {
            0 => {
                leaf.set_permutation(new);
                cur = new;
            }
            1 | 2 => {
                let other = {
                    let k = rng.below(25);
                    shuffled(rng, k)
                };
                let exp = if rng.chance(1, 2) { cur } else { other };
                let (r, frozen) = if rng.chance(1, 2) {
                    (leaf.cas_permutation(exp, new), false)
                } else {
                    match <L as TreeLeafNode<LeafValue<u64>>>::cas_permutation_raw(leaf, exp, new) {
                        Ok(()) => (Ok(()), false),
                        Err(e) => (Err(e.current()), e.is_frozen()),
                    }
                };
                let want = if exp == cur { Ok(()) } else { Err(cur) };
                if r != want || frozen {
                    violation("swap-wrong", &format!("a swap on a leaf holding {:#x}, expecting {:#x}, gave {r:?} (frozen {frozen})", cur.value(), exp.value()));
                }
                if exp == cur {
                    cur = new;
                }
            }
            _ => {
                let mut lk = leaf.version().lock();
                lk.mark_split();
                let fg = <L as TreeLeafNode<LeafValue<u64>>>::freeze_permutation(leaf);
                let raw = leaf.permutation_raw();
                if fg.snapshot() != cur || fg.snapshot_raw() != cur.value() || !Freeze24Utils::is_frozen(raw) {
                    violation("frozen-wrong", &format!("freezing {:#x} gave the word {raw:#x} and the order {:#x}", cur.value(), fg.snapshot().value()));
                }
                if report::catch(|| leaf.cas_permutation(cur, new)).is_ok_and(|r| r.is_ok()) || leaf.permutation_raw() != raw {
                    violation("frozen-modified", &format!("a swap changed the frozen word {raw:#x} to {:#x}", leaf.permutation_raw()));
                }
                if <L as TreeLeafNode<LeafValue<u64>>>::permutation_try(leaf).is_ok() {
                    violation("frozen-handed-out", "permutation_try gave an order of a frozen word");
                }
                if rng.chance(1, 2) {
                    <L as TreeLeafNode<LeafValue<u64>>>::unfreeze_set_permutation(leaf, fg, new);
                    cur = new;
                } else {
                    drop(fg);
                }
                drop(lk);
            }
        }
        let n = cur.size();
        if leaf.permutation() != cur || leaf.permutation_raw() != cur.value() {
            violation("swap-wrong", &format!("the leaf's word is {:#x}, expected {:#x}", leaf.permutation_raw(), cur.value()));
        }
        if (leaf.size(), leaf.is_empty(), leaf.is_full()) != (n, n == 0, n == 24) {
            violation("wrong-order", &format!("a leaf with the order {:#x} of {n} entries says (size, empty, full) = {:?}", cur.value(), (leaf.size(), leaf.is_empty(), leaf.is_full())));
        }
        report::count("words_checked", 1);
    }
}

trait Checked: Sized {
    fn insert_from_back_immutable_checked(&self) -> Option<Self>;
}
impl Checked for Permuter24 {
    fn insert_from_back_immutable_checked(&self) -> Option<Self> {
        (self.size() < 24).then(|| self.insert_from_back_immutable(self.size() / 2).0)
    }
}

fn run_seq(rng: &mut Rng, iter: u64) {
    if rng.chance(1, 8) {
        return run_atomic(rng);
    }
    if rng.chance(1, 8) {
        return run_leaf_word(rng);
    }
    match rng.below(30) {
        1 => run_word::<Permuter<1>>(rng, iter),
        2 => run_word::<Permuter<2>>(rng, iter),
        3 => run_word::<Permuter<3>>(rng, iter),
        4 => run_word::<Permuter<4>>(rng, iter),
        5 => run_word::<Permuter<5>>(rng, iter),
        6 => run_word::<Permuter<6>>(rng, iter),
        7 => run_word::<Permuter<7>>(rng, iter),
        8 => run_word::<Permuter<8>>(rng, iter),
        9 => run_word::<Permuter<9>>(rng, iter),
        10 => run_word::<Permuter<10>>(rng, iter),
        11 => run_word::<Permuter<11>>(rng, iter),
        12 => run_word::<Permuter<12>>(rng, iter),
        13 => run_word::<Permuter<13>>(rng, iter),
        14 => run_word::<Permuter<14>>(rng, iter),
        15..19 => run_word::<Permuter<15>>(rng, iter),
        _ => run_word::<Permuter24>(rng, iter),
    }
}

type Leaf = LeafNode24<LeafValue<u64>>;

fn shuffled(rng: &mut Rng, size: usize) -> Permuter24 {
    let mut v: Vec<usize> = (0..24).collect();
    rng.shuffle(&mut v);
    let mut p = Permuter24::make_sorted(size);
    for (i, s) in v.iter().enumerate() {
        p.set(i, *s);
    }
    p
}

fn sound(raw: u128) -> bool {
    let p = Permuter24::from_value(raw);
    let mut seen = 0u32;
    for i in 0..24 {
        if p.get(i) < 24 {
            seen |= 1 << p.get(i);
        }
    }
    p.size() <= 24 && seen == (1 << 24) - 1
}

fn run_conc(rng: &mut Rng, iter: u64) {
    let leaf: Box<Leaf> = <Leaf as TreeLeafNode<LeafValue<u64>>>::new_boxed();
    let start = {
        let n = rng.below(20);
        shuffled(rng, n)
    };
    leaf.set_permutation(start);
    let n = rng.range(2, 5);
    // transitions of the word: from, to, by whom
    let moves: Mutex<Vec<(u128, u128, String)>> = Mutex::new(vec![]);
    let handed: Mutex<Vec<(usize, u128, &'static str)>> = Mutex::new(vec![]);
    let mut jobs: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
    let mut plan = vec![];
    for t in 0..n {
        let ops = rng.range(1, 5);
        let s = rng.next();
        let role = if t == 0 { 0 } else { rng.below(4) };
        plan.push((role, ops));
        let (leaf, moves, handed) = (&*leaf, &moves, &handed);
        jobs.push(Box::new(move || {
            let r = report::catch(|| {
                let mut rng = Rng::derive(s, 11, t as u64);
                for _ in 0..ops {
                    match role {
                        0 => {
                            // a writer that freezes, and either publishes or backs out
                            let mut lk = leaf.version().lock();
                            lk.mark_split();
                            let fg = <Leaf as TreeLeafNode<LeafValue<u64>>>::freeze_permutation(leaf);
                            let snap = fg.snapshot();
                            if fg.snapshot_raw() != snap.value() || Freeze24Utils::is_frozen(snap.value()) {
                                violation("frozen-handed-out", "the snapshot of a freeze is frozen or inconsistent");
                            }
                            handed.lock().unwrap().push((t, snap.value(), "freeze snapshot"));
                            if !leaf.is_perm_frozen() || !<Leaf as TreeLeafNode<LeafValue<u64>>>::is_permutation_frozen(leaf) {
                                violation("frozen-modified", "the word is not frozen right after freezing");
                            }
                            let f0 = leaf.permutation_raw();
                            for _ in 0..rng.below(3) {
                                sched::point();
                                if leaf.permutation_raw() != f0 {
                                    violation("frozen-modified", &format!("a frozen word changed from {f0:#x} to {:#x}", leaf.permutation_raw()));
                                }
                            }
                            match rng.below(4) {
                                0 => {
                                    drop(fg);
                                    if leaf.version().is_locked() && Freeze24Utils::is_frozen(leaf.permutation_raw()) {
                                        violation("frozen-wrong", "abandoning a freeze left the word frozen");
                                    }
                                    moves.lock().unwrap().push((snap.value(), snap.value(), format!("thread {t} freezes and backs out")));
                                }
                                1 => {
                                    // backs out by unwinding
                                    let r = report::catch(move || {
                                        let _fg = fg;
                                        std::panic::resume_unwind(Box::new(()));
                                    });
                                    assert!(r.is_err());
                                    moves.lock().unwrap().push((snap.value(), snap.value(), format!("thread {t} freezes and unwinds")));
                                }
                                _ => {
                                    let new = {
                                        let k = rng.below(15);
                                        shuffled(&mut rng, k)
                                    };
                                    moves.lock().unwrap().push((snap.value(), new.value(), format!("thread {t} freezes and publishes")));
                                    <Leaf as TreeLeafNode<LeafValue<u64>>>::unfreeze_set_permutation(leaf, fg, new);
                                }
                            }
                            drop(lk);
                        }
                        1 | 2 => {
                            // an optimistic inserter
                            let p = if rng.chance(1, 2) {
                                match <Leaf as TreeLeafNode<LeafValue<u64>>>::permutation_try(leaf) {
                                    Ok(p) => p,
                                    Err(()) => {
                                        report::count("refused_while_frozen", 1);
                                        continue;
                                    }
                                }
                            } else {
                                <Leaf as TreeLeafNode<LeafValue<u64>>>::permutation_wait(leaf)
                            };
                            handed.lock().unwrap().push((t, p.value(), "permutation for an insert"));
                            if p.size() >= 24 || Freeze24Utils::is_frozen(p.value()) {
                                continue;
                            }
                            let (np, _) = p.insert_from_back_immutable(rng.below(p.size() + 1));
                            sched::point();
                            match <Leaf as TreeLeafNode<LeafValue<u64>>>::cas_permutation_raw(leaf, p, np) {
                                Ok(()) => moves.lock().unwrap().push((p.value(), np.value(), format!("thread {t} swaps"))),
                                Err(e) => {
                                    let c = e.current().value();
                                    if e.is_frozen() != Freeze24Utils::is_frozen(c) {
                                        violation("frozen-wrong", "a failed swap misreports whether the word is frozen");
                                    }
                                    if !e.is_frozen() {
                                        handed.lock().unwrap().push((t, c, "current order of a failed swap"));
                                    }
                                    report::count("swaps_failed", 1);
                                }
                            }
                        }
                        _ => {
                            if rng.chance(1, 2) {
                                if let Ok(p) = <Leaf as TreeLeafNode<LeafValue<u64>>>::permutation_try(leaf) {
                                    handed.lock().unwrap().push((t, p.value(), "permutation_try"));
                                } else {
                                    report::count("refused_while_frozen", 1);
                                }
                            } else {
                                let p = <Leaf as TreeLeafNode<LeafValue<u64>>>::permutation_wait(leaf);
                                handed.lock().unwrap().push((t, p.value(), "permutation_wait"));
                            }
                        }
                    }
                }
            });
            if let Err(m) = r {
                violation("panic", &format!("thread {t}: an operation on the slot order panicked: {m}"));
            }
        }));
    }
    let strat = comp::strategy(rng, n, 50);
    let desc = strat.describe();
    report::scenario(format!("size {}, threads (role, operations) {plan:?}, schedule {desc}", start.size()));
    let info = sched::run(strat, rng.next(), 200_000, jobs);
    let moves = moves.into_inner().unwrap();
    let end = leaf.permutation_raw();
    // the transitions must form one chain from the first word to the last
    let mut next: HashMap<u128, (u128, &str)> = HashMap::new();
    let mut real = 0u64;
    for (a, b, who) in &moves {
        if a != b {
            real += 1;
            if let Some((_, other)) = next.insert(*a, (*b, who)) {
                violation("swap-lost", &format!("the word {a:#x} was replaced twice: {other}; {who}"));
            }
        }
    }
    let mut seen = vec![start.value()];
    let mut c = start.value();
    while let Some((b, _)) = next.remove(&c) {
        c = b;
        seen.push(c);
    }
    if let Some((a, (b, who))) = next.iter().next() {
        violation("swap-lost", &format!("{who}: {a:#x} to {b:#x} succeeded but the word never had that value; chain {seen:x?}"));
    }
    if c != end {
        violation("swap-lost", &format!("the last successful change gave {c:#x} but the word is {end:#x}"));
    }
    for (a, b, who) in &moves {
        if a == b && !seen.contains(a) {
            violation("swap-lost", &format!("{who}: the restored word {a:#x} never was the word"));
        }
    }
    for (t, v, what) in handed.into_inner().unwrap() {
        if Freeze24Utils::is_frozen(v) {
            violation("frozen-handed-out", &format!("thread {t}: {what} gave the frozen word {v:#x}"));
        }
        if !sound(v) {
            violation("not-a-permutation", &format!("thread {t}: {what} gave {v:#x}"));
        }
        if !seen.contains(&v) {
            violation("frozen-handed-out", &format!("thread {t}: {what} gave {v:#x}, which was never published"));
        }
        report::count("orders_handed_out", 1);
    }
    report::count("transitions", real);
    let mut h = DefaultHasher::new();
    (&plan, info.hash).hash(&mut h);
    report::distinct("programs", h.finish());
    if iter % 3000 == 7 {
        report::sample(json!({"iter": iter, "threads (role, operations)": format!("{plan:?}"), "schedule": desc, "transitions": real}));
    }
}

fn main() {
    let (engine, args): (String, Args) = Args::parse();
    report::init(&engine, &args);
    sched::install();
    match engine.as_str() {
        "seq" => comp::drive(&args, 41, run_seq),
        "conc" => comp::drive(&args, 42, run_conc),
        _ => {
            eprintln!("unknown engine {engine}");
            std::process::exit(2)
        }
    }
}
