//! Large trees: thousands of keys per tree, so that internodes of every level
//! split, below the root of the tree and below the roots of its layers, while
//! several threads insert and look up. Every key's whole history is accounted for.
use crate::keys::hex;
use crate::report::{self, Args, violation};
use crate::rng::Rng;
use crate::sched::{self, Strategy};
use crate::store::Store;
use crate::val::{self, Cv, Val};
use crate::watch::tick;
use masstree::{MassTree, MassTree24Inline};
use serde_json::json;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::{Relaxed, SeqCst}};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Shape {
    /// One slice, evenly spaced.
    Even,
    /// One slice, anywhere.
    Random,
    /// A few layers deep, all below one prefix.
    Below,
    /// Many layers of a few hundred keys each.
    Heads,
    /// A slice and a suffix.
    Suffixed,
    /// Groups of keys that share a slice, of different lengths.
    Groups,
    /// Two slices; the second one makes a layer now and then.
    Twigs,
}
const SHAPES: &[Shape] = &[Shape::Even, Shape::Random, Shape::Below, Shape::Heads, Shape::Suffixed, Shape::Groups, Shape::Twigs];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Order {
    Up,
    Down,
    Random,
    /// From the middle to both ends.
    Outward,
    /// Ascending runs that start anywhere.
    Runs,
    /// Every eighth key, then the gaps in random order.
    Gaps,
}
const ORDERS: &[Order] = &[Order::Up, Order::Down, Order::Random, Order::Random, Order::Outward, Order::Runs, Order::Gaps];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Share {
    /// Every key is written by one thread; threads take turns along the order.
    Striped,
    /// Each thread writes a stretch of the order.
    Blocks,
    /// All threads write all keys.
    Contested,
    /// The first thread writes a short stretch of neighbours, half of it beforehand; the
    /// others write the rest of the order.
    Siege,
}

fn make(shape: Shape, n: usize, rng: &mut Rng) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = Vec::with_capacity(n);
    match shape {
        Shape::Even => {
            let stride = *rng.pick(&[1u64, 7, 256, 1 << 40]);
            let base = *rng.pick(&[0u64, 0x7FFF_FFFF_FFF0_0000, 0x6161_6161_0000_0000]);
            v.extend((0..n as u64).map(|i| base.wrapping_add(i * stride).to_be_bytes().to_vec()));
        }
        Shape::Random => v.extend((0..n).map(|_| rng.next().to_be_bytes()[..rng.range(6, 8)].to_vec())),
        Shape::Below => {
            let p: Vec<u8> = (0..8 * rng.range(1, 3)).map(|_| rng.next() as u8).collect();
            let tail = rng.range(0, 3);
            v.extend((0..n as u64).map(|i| {
                let mut k = p.clone();
                k.extend((i * 3).to_be_bytes());
                k.extend(std::iter::repeat_n(b'z', tail));
                k
            }));
        }
        Shape::Heads => {
            let heads = (n / 400).max(1) as u64;
            v.extend((0..n as u64).map(|i| {
                let mut k = (i % heads * 11).to_be_bytes().to_vec();
                k.extend((i / heads).to_be_bytes());
                k
            }));
        }
        Shape::Suffixed => {
            let l = rng.range(1, 30);
            v.extend((0..n as u64).map(|i| {
                let mut k = (i << 20).to_be_bytes().to_vec();
                k.extend(std::iter::repeat_n(i as u8, 1 + (i as usize % l)));
                k
            }));
        }
        Shape::Groups => {
            for i in 0.. {
                if v.len() >= n {
                    break;
                }
                let mut k = (i as u32 * 2 + 1).to_be_bytes().to_vec();
                for _ in 0..rng.range(1, 5) {
                    v.push(k.clone());
                    k.push(0);
                }
                if rng.chance(1, 4) {
                    k.resize(12, 0);
                    v.push(k);
                }
            }
        }
        Shape::Twigs => v.extend((0..n).map(|_| {
            let mut k = (rng.below(n / 2 + 1) as u64).to_be_bytes().to_vec();
            if rng.chance(3, 4) {
                k.extend((rng.below(5) as u64).to_be_bytes());
            }
            k
        })),
    }
    v.sort_unstable();
    v.dedup();
    v
}

fn arrange(n: usize, order: Order, rng: &mut Rng) -> Vec<u32> {
    let mut v: Vec<u32> = (0..n as u32).collect();
    match order {
        Order::Up => {}
        Order::Down => v.reverse(),
        Order::Random => rng.shuffle(&mut v),
        Order::Outward => {
            let (mut a, mut b) = (n / 2, n / 2);
            v.clear();
            while v.len() < n {
                if b < n {
                    v.push(b as u32);
                    b += 1;
                }
                if a > 0 {
                    a -= 1;
                    v.push(a as u32);
                }
            }
        }
        Order::Runs => {
            let l = rng.range(8, 300);
            let mut cs: Vec<Vec<u32>> = v.chunks(l).map(<[u32]>::to_vec).collect();
            rng.shuffle(&mut cs);
            v = cs.concat();
        }
        Order::Gaps => {
            let mut rest: Vec<u32> = v.iter().copied().filter(|i| i % 8 != 0).collect();
            rng.shuffle(&mut rest);
            v.retain(|i| i % 8 == 0);
            v.extend(rest);
        }
    }
    v
}

/// The besieged stretch comes last in the order, the keys beside it towards it before.
fn siege(n: usize, rng: &mut Rng) -> (Vec<u32>, Order, usize, Share, Strategy, usize) {
    let stretch = rng.range(30, 100).min(n / 2);
    let at = match rng.below(6) {
        0 | 1 => rng.range(0, n - stretch),
        2 => 0,
        _ => n - stretch,
    };
    let mut v: Vec<u32> = (0..at as u32).collect();
    let above: Vec<u32> = ((at + stretch) as u32..n as u32).rev().collect();
    if rng.chance(1, 2) {
        v.extend(above);
    } else {
        v = v.iter().zip(&above).flat_map(|(a, b)| [*a, *b]).collect();
        v.extend(at.min(above.len()) as u32..at as u32);
        v.extend(above.iter().skip(at));
    }
    let mut inner: Vec<u32> = (at as u32..(at + stretch) as u32).collect();
    if rng.chance(1, 2) {
        rng.shuffle(&mut inner);
    } else {
        // every other one beforehand
        inner.sort_by_key(|k| k % 2);
    }
    v.extend(inner);
    let writers = rng.range(2, 3);
    let strat = Strategy::Hunt {
        den: *rng.pick(&[200usize, 2000, 20_000]),
        victim: 0,
        at: rng.below(400) as u64,
        writes: *rng.pick(&[0u64, 25, 25]),
        times: *rng.pick(&[20u64, 100, 100]),
        hold: *rng.pick(&[1000u64, 5000, 15_000, 15_000, 25_000]),
    };
    (v, Order::Up, writers, Share::Siege, strat, stretch)
}

struct Plan {
    /// How many keys, at the end of the order, belong to the besieged thread.
    stretch: usize,
    keys: Vec<Vec<u8>>,
    order: Vec<u32>,
    writers: usize,
    readers: usize,
    share: Share,
    /// One in this many inserts is followed by an update of an older key (0: none).
    again: usize,
    /// Operations under one guard (0: a guard per operation).
    per_guard: usize,
    strat: Strategy,
    desc: String,
}

/// What one key has seen.
#[derive(Default)]
struct Seen {
    /// The newest value its only writer has finished inserting (0: none).
    acked: AtomicU64,
    /// Sum and number of the ids inserted, and of those handed back.
    put: AtomicU64,
    puts: AtomicU32,
    got: AtomicU64,
    gots: AtomicU32,
}

struct Ctx<'a, S: Store> {
    tree: &'a S,
    p: &'a Plan,
    seen: Vec<Seen>,
    /// The key each id was inserted under (index + 1), and whether it has been handed back.
    owner: Vec<AtomicU32>,
    back: Vec<AtomicBool>,
    next: AtomicUsize,
    /// First inserts reported done.
    firsts: AtomicUsize,
    left: AtomicUsize,
    lookups: AtomicU64,
}

impl<S: Store> Ctx<'_, S> {
    fn owned(&self) -> bool {
        self.p.share != Share::Contested
    }
    fn id(&self, k: usize) -> u64 {
        let id = self.next.fetch_add(1, Relaxed);
        self.owner[id].store(k as u32 + 1, SeqCst);
        id as u64
    }
    fn belongs(&self, id: u64, k: usize, what: &str) {
        let o = self.owner.get(id as usize).map_or(0, |o| o.load(SeqCst));
        if o != k as u32 + 1 {
            violation(
                if what == "insert" { "displaced-foreign" } else { "foreign-value" },
                &format!("{what} of {} gives value {id}, which was never inserted under it", hex(&self.p.keys[k])),
            );
        }
    }
    fn put(&self, k: usize, g: Option<&seize::LocalGuard<'_>>) {
        let key = &self.p.keys[k];
        let s = &self.seen[k];
        let id = self.id(k);
        let before = s.acked.load(SeqCst);
        sched::mark();
        s.put.fetch_add(id, SeqCst);
        s.puts.fetch_add(1, SeqCst);
        let r = report::catch(|| match g {
            None => self.tree.insert(key, id),
            Some(g) => self.tree.insert_g(key, id, g),
        });
        let r = match r {
            Ok(Ok(r)) => r.map(|o| S::id(&o)),
            Ok(Err(e)) => violation("insert-error", &format!("insert of {} failed: {e}", hex(key))),
            Err(m) => violation("panic", &format!("insert of {} panicked: {m}", hex(key))),
        };
        if let Some(o) = r {
            self.belongs(o, k, "insert");
            if self.back[o as usize].swap(true, SeqCst) {
                violation("displaced-twice", &format!("value {o} of {} was handed back by two inserts", hex(key)));
            }
            if o == id {
                violation("displaced-self", &format!("insert of {} hands back the value it inserted", hex(key)));
            }
            s.got.fetch_add(o, SeqCst);
            s.gots.fetch_add(1, SeqCst);
        }
        if self.owned() && r.unwrap_or(0) != before {
            violation(
                if r.is_none() { "displaced-lost" } else { "displaced-foreign" },
                &format!("insert of {} hands back {r:?}, but its only writer last inserted {before}", hex(key)),
            );
        }
        s.acked.fetch_max(id, SeqCst);
        if r.is_none() {
            self.firsts.fetch_add(1, SeqCst);
        }
    }
    fn look(&self, k: usize, g: &seize::LocalGuard<'_>, form: usize) {
        let key = &self.p.keys[k];
        let before = self.seen[k].acked.load(SeqCst);
        let r = report::catch(|| match form {
            0 => self.tree.get(key).map(|o| S::id(&o)),
            1 => self.tree.get_g(key, g).map(|o| S::id(&o)),
            _ => self.tree.get_ref(key, g).map(|r| S::rid(r)),
        });
        let r = r.unwrap_or_else(|m| violation("panic", &format!("lookup of {} panicked: {m}", hex(key))));
        match r {
            None if before != 0 => violation("lost-key", &format!("{} was inserted (value {before}) and is not found", hex(key))),
            None => {}
            Some(id) => {
                self.belongs(id, k, "lookup");
                if self.owned() && id < before {
                    violation("stale-value", &format!("lookup of {} gives {id} after {before} was inserted", hex(key)));
                }
            }
        }
        self.lookups.fetch_add(1, Relaxed);
    }
    fn writer(&self, t: usize, mut rng: Rng) {
        let p = self.p;
        let n = p.order.len();
        let w = p.writers;
        let (lo, hi, step) = match p.share {
            Share::Striped => (t, n, w),
            Share::Blocks => (n * t / w, n * (t + 1) / w, 1),
            Share::Contested => (0, n, 1),
            Share::Siege if t == 0 => (n - p.stretch / 2, n, 1),
            Share::Siege => (t - 1, n - p.stretch, w - 1),
        };
        let mut i = lo;
        let mut done: Vec<u32> = vec![];
        let mut guard = None;
        let mut used = 0;
        while i < hi {
            if p.per_guard > 0 && (guard.is_none() || used >= p.per_guard) {
                guard = None;
                let g = guard.insert(self.tree.guard());
                if p.per_guard == 1 {
                    seize::Guard::flush(g);
                }
                used = 0;
            }
            let k = p.order[i];
            self.put(k as usize, guard.as_ref());
            done.push(k);
            used += 1;
            if p.again > 0 && rng.chance(1, p.again) {
                self.put(*rng.pick(&done) as usize, guard.as_ref());
            }
            if rng.chance(1, 8) {
                let g = self.tree.guard();
                self.look(*rng.pick(&done) as usize, &g, rng.below(3));
            }
            i += step;
            if i % 64 < step {
                tick();
            }
        }
        drop(guard);
        self.left.fetch_sub(1, SeqCst);
    }
    fn reader(&self, mut rng: Rng) {
        let n = self.p.order.len();
        let mut last = 0;
        while self.left.load(SeqCst) > 0 {
            sched::point();
            let g = self.tree.guard();
            // mostly keys that are there by now
            let upto = (self.firsts.load(SeqCst) + 8).min(n);
            for _ in 0..rng.range(1, 20) {
                let at = if rng.chance(1, 4) { rng.below(n) } else { rng.below(upto) };
                self.look(self.p.order[at] as usize, &g, rng.below(3));
            }
            let lo = self.firsts.load(SeqCst);
            let l = self.tree.len();
            if l < last {
                violation("len-decreased", &format!("the size went from {last} to {l}"));
            }
            // counted by the insert before it returns
            if l < lo || l > n {
                violation("len-bounds", &format!("size {l} with {lo} keys inserted and {n} in use"));
            }
            last = l;
        }
    }
}

fn run<S: Store>(p: &Plan, seed: u64) {
    val::reset();
    let n = p.keys.len();
    let ops = match p.share {
        Share::Contested => n * p.writers * if p.again > 0 { 2 } else { 1 },
        _ => n * if p.again > 0 { 2 } else { 1 },
    };
    let tree = S::new();
    let c = Ctx {
        tree: &tree,
        p,
        seen: (0..n).map(|_| Seen::default()).collect(),
        owner: (0..ops + 2).map(|_| AtomicU32::new(0)).collect(),
        back: (0..ops + 2).map(|_| AtomicBool::new(false)).collect(),
        next: AtomicUsize::new(1),
        firsts: AtomicUsize::new(0),
        left: AtomicUsize::new(p.writers),
        lookups: AtomicU64::new(0),
    };
    if p.share == Share::Siege {
        for &k in &p.order[n - p.stretch..n - p.stretch / 2] {
            c.put(k as usize, None);
        }
    }
    if p.writers + p.readers == 1 {
        c.writer(0, Rng::derive(seed, 1, 0));
    } else {
        let mut jobs: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
        for t in 0..p.writers {
            let c = &c;
            jobs.push(Box::new(move || c.writer(t, Rng::derive(seed, 1, t as u64))));
        }
        for t in 0..p.readers {
            let c = &c;
            jobs.push(Box::new(move || c.reader(Rng::derive(seed, 2, t as u64))));
        }
        let info = sched::run(p.strat.clone(), seed, u64::MAX, jobs);
        if info.stuck {
            report::count("runs_released", 1);
        }
        report::count("switches", info.switches);
    }
    // at rest
    let len = tree.len();
    if len != n {
        violation("len-final", &format!("size {len} after {n} different keys were inserted"));
    }
    if tree.is_empty() {
        violation("empty-final", "a tree with keys says it is empty");
    }
    let firsts = c.firsts.load(SeqCst);
    if firsts != n {
        violation("displaced-lost", &format!("{firsts} inserts found their key absent, for {n} keys"));
    }
    let mut finals: Vec<u64> = vec![0; n];
    {
        let g = tree.guard();
        for (k, key) in p.keys.iter().enumerate() {
            let s = &c.seen[k];
            c.look(k, &g, k % 3);
            let id = match report::catch(|| tree.get_ref(key, &g).map(|r| S::rid(r))) {
                Ok(r) => r.unwrap_or(0),
                Err(m) => violation("panic", &format!("lookup of {} panicked: {m}", hex(key))),
            };
            finals[k] = id;
            let (put, got) = (s.put.load(SeqCst), s.got.load(SeqCst));
            let (puts, gots) = (s.puts.load(SeqCst), s.gots.load(SeqCst));
            if puts != gots + 1 || put != got + id || c.back[id as usize].load(SeqCst) {
                violation(
                    "final-value",
                    &format!("{}: {puts} inserts, {gots} values handed back, and what is left is not value {id}", hex(key)),
                );
            }
            if c.owned() && id != s.acked.load(SeqCst) {
                violation("final-value", &format!("{}: value {id} at the end, but the last one inserted is {}", hex(key), s.acked.load(SeqCst)));
            }
            if k % 1024 == 0 {
                tick();
            }
        }
        // neighbours of stored keys that were not inserted
        for k in 0..n.min(2000) {
            let k = (k * 7919) % n;
            for x in 0..3 {
                let mut key = p.keys[k].clone();
                match x {
                    0 => key.push(0),
                    1 => *key.last_mut().unwrap() ^= 0x55,
                    _ => {
                        key.pop();
                    }
                }
                if p.keys.binary_search(&key).is_err() && tree.get_g(&key, &g).is_some() {
                    violation("foreign-value", &format!("{} was never inserted and is found", hex(&key)));
                }
            }
        }
    }
    #[cfg(masstree_verif)]
    match report::catch(|| tree.walk()) {
        Ok(Ok(w)) => {
            tick();
            report::count("nodes_walked", (w.leaves + w.internodes) as u64);
            report::maximum("height", w.max_height as u64);
            report::maximum("depth", w.max_depth as u64);
            report::maximum("keys", n as u64);
            report::count(&format!("trees_of_height_{}", w.max_height), 1);
            report::distinct("shapes", w.shape);
            if w.entries.len() != n {
                violation("structure", &format!("{} entries in the tree, {n} keys inserted", w.entries.len()));
            }
            for ((key, id), (k, want)) in w.entries.iter().zip(p.keys.iter().zip(&finals)) {
                if key != k || id != want {
                    violation("structure", &format!("the walk finds {} with value {id} where {} with value {want} should be", hex(key), hex(k)));
                }
            }
        }
        Ok(Err(e)) => violation("structure", &e),
        Err(m) => violation("structure", &m),
    }
    report::count("inserts", (c.next.load(SeqCst) - 1) as u64);
    report::count("lookups", c.lookups.load(SeqCst));
    drop(c);
    drop(tree);
    if S::DROPS {
        let bad = val::BAD_DROP.load(SeqCst);
        if bad != 0 {
            violation("double-drop", &format!("value v{bad} was dropped twice or damaged"));
        }
        let (made, gone) = (val::CREATED.load(SeqCst), val::DROPPED.load(SeqCst));
        if made != gone {
            violation("leak", &format!("{made} values were made, {gone} dropped, with the tree gone"));
        }
        report::count("values_balanced", made);
    }
}

pub fn main(args: &Args) {
    let only_threads = args.get("threads", 0) as usize;
    let only_siege = args.get("siege", 0) == 1;
    let most = args.get("keys", 60_000) as usize;
    if only_threads != 1 {
        report::count("switches", 0);
    }
    crate::comp::drive(args, 41, |rng, i| {
        let shape = *rng.pick(SHAPES);
        let order = *rng.pick(ORDERS);
        let n = match rng.below(8).max(if only_siege { 3 } else { 0 }) {
            0 => 500,
            1 | 2 => 3000,
            3 | 4 => 9000,
            5 | 6 => 20_000,
            _ => 60_000,
        }
        .min(most);
        let n = rng.range(n * 2 / 3, n);
        let keys = make(shape, n, rng);
        let order_v = arrange(keys.len(), order, rng);
        let writers = if only_threads > 0 { only_threads } else { *rng.pick(&[1usize, 2, 2, 3, 4]) };
        let readers = if only_threads > 0 { 0 } else { rng.below(3) };
        let share = *rng.pick(&[Share::Striped, Share::Striped, Share::Blocks, Share::Contested]);
        let share = if writers == 1 { Share::Striped } else { share };
        let strat = if rng.chance(1, 2) {
            Strategy::Free { den: *rng.pick(&[20usize, 200, 2000]), spins: *rng.pick(&[50usize, 500]) }
        } else {
            Strategy::Walk { den: *rng.pick(&[50usize, 200, 1000]) * (1 + n / 6000) }
        };
        let inline = rng.chance(1, 3);
        let besieged = sched::HOOKED && only_threads == 0 && (only_siege || rng.chance(1, 3));
        let (order_v, order, writers, share, strat, stretch) = if besieged {
            siege(keys.len(), rng)
        } else {
            (order_v, order, writers, share, strat, 0)
        };
        let p = Plan {
            stretch,
            desc: format!(
                "{} {shape:?}/{order:?}: {} keys, {writers} writers ({share:?}), {readers} readers, {}",
                if inline { "inline" } else { "arc" },
                keys.len(),
                strat.describe()
            ),
            keys,
            order: order_v,
            writers,
            readers,
            share,
            again: *rng.pick(&[0usize, 3, 10]),
            per_guard: *rng.pick(&[0usize, 0, 1, 40]),
            strat,
        };
        report::scenario(p.desc.clone());
        {
            use std::hash::{DefaultHasher, Hash, Hasher};
            let mut h = DefaultHasher::new();
            (&p.desc, &p.keys, &p.order).hash(&mut h);
            report::distinct("plans", h.finish());
        }
        let seed = rng.next();
        if inline {
            run::<MassTree24Inline<Cv>>(&p, seed);
        } else {
            run::<MassTree<Val>>(&p, seed);
        }
        if i % 17 == 3 {
            report::sample(json!({"iter": i, "plan": p.desc}));
        }
    })
}
