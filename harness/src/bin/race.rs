//! P07 (and orderings weaker than sequential consistency): the tree under threads that share nothing but the tree.
//! Meant to run under ThreadSanitizer, AddressSanitizer and Miri: no clock, no counter and no log connects the
//! threads, so every happens-before edge between them is the tree's own. What each thread saw is judged after they
//! have ended.
use masstree::{MassTree, MassTree24Inline};
use mtv::keys::{self, ORDERS, hex};
use mtv::report::{self, Args, violation};
use mtv::rng::Rng;
use mtv::comp;
use seize::{Guard, LocalGuard};
use serde_json::json;
use std::collections::HashMap;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::sync::{Arc, Barrier};

const KEY: u64 = 0x1357_9BDF_0246_8ACE;

/// A heap value whose memory is scribbled on when it is dropped, without any synchronisation: reading it too late
/// is a data race (or a use after free), not only a wrong answer.
#[derive(Debug)]
struct Hv {
    id: u64,
    check: u64,
    far: Box<[u64; 2]>,
}
impl Hv {
    fn new(id: u64) -> Self {
        Hv { id, check: id ^ KEY, far: Box::new([id, !id]) }
    }
    fn read(&self) -> u64 {
        if self.check != self.id ^ KEY || self.far[0] != self.id || self.far[1] != !self.id {
            violation("damaged-value", &format!("a value reads as id {:#x}, check {:#x}, body {:x?}", self.id, self.check, self.far));
        }
        self.id
    }
}
impl Drop for Hv {
    fn drop(&mut self) {
        self.read();
        self.id = u64::MAX;
        self.check = 0;
        self.far[0] = 0;
    }
}

/// An inline value of several words.
#[derive(Debug, Clone, Copy)]
struct Iv {
    id: u64,
    check: u64,
    more: [u64; 3],
}
impl Iv {
    fn new(id: u64) -> Self {
        Iv { id, check: id ^ KEY, more: [id, !id, id] }
    }
    fn read(&self) -> u64 {
        if self.check != self.id ^ KEY || self.more != [self.id, !self.id, self.id] {
            violation("damaged-value", &format!("an inline value reads as {self:x?}"));
        }
        self.id
    }
}

trait T: Send + Sync + Sized {
    type Ref;
    /// Something that keeps an owned result.
    type Out: Send;
    const NAME: &'static str;
    fn new() -> Self;
    fn guard(&self) -> LocalGuard<'_>;
    fn put(&self, k: &[u8], id: u64, g: Option<&LocalGuard<'_>>) -> (u64, Option<Self::Out>);
    fn get(&self, k: &[u8], g: Option<&LocalGuard<'_>>) -> (u64, Option<Self::Out>);
    fn get_ref<'g>(&self, k: &[u8], g: &'g LocalGuard<'_>) -> Option<&'g Self::Ref>;
    fn rid(r: &Self::Ref) -> u64;
    fn oid(o: &Self::Out) -> u64;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
}
fn failed(k: &[u8], e: impl std::fmt::Debug) -> ! {
    violation("insert-error", &format!("inserting {} failed: {e:?}", hex(k)))
}
impl T for MassTree<Hv> {
    type Ref = Hv;
    type Out = Arc<Hv>;
    const NAME: &'static str = "arc";
    fn new() -> Self {
        MassTree::new()
    }
    fn guard(&self) -> LocalGuard<'_> {
        self.guard()
    }
    fn put(&self, k: &[u8], id: u64, g: Option<&LocalGuard<'_>>) -> (u64, Option<Arc<Hv>>) {
        let r = match g {
            Some(g) => self.insert_with_guard(k, Hv::new(id), g),
            None => self.insert(k, Hv::new(id)),
        };
        match r {
            Ok(o) => (o.as_ref().map_or(0, |x| x.read()), o),
            Err(e) => failed(k, e),
        }
    }
    fn get(&self, k: &[u8], g: Option<&LocalGuard<'_>>) -> (u64, Option<Arc<Hv>>) {
        let o = match g {
            Some(g) => self.get_with_guard(k, g),
            None => self.get(k),
        };
        (o.as_ref().map_or(0, |x| x.read()), o)
    }
    fn get_ref<'g>(&self, k: &[u8], g: &'g LocalGuard<'_>) -> Option<&'g Hv> {
        self.get_ref(k, g)
    }
    fn rid(r: &Hv) -> u64 {
        r.read()
    }
    fn oid(o: &Arc<Hv>) -> u64 {
        o.read()
    }
    fn len(&self) -> usize {
        self.len()
    }
    fn is_empty(&self) -> bool {
        self.is_empty()
    }
}
impl T for MassTree24Inline<Iv> {
    type Ref = Iv;
    type Out = Iv;
    const NAME: &'static str = "inline";
    fn new() -> Self {
        MassTree24Inline::new()
    }
    fn guard(&self) -> LocalGuard<'_> {
        self.guard()
    }
    fn put(&self, k: &[u8], id: u64, g: Option<&LocalGuard<'_>>) -> (u64, Option<Iv>) {
        let r = match g {
            Some(g) => self.insert_with_guard(k, Iv::new(id), g),
            None => self.insert(k, Iv::new(id)),
        };
        match r {
            Ok(o) => (o.as_ref().map_or(0, Iv::read), o),
            Err(e) => failed(k, e),
        }
    }
    fn get(&self, k: &[u8], g: Option<&LocalGuard<'_>>) -> (u64, Option<Iv>) {
        let o = match g {
            Some(g) => self.get_with_guard(k, g),
            None => self.get(k),
        };
        (o.as_ref().map_or(0, Iv::read), o)
    }
    fn get_ref<'g>(&self, k: &[u8], g: &'g LocalGuard<'_>) -> Option<&'g Iv> {
        self.get_ref(k, g)
    }
    fn rid(r: &Iv) -> u64 {
        r.read()
    }
    fn oid(o: &Iv) -> u64 {
        o.read()
    }
    fn len(&self) -> usize {
        self.len()
    }
    fn is_empty(&self) -> bool {
        self.is_empty()
    }
}

#[derive(Clone, Copy, Debug, Hash)]
enum Op {
    /// key, id of the new value
    Put(usize, u64),
    Get(usize),
    Ref(usize),
    Len,
    /// take a new guard (or none)
    Guard(bool),
    Flush,
    Spin(u32),
}

/// What a thread saw: key, id written (0: a read), id displaced or read (0: none).
type Seen = (usize, u64, u64);

fn perform<M: T>(tree: &M, keys: &[Vec<u8>], ops: &[Op], base: usize, total: usize) -> Vec<Seen> {
    let mut seen: Vec<Seen> = Vec::with_capacity(ops.len());
    let mut held: Vec<M::Out> = vec![];
    let mut i = 0;
    let mut last_len = base;
    while i < ops.len() {
        // one guard's life
        let own = matches!(ops[i], Op::Guard(true));
        let end = (i + 1..ops.len()).find(|j| matches!(ops[*j], Op::Guard(_))).unwrap_or(ops.len());
        let mut g = own.then(|| tree.guard());
        let mut a = i;
        while a < end {
            // references live until the guard ends or is flushed
            let b = (a..end).find(|j| matches!(ops[*j], Op::Flush)).unwrap_or(end);
            {
                let short;
                let gr: &LocalGuard<'_> = match &g {
                    Some(g) => g,
                    None => {
                        short = tree.guard();
                        &short
                    }
                };
                let mut refs: Vec<(&M::Ref, u64)> = vec![];
                for op in &ops[a..b] {
                    match *op {
                        Op::Put(k, id) => {
                            let (old, out) = tree.put(&keys[k], id, own.then_some(gr));
                            seen.push((k, id, old));
                            held.extend(out);
                        }
                        Op::Get(k) => {
                            let (id, out) = tree.get(&keys[k], own.then_some(gr));
                            seen.push((k, 0, id));
                            if held.len() < 64 {
                                held.extend(out);
                            }
                        }
                        Op::Ref(k) => match tree.get_ref(&keys[k], gr) {
                            Some(r) => {
                                let id = M::rid(r);
                                seen.push((k, 0, id));
                                refs.push((r, id));
                            }
                            None => seen.push((k, 0, 0)),
                        },
                        Op::Len => {
                            let n = tree.len();
                            if n < last_len || n > total || (tree.is_empty() && base > 0) {
                                violation("len-bounds", &format!("len reported {n}; {base} keys were there before, {total} are ever inserted, {last_len} reported earlier"));
                            }
                            last_len = n;
                        }
                        Op::Spin(n) => {
                            for _ in 0..n {
                                std::hint::spin_loop();
                            }
                            if n == 0 {
                                std::thread::yield_now();
                            }
                        }
                        Op::Guard(_) | Op::Flush => {}
                    }
                }
                for (r, id) in refs {
                    if M::rid(r) != id {
                        violation("ref-changed", &format!("a reference that read id {id} under its guard reads {} later", M::rid(r)));
                    }
                }
            }
            if let (Some(g), true) = (g.as_mut(), b < end) {
                g.refresh();
            }
            a = b.max(a) + usize::from(b < end);
        }
        drop(g);
        i = end;
    }
    // owned results outlive every guard
    for o in &held {
        M::oid(o);
    }
    seen
}

fn run<M: T + 'static>(rng: &mut Rng, size: usize, iter: u64) {
    let fam = *rng.pick(keys::FAMILIES);
    let order = *rng.pick(ORDERS);
    let n = match rng.below(4) {
        0 => rng.range(1, 6),
        1 => rng.range(20, 30).min(size),
        _ => rng.range(2, size),
    };
    let keys = keys::family(fam, n, order, rng);
    let n = keys.len();
    let pre = match rng.below(5) {
        0 => 0,
        1 => n / 2,
        2 => 24.min(n.saturating_sub(1)),
        3 => n.saturating_sub(rng.range(1, 4)),
        _ => rng.below(n + 1),
    };
    let threads = rng.range(2, 4);
    let mut next = 0u64;
    let mut fresh = || {
        next += 1;
        next
    };
    let hot: Vec<usize> = (0..rng.range(1, 3)).map(|_| rng.below(n)).collect();
    // programs
    let mut progs: Vec<Vec<Op>> = vec![vec![]; threads];
    let first: Vec<u64> = (0..pre).map(|_| fresh()).collect();
    for k in pre..n {
        // the keys that are left, in order, each by one thread (or sometimes two)
        let t = rng.below(threads);
        progs[t].push(Op::Put(k, fresh()));
        if rng.chance(1, 8) {
            let t = rng.below(threads);
            progs[t].push(Op::Put(k, fresh()));
        }
    }
    for (t, p) in progs.iter_mut().enumerate() {
        let extra = rng.range(2, 12).max(p.len());
        let reader = t > 0 && rng.chance(1, 3);
        for _ in 0..extra {
            let k = if rng.chance(1, 2) { *rng.pick(&hot) } else { rng.below(n) };
            let op = match rng.below(12) {
                0..2 if !reader => Op::Put(k, fresh()),
                0..5 => Op::Get(k),
                5..9 => Op::Ref(k),
                9 => Op::Len,
                10 => Op::Guard(rng.chance(1, 2)),
                _ => if rng.chance(1, 2) { Op::Flush } else { Op::Spin(*rng.pick(&[0, 1, 10, 100])) },
            };
            let at = rng.below(p.len() + 1);
            p.insert(at, op);
        }
        p.insert(0, Op::Guard(rng.chance(1, 2)));
    }
    let what = || format!("{} store, family {fam} {order:?}, {n} keys of which {pre} before, {threads} threads", M::NAME);
    if !cfg!(miri) {
        report::scenario(format!("{}\nkeys {:?}\nprograms {progs:?}", what(), keys.iter().map(|k| hex(k)).collect::<Vec<_>>()));
    }
    let ids = next;
    let tree = Arc::new(M::new());
    for (k, id) in first.iter().enumerate() {
        let (old, _) = tree.put(&keys[k], *id, None);
        if old != 0 {
            violation("displaced-foreign", &format!("{}: a first insert displaced {old}", what()));
        }
    }
    let gate = Arc::new(Barrier::new(threads));
    let keys = Arc::new(keys);
    let dropper = rng.below(threads + 1);
    let handles: Vec<_> = progs
        .iter()
        .cloned()
        .map(|ops| {
            let (tree, keys, gate) = (tree.clone(), keys.clone(), gate.clone());
            std::thread::spawn(move || {
                gate.wait();
                let r = report::catch(|| perform(&*tree, &keys, &ops, pre, keys.len()));
                match r {
                    Ok(s) => (s, tree),
                    Err(m) => violation("panic", &format!("an operation panicked: {m}")),
                }
            })
        })
        .collect();
    let mut trees = vec![];
    let mut seen: Vec<Vec<Seen>> = vec![];
    for h in handles {
        let Ok((s, t)) = h.join() else { violation("panic", "a thread died") };
        seen.push(s);
        trees.push(t);
    }
    judge(what, n, ids, &first, &seen, |k| tree.get(&keys[k], None).0);
    if tree.len() != n || tree.is_empty() != (n == 0) {
        violation("len-final", &format!("{}: len is {} at the end, {n} keys were inserted", what(), tree.len()));
    }
    // the last handle goes, perhaps on another thread
    drop(trees);
    if dropper == 0 {
        drop(tree);
    } else {
        let _ = std::thread::spawn(move || drop(tree)).join();
    }
    let mut h = DefaultHasher::new();
    (M::NAME, fam, n, pre, threads, &progs).hash(&mut h);
    report::distinct("programs", h.finish());
    // the order in which the threads' writes took effect, as far as it shows
    let mut h = DefaultHasher::new();
    (h.finish(), &seen).hash(&mut h);
    report::distinct("outcomes", h.finish());
    report::count("operations", seen.iter().map(|s| s.len() as u64).sum());
    report::count("reads_of_concurrent_writes", seen.iter().flatten().filter(|s| s.1 == 0 && s.2 > first.len() as u64).count() as u64);
    if iter % 50 == 3 {
        report::sample(json!({"iter": iter, "scenario": what()}));
    }
}

/// Every key's writes form one chain (each displaces its predecessor), and no thread ever goes back along it.
/// `ids` bounds the value ids, which are unique over all keys.
fn judge(what: impl Fn() -> String, n: usize, ids: u64, first: &[u64], seen: &[Vec<Seen>], last: impl Fn(usize) -> u64) {
    let ids = ids as usize + 1;
    // the key each value was written to, the value that displaced it, the first value of each key
    let mut key = vec![usize::MAX; ids];
    let mut next = vec![0u64; ids];
    let mut head = vec![0u64; n];
    let mut writes = vec![0usize; n];
    for (k, id) in first.iter().enumerate() {
        key[*id as usize] = k;
        head[k] = *id;
        writes[k] = 1;
    }
    for s in seen.iter().flatten().filter(|s| s.1 != 0) {
        key[s.1 as usize] = s.0;
    }
    for (k, w, r) in seen.iter().flatten().filter(|s| s.1 != 0) {
        writes[*k] += 1;
        if *r as usize >= ids || (*r != 0 && key[*r as usize] != *k) {
            violation("displaced-foreign", &format!("{}: key {k}: value {w} displaced {r}, which was never written to it", what()));
        }
        let o = if *r == 0 { &mut head[*k] } else { &mut next[*r as usize] };
        if *o != 0 {
            violation("displaced-twice", &format!("{}: key {k}: values {w} and {o} both displaced {r}", what()));
        }
        *o = *w;
    }
    // a value's place in its key's chain; the absence of a value is place 0
    let mut place = vec![0usize; ids];
    for k in 0..n {
        let (mut at, mut x, mut p) = (0, head[k], 0);
        while x != 0 && p <= writes[k] {
            p += 1;
            place[x as usize] = p;
            at = x;
            x = next[x as usize];
        }
        if p != writes[k] {
            violation("displaced-foreign", &format!("{}: key {k}: the displaced values do not form one chain of {} values", what(), writes[k]));
        }
        let f = last(k);
        if f != at {
            violation("final-value", &format!("{}: key {k} ends with value {f}, its last write was {at}", what()));
        }
    }
    let mut low = vec![0usize; n];
    for (t, s) in seen.iter().enumerate() {
        low.fill(0);
        low[..first.len()].fill(1);
        for (i, (k, w, r)) in s.iter().enumerate() {
            if *r as usize >= ids || (*r != 0 && key[*r as usize] != *k) {
                violation("foreign-value", &format!("{}: thread {t} observation {i}: key {k} had value {r}, which was never written to it", what()));
            }
            let p = if *r == 0 { 0 } else { place[*r as usize] };
            if p < low[*k] {
                let kind = if *r == 0 { "lost-key" } else { "stale-value" };
                violation(kind, &format!("{}: thread {t} observation {i}: key {k} had value {r} (place {p}) after place {} was seen", what(), low[*k]));
            }
            low[*k] = if *w != 0 { place[*w as usize] } else { p };
        }
    }
}

fn main() {
    let (engine, args): (String, Args) = Args::parse();
    report::init(&engine, &args);
    let size = args.get("size", 300) as usize;
    match engine.as_str() {
        "tree" => comp::drive(&args, 81, move |rng, i| {
            // small trees often, large ones now and then
            let size = if rng.chance(1, 2) { size.min(30) } else { size };
            if rng.chance(1, 2) { run::<MassTree<Hv>>(rng, size, i) } else { run::<MassTree24Inline<Iv>>(rng, size, i) }
        }),
        _ => {
            eprintln!("unknown engine {engine}");
            std::process::exit(2)
        }
    }
}
