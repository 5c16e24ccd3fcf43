//! Operation sequences on every flavour of the tree, compared with an ordered map
//! after each operation (P02), with over-long keys in between (P10), through every
//! access path at once (P11).
use crate::keys::{FAMILIES, ORDERS, family, hex};
use crate::report::{self, Args, violation};
use crate::rng::Rng;
use crate::val::{self, Val};
use crate::watch::tick;
use masstree::{MassTree, MassTree24Inline, MassTreeIndex};
use serde_json::json;
use std::collections::BTreeMap;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

/// What is stored: built from an id and able to confirm it.
pub trait Pay: Copy + Send + Sync + 'static {
    const NAME: &'static str;
    fn mk(id: u64) -> Self;
    /// The id, if it can be recovered and the body is intact.
    fn id(&self) -> Result<u64, String>;
    /// Ids are taken modulo this.
    const MOD: u64 = u64::MAX;
}
impl Pay for u64 {
    const NAME: &'static str = "u64";
    fn mk(id: u64) -> Self {
        id
    }
    fn id(&self) -> Result<u64, String> {
        Ok(*self)
    }
}
impl Pay for () {
    const NAME: &'static str = "unit";
    const MOD: u64 = 1;
    fn mk(_: u64) -> Self {}
    fn id(&self) -> Result<u64, String> {
        Ok(0)
    }
}
impl Pay for u8 {
    const NAME: &'static str = "u8";
    const MOD: u64 = 256;
    fn mk(id: u64) -> Self {
        id as u8
    }
    fn id(&self) -> Result<u64, String> {
        Ok(u64::from(*self))
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Big([u64; 70]);
impl Pay for Big {
    const NAME: &'static str = "560 bytes";
    fn mk(id: u64) -> Self {
        Big(std::array::from_fn(|i| id.wrapping_mul(i as u64 + 1)))
    }
    fn id(&self) -> Result<u64, String> {
        let id = self.0[0];
        for (i, x) in self.0.iter().enumerate() {
            if *x != id.wrapping_mul(i as u64 + 1) {
                return Err(format!("word {i} of a large value is damaged"));
            }
        }
        Ok(id)
    }
}
#[derive(Clone, Copy, Debug)]
#[repr(align(128))]
pub struct Wide(u64);
impl Pay for Wide {
    const NAME: &'static str = "128-aligned";
    fn mk(id: u64) -> Self {
        Wide(id)
    }
    fn id(&self) -> Result<u64, String> {
        if !std::ptr::from_ref(self).addr().is_multiple_of(128) {
            return Err("value misaligned".into());
        }
        Ok(self.0)
    }
}

fn pid<P: Pay>(p: &P) -> u64 {
    p.id().unwrap_or_else(|e| violation("damaged-value", &e))
}

/// All flavours, driven in step.
struct Trio<P: Pay> {
    arc: MassTree<P>,
    inl: MassTree24Inline<P>,
    idx: MassTreeIndex<P>,
    /// Only the first `n` flavours are used.
    on: [bool; 3],
}

type Model = BTreeMap<Vec<u8>, u64>;

fn same(what: &str, k: &[u8], form: &str, got: Option<u64>, want: Option<u64>) {
    if got != want {
        let kind = if what.contains("insert") { "seq-insert" } else { "seq-lookup" };
        violation(kind, &format!("{what} of {} ({} bytes) through {form} gives {got:?}, expected {want:?}", hex(k), k.len()));
    }
}

impl<P: Pay> Trio<P> {
    fn new(on: [bool; 3]) -> Self {
        Trio { arc: MassTree::new(), inl: MassTree24Inline::new(), idx: MassTreeIndex::new(), on }
    }
    fn err(e: impl std::fmt::Debug, k: &[u8]) -> ! {
        violation("insert-error", &format!("insert of {} failed: {e:?}", hex(k)))
    }
    fn insert(&mut self, k: &[u8], id: u64, form: usize, want: Option<u64>) {
        if self.on[0] {
            let r = if form == 0 {
                self.arc.insert(k, P::mk(id))
            } else {
                let g = self.arc.guard();
                self.arc.insert_with_guard(k, P::mk(id), &g)
            };
            let r = r.unwrap_or_else(|e| Self::err(e, k));
            same("insert", k, ["arc insert", "arc insert_with_guard"][form], r.map(|v| pid(&*v)), want);
        }
        if self.on[1] {
            let r = if form == 0 {
                self.inl.insert(k, P::mk(id))
            } else {
                let g = self.inl.guard();
                self.inl.insert_with_guard(k, P::mk(id), &g)
            };
            let r = r.unwrap_or_else(|e| Self::err(e, k));
            same("insert", k, ["inline insert", "inline insert_with_guard"][form], r.map(|v| pid(&v)), want);
        }
        if self.on[2] {
            let r = self.idx.insert(k, P::mk(id)).unwrap_or_else(|e| Self::err(e, k));
            same("insert", k, "index insert", r.map(|v| pid(&v)), want);
        }
    }
    fn look(&self, k: &[u8], form: usize, want: Option<u64>) {
        if self.on[0] {
            let g = self.arc.guard();
            match form {
                0 => same("lookup", k, "arc get", self.arc.get(k).map(|v| pid(&*v)), want),
                1 => same("lookup", k, "arc get_with_guard", self.arc.get_with_guard(k, &g).map(|v| pid(&*v)), want),
                _ => same("lookup", k, "arc get_ref", self.arc.get_ref(k, &g).map(pid), want),
            }
        }
        if self.on[1] {
            let g = self.inl.guard();
            match form {
                0 => same("lookup", k, "inline get", self.inl.get(k).map(|v| pid(&v)), want),
                1 => same("lookup", k, "inline get_with_guard", self.inl.get_with_guard(k, &g).map(|v| pid(&v)), want),
                _ => same("lookup", k, "inline get_ref", self.inl.get_ref(k, &g).map(pid), want),
            }
        }
        if self.on[2] {
            same("lookup", k, "index get", self.idx.get(k).map(|v| pid(&v)), want);
        }
    }
    fn sizes(&self, n: usize) {
        let c = |f: &str, on: bool, l: usize, e: bool| {
            if on && (l != n || e != (n == 0)) {
                violation("seq-size", &format!("{f}: len() = {l}, is_empty() = {e} with {n} distinct keys inserted"));
            }
        };
        c("arc", self.on[0], self.arc.len(), self.arc.is_empty());
        c("inline", self.on[1], self.inl.len(), self.inl.is_empty());
        c("index", self.on[2], self.idx.len(), self.idx.is_empty());
    }
    fn verify(&self, model: &Model, absent: &[Vec<u8>]) -> u64 {
        self.sizes(model.len());
        let mut n = 0;
        for (i, (k, id)) in model.iter().enumerate() {
            self.look(k, (n as usize + i) % 3, Some(*id));
            n += 1;
        }
        for k in absent {
            if !model.contains_key(k) {
                self.look(k, n as usize % 3, None);
                n += 1;
            }
        }
        n
    }
    /// Every operation must refuse `k`, whatever the flavour.
    fn refuse(&mut self, k: &[u8]) {
        let must = |what: &str, r: Result<(), String>| {
            if r.is_ok() {
                violation("limit-accepted", &format!("{what} accepted a key of {} bytes", k.len()));
            }
        };
        if self.on[0] {
            let t = &self.arc;
            let g = t.guard();
            must("arc get", report::catch(|| drop(t.get(k))));
            must("arc get_with_guard", report::catch(|| drop(t.get_with_guard(k, &g))));
            must("arc get_ref", report::catch(|| drop(t.get_ref(k, &g).map(pid))));
            must("arc insert", report::catch(|| drop(t.insert(k, P::mk(u64::MAX)))));
            must("arc insert_with_guard", report::catch(|| drop(t.insert_with_guard(k, P::mk(u64::MAX), &g))));
        }
        if self.on[1] {
            let t = &self.inl;
            let g = t.guard();
            must("inline get", report::catch(|| drop(t.get(k).map(|v| pid(&v)))));
            must("inline get_with_guard", report::catch(|| drop(t.get_with_guard(k, &g).map(|v| pid(&v)))));
            must("inline get_ref", report::catch(|| drop(t.get_ref(k, &g).map(pid))));
            must("inline insert", report::catch(|| drop(t.insert(k, P::mk(u64::MAX)).map(|v| v.map(|v| pid(&v))))));
            must("inline insert_with_guard", report::catch(|| drop(t.insert_with_guard(k, P::mk(u64::MAX), &g).map(|v| v.map(|v| pid(&v))))));
        }
        if self.on[2] {
            let t = &mut self.idx;
            must("index get", report::catch(|| drop(t.get(k).map(|v| pid(&v)))));
            must("index insert", report::catch(|| drop(t.insert(k, P::mk(u64::MAX)).map(|v| v.map(|v| pid(&v))))));
        }
    }
}

/// Keys close to `k` that a confused lookup could take for it.
fn near(k: &[u8], rng: &mut Rng) -> Vec<u8> {
    let mut m = k.to_vec();
    match rng.below(9) {
        0 => {
            m.push(0);
        }
        1 => {
            m.pop();
        }
        2 if !m.is_empty() => {
            let i = rng.below(m.len());
            m[i] ^= 1 << rng.below(8);
        }
        3 if !m.is_empty() => {
            let i = m.len() - 1;
            m[i] = m[i].wrapping_add(1);
        }
        4 => m.truncate(m.len() / 8 * 8),
        5 => {
            let n = (m.len() / 8 + 1) * 8;
            m.resize(n, 0);
        }
        6 => m.truncate(rng.below(m.len() + 1)),
        7 => m.extend([0xFF; 3]),
        _ => {
            let l = rng.range(0, 20);
            for _ in 0..l {
                m.push(rng.next() as u8);
            }
        }
    }
    m.truncate(256);
    m
}

const TOO_LONG: &[usize] = &[
    257, 258, 259, 260, 263, 264, 265, 271, 272, 280, 288, 300, 320, 384, 511, 512, 513, 768, 1000, 1024, 4096, 65535, 65536, 65537, 65600, 65792,
    70000, 131_072, 131_200, 1 << 20,
];

fn too_long(model: &Model, rng: &mut Rng) -> Vec<u8> {
    let l = if rng.chance(1, 2) { rng.range(257, 300) } else { *rng.pick(TOO_LONG) };
    let mut k: Vec<u8> = vec![];
    // continue an existing key where possible
    if !model.is_empty() && rng.chance(3, 4) {
        let i = rng.below(model.len());
        k.extend(model.keys().nth(i).unwrap());
    }
    let c = *rng.pick(&[0u8, b'a', 0xFF]);
    k.resize(l, c);
    k
}

fn keyset(rng: &mut Rng, big: bool) -> (String, Vec<Vec<u8>>) {
    let mut keys = vec![];
    let mut name = String::new();
    let parts = if rng.chance(1, 3) { 2 } else { 1 };
    for _ in 0..parts {
        let f = *rng.pick(FAMILIES);
        let o = *rng.pick(ORDERS);
        let n = if big { rng.range(500, 3000) } else { rng.range(5, 300) };
        name.push_str(&format!("{f}/{o:?}/{n} "));
        let mut k = family(f, n, o, rng);
        if rng.chance(1, 6) {
            // move everything below a common prefix
            let l = *rng.pick(&[1usize, 7, 8, 9, 16, 64, 100]);
            let c = *rng.pick(&[0u8, b'p', 0xFF]);
            for x in &mut k {
                let mut y = vec![c; l];
                y.extend(x.iter());
                y.truncate(256);
                *x = y;
            }
            name.push_str(&format!("below {l}x{c:02x} "));
        }
        keys.extend(k);
    }
    if parts == 2 && rng.chance(1, 2) {
        rng.shuffle(&mut keys);
        name.push_str("shuffled ");
    }
    (name, keys)
}

fn run_map<P: Pay>(rng: &mut Rng, limit: bool, iter: u64) {
    let big = iter % 23 == 11;
    let on = match rng.below(5) {
        0 => [true, false, false],
        1 => [false, true, false],
        2 => [false, false, true],
        _ => [true, true, true],
    };
    let (name, keys) = keyset(rng, big);
    report::scenario(format!("{} {on:?} {name}", P::NAME));
    let mut t: Trio<P> = Trio::new(on);
    let mut model = Model::new();
    let mut id = 0u64;
    let mut absent: Vec<Vec<u8>> = vec![];
    let mut ops = 0u64;
    let mut refused = 0u64;
    t.sizes(0);
    let every = rng.range(8, 60);
    for (i, k) in keys.iter().enumerate() {
        id += 1;
        let v = id % P::MOD;
        let want = model.insert(k.clone(), v);
        t.insert(k, v, rng.below(2), want);
        ops += 1;
        if !big || i % 8 == 0 {
            t.look(k, rng.below(3), Some(v));
            let m = near(k, rng);
            t.look(&m, rng.below(3), model.get(&m).copied());
            t.sizes(model.len());
            ops += 3;
            if absent.len() < 200 && !model.contains_key(&m) {
                absent.push(m);
            }
        }
        if rng.chance(1, 5) {
            // overwrite an old one
            let j = rng.below(i + 1);
            id += 1;
            let v = id % P::MOD;
            let want = model.insert(keys[j].clone(), v);
            t.insert(&keys[j], v, rng.below(2), want);
            ops += 1;
        }
        if rng.chance(1, 9) {
            // a neighbour becomes a key
            let m = near(k, rng);
            id += 1;
            let v = id % P::MOD;
            let want = model.insert(m.clone(), v);
            t.insert(&m, v, rng.below(2), want);
            ops += 1;
        }
        if limit && (i == 0 || rng.chance(1, 12)) {
            let l = too_long(&model, rng);
            t.refuse(&l);
            refused += 1;
            t.sizes(model.len());
            // the refused key's truncations are what they were
            for n in [256, l.len() & 0xFF, l.len() & !7 & 0xFF, 255] {
                let c = &l[..n];
                t.look(c, rng.below(3), model.get(c).copied());
            }
            // longest allowed keys are accepted
            let n = *rng.pick(&[256usize, 256, 255, 249, 248, 247]);
            let k = l[..n].to_vec();
            id += 1;
            let v = id % P::MOD;
            let want = model.insert(k.clone(), v);
            t.insert(&k, v, rng.below(2), want);
            t.look(&k, 0, Some(v));
        }
        if i % every == every - 1 && !big {
            ops += t.verify(&model, &absent);
        }
        tick();
    }
    ops += t.verify(&model, &absent);
    report::count("operations", ops);
    report::count("keys", model.len() as u64);
    report::count("rejected_keys", refused);
    let mut h = DefaultHasher::new();
    for k in model.keys() {
        k.hash(&mut h);
    }
    report::distinct("key_sets", h.finish());
    if iter % 200 == 3 {
        report::sample(json!({"iter": iter, "keys": name, "value": P::NAME, "operations": ops, "first_keys": keys.iter().take(4).map(|k| hex(k)).collect::<Vec<_>>()}));
    }
}

/// Rejected keys with values that count their drops, while other threads work on
/// their own keys of the same tree.
fn run_limit_threads(rng: &mut Rng) {
    use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
    val::reset();
    let (name, keys) = keyset(rng, false);
    report::scenario(format!("threads {name}"));
    let tree: MassTree<Val> = MassTree::new();
    let stop = AtomicBool::new(false);
    let workers = rng.range(1, 3);
    let seeds: Vec<u64> = (0..=workers).map(|_| rng.next()).collect();
    let rejected = std::sync::atomic::AtomicU64::new(0);
    // one writer per key
    let mut owned: Vec<Vec<Vec<u8>>> = vec![vec![]; workers];
    {
        let mut seen = std::collections::BTreeSet::new();
        for k in keys {
            if seen.insert(k.clone()) {
                let w = seen.len() % workers;
                owned[w].push(k);
            }
        }
    }
    let total: usize = owned.iter().map(Vec::len).sum();
    std::thread::scope(|s| {
        let mut hs = vec![];
        for (w, keys) in owned.iter().enumerate() {
            let (tree, seed) = (&tree, seeds[w]);
            hs.push(s.spawn(move || {
                let mut rng = Rng::new(seed);
                let mut mine: BTreeMap<&[u8], u64> = BTreeMap::new();
                for k in keys {
                    let id = val::fresh();
                    let r = match report::catch(|| tree.insert(k, Val::new(id))) {
                        Ok(Ok(r)) => r,
                        Ok(Err(e)) => violation("insert-error", &format!("insert of {} failed: {e:?}", hex(k))),
                        Err(m) => violation("panic", &format!("insert of a valid key panicked: {m}")),
                    };
                    let want = mine.insert(k, id);
                    same("insert", k, "threads", r.map(|v| v.id), want);
                    if rng.chance(1, 3) {
                        let l = too_long(&Model::new(), &mut rng);
                        if report::catch(|| tree.insert(&l, Val::new(val::fresh()))).is_ok() {
                            violation("limit-accepted", &format!("insert accepted a key of {} bytes", l.len()));
                        }
                    }
                    let (q, v) = mine.iter().nth(rng.below(mine.len())).unwrap();
                    same("lookup", q, "threads", tree.get(q).map(|v| v.id), Some(*v));
                    tick();
                }
                for (q, v) in &mine {
                    same("lookup", q, "threads", tree.get(q).map(|v| v.id), Some(*v));
                }
                mine.len()
            }));
        }
        let (tree, stop, seed, rejected) = (&tree, &stop, seeds[workers], &rejected);
        let r = s.spawn(move || {
            let mut rng = Rng::new(seed);
            let mut n = 0;
            while !stop.load(SeqCst) || n < 5 {
                let l = too_long(&Model::new(), &mut rng);
                let g = tree.guard();
                let r = match rng.below(5) {
                    0 => report::catch(|| drop(tree.get(&l))),
                    1 => report::catch(|| drop(tree.get_with_guard(&l, &g))),
                    2 => report::catch(|| drop(tree.get_ref(&l, &g).map(|v| v.id))),
                    3 => report::catch(|| drop(tree.insert(&l, Val::new(val::fresh())))),
                    _ => report::catch(|| drop(tree.insert_with_guard(&l, Val::new(val::fresh()), &g))),
                };
                if r.is_ok() {
                    violation("limit-accepted", &format!("a key of {} bytes was accepted", l.len()));
                }
                n += 1;
            }
            rejected.fetch_add(n, SeqCst);
        });
        let mut n = 0;
        for h in hs {
            n += h.join().unwrap_or(0);
        }
        stop.store(true, SeqCst);
        let _ = r.join();
        if tree.len() != total || n != total {
            violation("seq-size", &format!("len() = {} after {total} distinct keys and some rejected ones", tree.len()));
        }
    });
    drop(tree);
    let (c, d) = (val::CREATED.load(SeqCst), val::DROPPED.load(SeqCst));
    if c != d || val::BAD_DROP.load(SeqCst) != 0 {
        violation("limit-value", &format!("{c} values handed in (some with rejected keys), {d} dropped; dropped twice: {}", val::BAD_DROP.load(SeqCst)));
    }
    report::count("rejected_keys", rejected.load(SeqCst));
    report::count("threaded_runs", 1);
    report::count("keys", total as u64);
}

/// All access paths side by side, with guards of every extent.
fn run_paths<P: Pay>(rng: &mut Rng, iter: u64) {
    let (name, keys) = keyset(rng, iter % 29 == 13);
    report::scenario(format!("paths {} {name}", P::NAME));
    let arc: MassTree<P> = MassTree::new();
    let inl: MassTree24Inline<P> = MassTree24Inline::new();
    let mut idx: MassTreeIndex<P> = MassTreeIndex::new();
    let mut model = Model::new();
    let (long_a, long_i) = (arc.guard(), inl.guard());
    let mut held_a: Vec<(u64, &P)> = vec![];
    let mut held_i: Vec<(u64, &P)> = vec![];
    let mut kept: Vec<(u64, std::sync::Arc<P>)> = vec![];
    let mut id = 0;
    let mut n = 0u64;
    let len = keys.len() + keys.len() / 2;
    let mut i = 0;
    let mut next = 0;
    while i < len {
        // a stretch under one more (nested) guard
        let (ga, gi) = (arc.guard(), inl.guard());
        for _ in 0..rng.range(1, 40) {
            i += 1;
            id += 1;
            let k = if next < keys.len() && rng.chance(2, 3) {
                next += 1;
                keys[next - 1].clone()
            } else if rng.chance(1, 4) {
                { let b = rng.below(keys.len()); near(&keys[b], rng) }
            } else {
                keys[rng.below(next.max(1))].clone()
            };
            let v = id % P::MOD;
            let want = model.get(&k).copied();
            let a = match rng.below(3) {
                0 => arc.insert(&k, P::mk(v)),
                1 => arc.insert_with_guard(&k, P::mk(v), &ga),
                _ => arc.insert_with_guard(&k, P::mk(v), &long_a),
            };
            let b = match rng.below(3) {
                0 => inl.insert(&k, P::mk(v)),
                1 => inl.insert_with_guard(&k, P::mk(v), &gi),
                _ => inl.insert_with_guard(&k, P::mk(v), &long_i),
            };
            let c = idx.insert(&k, P::mk(v));
            let (Ok(a), Ok(b), Ok(c)) = (a, b, c) else { violation("insert-error", &format!("insert of {} failed", hex(&k))) };
            let (ia, ib, ic) = (a.as_ref().map(|v| pid(&**v)), b.map(|v| pid(&v)), c.map(|v| pid(&v)));
            if ia != want || ib != want || ic != want {
                violation("paths-insert", &format!("insert of {} reports {ia:?} (arc), {ib:?} (inline), {ic:?} (index); expected {want:?}", hex(&k)));
            }
            if let (Some(x), Some(a)) = (want, a) {
                if kept.len() < 300 {
                    kept.push((x, a));
                }
            }
            model.insert(k.clone(), v);
            // look up something through all paths
            let q = match rng.below(5) {
                0 => k,
                1 => near(&k, rng),
                2 => { let b = rng.below(keys.len()); near(&keys[b], rng) },
                _ => rng.pick(&keys).clone(),
            };
            let want = model.get(&q).copied();
            let rga = arc.get_ref(&q, &ga);
            let rgi = inl.get_ref(&q, &gi);
            let rla = arc.get_ref(&q, &long_a);
            let rli = inl.get_ref(&q, &long_i);
            let all = [
                ("arc get", arc.get(&q).map(|v| pid(&*v))),
                ("arc get_with_guard, short guard", arc.get_with_guard(&q, &ga).map(|v| pid(&*v))),
                ("arc get_with_guard, long guard", arc.get_with_guard(&q, &long_a).map(|v| pid(&*v))),
                ("arc get_ref, short guard", rga.map(pid)),
                ("arc get_ref, long guard", rla.map(pid)),
                ("inline get", inl.get(&q).map(|v| pid(&v))),
                ("inline get_with_guard, short guard", inl.get_with_guard(&q, &gi).map(|v| pid(&v))),
                ("inline get_with_guard, long guard", inl.get_with_guard(&q, &long_i).map(|v| pid(&v))),
                ("inline get_ref, short guard", rgi.map(pid)),
                ("inline get_ref, long guard", rli.map(pid)),
                ("index get", idx.get(&q).map(|v| pid(&v))),
            ];
            for (f, g) in all {
                if g != want {
                    violation("paths-lookup", &format!("{f} of {} gives {g:?}; expected {want:?}; all paths: {all:?}", hex(&q)));
                }
            }
            n += 14;
            if let (Some(w), Some(a), Some(b)) = (want, rla, rli) {
                if held_a.len() < 400 {
                    held_a.push((w, a));
                    held_i.push((w, b));
                }
            }
            let e = model.is_empty();
            let s = [(arc.len(), arc.is_empty()), (inl.len(), inl.is_empty()), (idx.len(), idx.is_empty())];
            if s.iter().any(|x| *x != (model.len(), e)) {
                violation("paths-size", &format!("(len, is_empty) of arc, inline, index: {s:?}; expected ({}, {e})", model.len()));
            }
        }
        for (w, r) in held_a.iter().chain(&held_i) {
            if pid(*r) != *w {
                violation("paths-ref", &format!("a reference obtained under a long guard now shows {} instead of {w}", pid(*r)));
            }
        }
        if rng.chance(1, 3) {
            seize::Guard::flush(&ga);
            seize::Guard::flush(&gi);
        }
        tick();
    }
    for (w, r) in &kept {
        if pid(&**r) != *w {
            violation("paths-ref", &format!("a handle to a displaced value now shows {} instead of {w}", pid(&**r)));
        }
    }
    report::count("operations", n);
    report::count("references_held", held_a.len() as u64 * 2);
    report::count("keys", model.len() as u64);
    let mut h = DefaultHasher::new();
    model.hash(&mut h);
    report::distinct("histories", h.finish());
    if iter % 100 == 3 {
        report::sample(json!({"iter": iter, "keys": name, "value": P::NAME, "path_results_compared": n}));
    }
}

pub fn main(args: &Args) {
    crate::alloc::set_poison(args.get("poison", 1) == 1);
    let seed = args.get("seed", 1);
    let ms = args.get("ms", 10_000);
    let iters = args.get("iters", u64::MAX);
    let focus = args.str("focus", "map").to_string();
    let only = args.map.get("only").and_then(|s| s.parse::<u64>().ok());
    let from = args.get("from", 0);
    crate::watch::start();
    let mut i = only.unwrap_or(from);
    let end = only.map_or(iters, |o| o + 1);
    let mut body = || {
        while i < end {
            if only.is_none() && report::elapsed_ms() > ms {
                break;
            }
            report::begin_iter(i);
            let mut rng = Rng::derive(seed, 3, i);
            let r = report::catch(|| match focus.as_str() {
                "paths" => match rng.below(6) {
                    0 => run_paths::<()>(&mut rng, i),
                    1 => run_paths::<u8>(&mut rng, i),
                    2 => run_paths::<Big>(&mut rng, i),
                    3 => run_paths::<Wide>(&mut rng, i),
                    _ => run_paths::<u64>(&mut rng, i),
                },
                "limit" if rng.chance(1, 3) => run_limit_threads(&mut rng),
                f => {
                    let l = f == "limit";
                    match rng.below(8) {
                        0 => run_map::<u8>(&mut rng, l, i),
                        1 => run_map::<Big>(&mut rng, l, i),
                        _ => run_map::<u64>(&mut rng, l, i),
                    }
                }
            });
            if let Err(m) = r {
                violation("panic", &format!("an operation on valid keys panicked: {m}"));
            }
            report::count("runs", 1);
            tick();
            i += 1;
        }
    };
    body();
    let _ = body;
    report::finish();
}
