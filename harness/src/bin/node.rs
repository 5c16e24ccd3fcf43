//! P16: node-level inserts and splits. `seq`: random nodes of every width and fill against a plain list of
//! entries. `conc`: leaves that keep splitting beside readers that follow the sibling links.
use masstree::internode::InternodeNode;
use masstree::key::Key;
use masstree::leaf_trait::{LayerCapableLeaf, TreeInternode, TreeLeafNode, TreePermutation};
use masstree::slot::ValueSlot;
use masstree::{LeafNode24, LeafValue, LeafValueIndex, Permuter24};
use mtv::keys::hex;
use mtv::report::{self, Args, violation};
use mtv::rng::Rng;
use mtv::val::{self, Val};
use mtv::{comp, sched};
use serde_json::json;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::sync::{Arc, Mutex};

#[global_allocator]
static A: mtv::alloc::Counting = mtv::alloc::Counting;

const LAYER: u8 = 128;
const KSUF: u8 = 64;

type LV = LeafValue<u64>;
type In<const W: usize> = InternodeNode<LV, W>;

fn ascending(rng: &mut Rng, n: usize) -> Vec<u64> {
    let mut v = std::collections::BTreeSet::new();
    let dense = rng.chance(1, 3);
    let base = rng.next();
    if rng.chance(1, 4) {
        v.extend([0, u64::MAX, 1 << 63]);
    }
    while v.len() < n {
        v.insert(if dense { base.wrapping_add(rng.below(2 * n + 2) as u64) } else { rng.next() });
    }
    let mut v: Vec<u64> = v.into_iter().collect();
    while v.len() > n {
        let i = rng.below(v.len());
        v.remove(i);
    }
    v
}

/// Keys and children of an internode.
fn content<I: TreeInternode<LV>>(n: &I) -> (Vec<u64>, Vec<usize>) {
    let k = n.nkeys();
    ((0..k).map(|i| n.ikey(i)).collect(), (0..=k).map(|i| n.child(i) as usize).collect())
}

fn internode<const W: usize>(rng: &mut Rng) {
    internode_w::<In<W>>(rng);
}

fn internode_w<I: TreeInternode<LV>>(rng: &mut Rng) {
    let w = I::WIDTH;
    let height = rng.below(3) as u32;
    // children: internodes of the same kind (height > 0) or leaves
    let deep = height > 0;
    let mut kids_i: Vec<Box<I>> = vec![];
    let mut kids_l: Vec<Box<LeafNode24<LV>>> = vec![];
    let mut kid = |parent: *mut u8| -> usize {
        if deep {
            let k = I::new_boxed(height - 1);
            k.set_parent(parent);
            kids_i.push(k);
            &raw const **kids_i.last().unwrap() as usize
        } else {
            let k = LeafNode24::<LV>::new();
            k.set_parent(parent);
            kids_l.push(k);
            &raw const **kids_l.last().unwrap() as usize
        }
    };
    let parent_of = |p: usize| -> *mut u8 {
        if deep { unsafe { &*(p as *const I) }.parent() } else { unsafe { &*(p as *const LeafNode24<LV>) }.parent() }
    };
    let node: Box<I> = if rng.chance(1, 2) { I::new_boxed(height) } else { I::new_root_boxed(height) };
    if node.nkeys() != 0 || node.height() != height || node.children_are_leaves() != (height == 0) {
        violation("node-wrong", &format!("width {w}: a new internode of height {height} reports {} keys, height {}", node.nkeys(), node.height()));
    }
    let me = (&raw const *node).cast_mut().cast::<u8>();
    let all = ascending(rng, w + 1);
    let last = if rng.chance(1, 2) { w } else { rng.below(w + 1) };
    // everything but one key is inserted, in a random order
    let mut order: Vec<usize> = (0..=w).collect();
    rng.shuffle(&mut order);
    let style = rng.below(3);
    if style == 0 {
        order.sort_unstable();
    } else if style == 1 {
        order.sort_unstable_by(|a, b| b.cmp(a));
    }
    if style < 2 && rng.chance(1, 2) {
        let i = rng.below(w + 1);
        let x = order.remove(i);
        order.push(x);
    }
    let (mut ks, mut cs): (Vec<u64>, Vec<usize>) = (vec![], vec![kid(me)]);
    node.set_child(0, cs[0] as *mut u8);
    let mut new_kids = vec![];
    let locked = rng.chance(1, 2);
    for &i in &order[..last] {
        let c = kid(me);
        let pos = ks.iter().filter(|k| **k < all[i]).count();
        if node.find_insert_position(all[i]) != pos {
            violation("node-wrong", &format!("width {w}: find_insert_position({:#x}) in {ks:x?} = {}, expected {pos}", all[i], node.find_insert_position(all[i])));
        }
        if locked {
            let mut g = node.version().lock();
            g.mark_insert();
            node.insert_key_and_child(pos, all[i], c as *mut u8);
        } else if pos == ks.len() && rng.chance(1, 3) {
            // the other way of appending
            node.assign(pos, all[i], c as *mut u8);
            if rng.chance(1, 2) { node.inc_nkeys() } else { node.set_nkeys(pos as u8 + 1) }
        } else {
            node.insert_key_and_child(pos, all[i], c as *mut u8);
        }
        ks.insert(pos, all[i]);
        cs.insert(pos + 1, c);
        let got = content(&*node);
        if got != (ks.clone(), cs.clone()) {
            violation("insert-wrong", &format!("width {w}: after inserting {:#x} at {pos}: {:x?}, expected {:x?}", all[i], got, (&ks, &cs)));
        }
        if node.is_full() != (ks.len() == w) {
            violation("node-wrong", &format!("width {w}: is_full {} with {} keys", node.is_full(), ks.len()));
        }
        for (j, k) in ks.iter().enumerate() {
            if node.compare_key(all[i], j) != all[i].cmp(k) {
                violation("node-wrong", &format!("width {w}: compare_key({:#x}, {j})", all[i]));
            }
        }
        report::count("internode_inserts", 1);
        new_kids.push(c);
    }
    if last < w {
        return;
    }
    // split with the remaining key
    let key = all[order[w]];
    let pos = ks.iter().filter(|k| **k < key).count();
    let c = kid(std::ptr::null_mut());
    report::scenario(format!("internode of width {w}, height {height}, keys {ks:x?}, split inserting {key:#x} at {pos}"));
    let mut g = node.version().lock();
    g.mark_split();
    let mut right: Box<I> = I::new_boxed_for_split(node.version(), node.height());
    let right_ptr: *mut I = &raw mut *right;
    let (popup, left_got_it) = node.split_into(&mut right, right_ptr, pos, key, c as *mut u8);
    drop(g);
    right.version().unlock_for_split();
    let (lk, lc) = content(&*node);
    let (rk, rc) = content(&*right);
    let mut wk = ks.clone();
    wk.insert(pos, key);
    let mut wc = cs.clone();
    wc.insert(pos + 1, c);
    let joined: Vec<u64> = lk.iter().chain([&popup]).chain(&rk).copied().collect();
    let kids: Vec<usize> = lc.iter().chain(&rc).copied().collect();
    let what = || format!("width {w}: keys {ks:x?} + {key:#x} at {pos} split into {lk:x?} | {popup:#x} | {rk:x?} with children {lc:x?} | {rc:x?}");
    if joined != wk {
        violation("split-lost", &format!("{}, expected the keys {wk:x?}", what()));
    }
    if kids != wc {
        violation("split-lost", &format!("{}, expected the children {wc:x?}", what()));
    }
    if left_got_it != lc.contains(&c) && left_got_it {
        violation("split-wrong", &format!("{}: reported as inserted left, but the new child is right", what()));
    }
    if !left_got_it && lc.contains(&c) {
        violation("split-wrong", &format!("{}: reported as inserted right, but the new child is left", what()));
    }
    if right.height() != height || node.height() != height {
        violation("split-wrong", &format!("{}: heights {} and {}, expected {height}", what(), node.height(), right.height()));
    }
    // a separator above is useful only if both halves can route
    if w >= 3 && (lk.is_empty() || rk.is_empty()) {
        violation("split-wrong", &format!("{}: one half has no key", what()));
    }
    for x in &lc {
        if *x != c && parent_of(*x) != me {
            violation("parent-wrong", &format!("{}: child {x:#x} stayed left, but its parent is {:?} instead of {me:?}", what(), parent_of(*x)));
        }
    }
    if deep {
        for x in &rc {
            if parent_of(*x) != right_ptr.cast() {
                violation("parent-wrong", &format!("{}: child {x:#x} moved right, but its parent is {:?} instead of {right_ptr:?}", what(), parent_of(*x)));
            }
        }
    }
    for v in [node.version(), right.version()] {
        if v.is_locked() || v.is_dirty() || v.is_leaf() {
            violation("split-wrong", &format!("{}: version {:#x} afterwards", what(), v.value()));
        }
    }
    let mut h = DefaultHasher::new();
    (w, height, &ks, key).hash(&mut h);
    report::distinct("programs", h.finish());
    report::count("internode_splits", 1);
}

/// An entry of a leaf at one layer.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Ent {
    ikey: u64,
    /// 0..=8, 64 or 128.
    len: u8,
    suffix: Vec<u8>,
    val: u64,
}
fn show(e: &[Ent]) -> String {
    e.iter().map(|e| format!("{:x}/{}{}={}", e.ikey, e.len, if e.len == KSUF { format!("+{}", hex(&e.suffix)) } else { String::new() }, e.val)).collect::<Vec<_>>().join(" ")
}

fn entries(rng: &mut Rng, n: usize) -> Vec<Ent> {
    let mut v: Vec<Ent> = vec![];
    let groups = match rng.below(4) {
        0 => rng.range(1, 3),
        1 => rng.range(3, 6),
        _ => n.max(1),
    };
    let iks = ascending(rng, groups);
    let mut tries = 0;
    while v.len() < n && tries < 400 {
        tries += 1;
        let ik = if groups == n { iks[v.len()] } else { *rng.pick(&iks) };
        // the bytes of a short key beyond its length are zero
        let len = match rng.below(5) {
            0 => KSUF,
            1 => LAYER,
            _ => rng.below(9) as u8,
        };
        let ik = if len < 8 && groups == n && rng.chance(1, 2) { ik & !(u64::MAX >> (8 * u32::from(len)).min(63)) } else { ik };
        // one entry per slice and length; at most one that goes on
        if v.iter().any(|e| e.ikey == ik && (e.len == len || (e.len > 8 && len > 8))) {
            continue;
        }
        let suffix = if len == KSUF { (0..rng.range(1, 30)).map(|_| rng.next() as u8).collect() } else { vec![] };
        v.push(Ent { ikey: ik, len, suffix, val: 0 });
    }
    v.sort();
    v
}

/// How a slot type keeps the values of this engine.
trait Slot: ValueSlot + Send + Sync + Sized + 'static {
    fn make(id: u64) -> <Self as ValueSlot>::Output;
    fn id(o: <Self as ValueSlot>::Output) -> u64;
    const TRACKED: bool;
}
impl Slot for LeafValue<Val> {
    fn make(id: u64) -> Arc<Val> {
        Arc::new(Val::new(id))
    }
    fn id(o: Arc<Val>) -> u64 {
        match o.intact() {
            Ok(i) => i,
            Err(m) => violation("split-lost", &format!("a value of a split leaf is damaged: {m}")),
        }
    }
    const TRACKED: bool = true;
}
impl Slot for LeafValueIndex<u64> {
    fn make(id: u64) -> u64 {
        id
    }
    fn id(o: u64) -> u64 {
        o
    }
    const TRACKED: bool = false;
}

fn key_of(e: &Ent) -> Vec<u8> {
    let mut b = e.ikey.to_be_bytes()[..(e.len as usize).min(8)].to_vec();
    b.extend(&e.suffix);
    b
}

/// The entries of a leaf in order.
fn read<S: Slot>(l: &LeafNode24<S>) -> Vec<Ent>
where
    S::Value: Send + Sync + 'static,
    S::Output: Send + Sync,
    LeafNode24<S>: LayerCapableLeaf<S> + TreeLeafNode<S, Perm = Permuter24>,
{
    let p = l.permutation();
    (0..p.size())
        .map(|i| {
            let s = p.get(i);
            let len = l.keylenx(s);
            Ent {
                ikey: l.ikey(s),
                len,
                suffix: if len == KSUF { l.ksuf(s).unwrap_or(b"(none)").to_vec() } else { vec![] },
                val: if len >= LAYER { l.leaf_value_ptr(s) as u64 } else { l.try_clone_output(s).map_or(u64::MAX, S::id) },
            }
        })
        .collect()
}

fn put<S: Slot>(l: &LeafNode24<S>, s: usize, e: &Ent, g: &seize::LocalGuard<'_>)
where
    S::Value: Send + Sync + 'static,
    S::Output: Send + Sync,
    LeafNode24<S>: LayerCapableLeaf<S>,
{
    if e.len >= LAYER {
        l.set_ikey(s, e.ikey);
        l.set_keylenx(s, e.len);
        l.set_leaf_value_ptr(s, e.val as *mut u8);
    } else if e.len == KSUF {
        // a key at some layer whose rest is this entry
        let mut b = vec![7u8; 8];
        b.extend(key_of(e));
        let mut k = Key::new(&b);
        k.shift();
        unsafe { l.assign_from_key_arc(s, &k, Some(S::make(e.val)), g) };
    } else {
        let b = key_of(e);
        unsafe { l.assign_from_key_arc(s, &Key::new(&b), Some(S::make(e.val)), g) };
        // the slice may have any bytes in this engine, also where a key of this length has none
        l.set_ikey(s, e.ikey);
    }
}

fn leaf<S: Slot>(rng: &mut Rng)
where
    S::Value: Send + Sync + 'static,
    S::Output: Send + Sync,
    LeafNode24<S>: LayerCapableLeaf<S> + TreeLeafNode<S, Perm = Permuter24>,
{
    val::reset();
    let col = seize::Collector::new();
    let l: Box<LeafNode24<S>> = if rng.chance(1, 2) { LeafNode24::new() } else { LeafNode24::new_root() };
    let n = if rng.chance(1, 2) { 24 } else { rng.range(1, 24) };
    let mut es = entries(rng, n);
    let n = es.len();
    let values: usize = es.iter().filter(|e| e.len < LAYER).count();
    for (i, e) in es.iter_mut().enumerate() {
        e.val = if e.len >= LAYER { 0x1000 + 64 * i as u64 } else { val::fresh() };
    }
    let mut order: Vec<usize> = (0..n).collect();
    rng.shuffle(&mut order);
    let g = col.enter();
    let mut perm = Permuter24::empty();
    {
        let mut done: Vec<usize> = vec![];
        for i in order {
            let pos = done.iter().filter(|j| **j < i).count();
            let s = perm.insert_from_back(pos);
            put(&l, s, &es[i], &g);
            done.push(i);
        }
        l.set_permutation(perm);
    }
    let what = || format!("leaf [{}]", show(&es));
    report::scenario(what());
    if read(&l) != es {
        violation("insert-wrong", &format!("{} reads back as [{}]", what(), show(&read(&l))));
    }
    // where would it be split?
    let key = match rng.below(4) {
        0 => rng.next(),
        1 => es[rng.below(n)].ikey,
        2 => es[rng.below(n)].ikey.wrapping_add(1),
        _ => es[rng.below(n)].ikey.wrapping_sub(1),
    };
    let pos = es.iter().filter(|e| e.ikey < key).count();
    let sp = TreeLeafNode::calculate_split_point(&*l, pos, key);
    match &sp {
        Some(p) => {
            if p.pos == 0 || p.pos >= n || p.split_ikey != es[p.pos].ikey {
                violation("split-point", &format!("{}: split point {p:?} for {key:#x}", what()));
            }
            if es[p.pos - 1].ikey == es[p.pos].ikey {
                violation("split-point", &format!("{}: split point {p:?} for {key:#x} separates entries of one slice", what()));
            }
            report::count("split_points", 1);
        }
        None => {
            // a full leaf with more than one slice can always be split
            if n == 24 && es[0].ikey != es[23].ikey {
                violation("split-point", &format!("{}: no split point for {key:#x}", what()));
            }
            report::count("no_split_point", 1);
        }
    }
    let bounds: Vec<usize> = (1..n).collect();
    let all_right = bounds.is_empty() || rng.chance(1, 6);
    let at = if all_right {
        0
    } else {
        match &sp {
            Some(p) if rng.chance(1, 2) => p.pos,
            _ => *rng.pick(&bounds),
        }
    };
    report::scenario(format!("{}, split at {at}", what()));
    let snap = l.version().stable();
    let mut lock = l.version().lock();
    lock.mark_split();
    let fresh = LeafNode24::<S>::new();
    let (r, split_ikey, _) = unsafe {
        if all_right { l.split_all_to_right_preallocated(fresh, &g) } else { l.split_into_preallocated(at, fresh, &g) }
    };
    if !r.version().is_locked() || !r.version().is_dirty() {
        violation("split-wrong", &format!("{}: the new leaf is open to others before it is placed (version {:#x})", what(), r.version().value()));
    }
    let r: *mut LeafNode24<S> = Box::into_raw(r);
    unsafe { l.link_sibling(r) };
    drop(lock);
    let r = unsafe { Box::from_raw(r) };
    r.version().unlock_for_split();
    if !l.version().has_split(snap) {
        violation("split-wrong", &format!("{}: after splitting at {at} the leaf's version does not tell readers of the split", what()));
    }
    if l.safe_next() != (&raw const *r).cast_mut() || r.prev() != (&raw const *l).cast_mut() || !r.safe_next().is_null() {
        violation("split-wrong", &format!("{}: after splitting at {at} the leaves are not linked to each other", what()));
    }
    // a leaf that was split is not a root any more: whoever splits a root puts a new one above it
    if r.version().is_root() || l.version().is_root() {
        violation("split-wrong", &format!("{}: a split leaf is still marked as a root", what()));
    }
    let (gl, gr) = (read(&l), read(&r));
    if gl[..] != es[..at] || gr[..] != es[at..] {
        violation("split-lost", &format!("{} split at {at} into [{}] | [{}]", what(), show(&gl), show(&gr)));
    }
    if split_ikey != es[at].ikey {
        violation("split-wrong", &format!("{} split at {at}: separator {split_ikey:#x}, expected {:#x}", what(), es[at].ikey));
    }
    // both halves keep working: an insert goes into a slot that is free
    for (h, have) in [(&l, &es[..at]), (&r, &es[at..])] {
        if have.len() == 24 {
            continue;
        }
        let mut p = LeafNode24::permutation(h);
        let pos = rng.below(have.len() + 1);
        let s = p.insert_from_back(pos);
        let e = Ent { ikey: rng.next(), len: KSUF, suffix: vec![1, 2, 3], val: val::fresh() };
        if !h.leaf_value_ptr(s).is_null() && h.keylenx(s) < LAYER {
            violation("split-lost", &format!("{} split at {at}: a free slot ({s}) still owns a value", what()));
        }
        put(h, s, &e, &g);
        h.set_permutation(p);
        let mut w = have.to_vec();
        w.insert(pos, e);
        let got = read(h);
        if got != w {
            violation("insert-wrong", &format!("{} split at {at}: inserting at {pos} gives [{}]", what(), show(&got)));
        }
        report::count("inserts_after_split", 1);
    }
    let made = val::CREATED.load(std::sync::atomic::Ordering::SeqCst);
    if S::TRACKED && (made as usize) < values {
        violation("harness", "values were not counted");
    }
    drop(g);
    // each value is freed exactly once
    if rng.chance(1, 2) {
        drop(l);
        drop(r);
    } else {
        drop(r);
        drop(l);
    }
    drop(col);
    if S::TRACKED {
        let dropped = val::DROPPED.load(std::sync::atomic::Ordering::SeqCst);
        let bad = val::BAD_DROP.load(std::sync::atomic::Ordering::SeqCst);
        if bad != 0 || dropped != made {
            violation("split-lost", &format!("[{}] split at {at}: {made} values were made, {dropped} dropped, damaged or repeated drop of id {bad}", show(&es)));
        }
    }
    let mut h = DefaultHasher::new();
    (at, es.iter().map(|e| (e.ikey, e.len)).collect::<Vec<_>>()).hash(&mut h);
    report::distinct("programs", h.finish());
    report::count("leaf_splits", 1);
}

fn run_seq(rng: &mut Rng, iter: u64) {
    internode::<1>(rng);
    internode::<2>(rng);
    internode::<3>(rng);
    internode::<4>(rng);
    internode::<7>(rng);
    internode::<8>(rng);
    internode::<14>(rng);
    internode::<15>(rng);
    internode_w::<<LeafNode24<LV> as TreeLeafNode<LV>>::Internode>(rng);
    leaf::<LeafValue<Val>>(rng);
    leaf::<LeafValueIndex<u64>>(rng);
    if iter % 800 == 3 {
        let e = entries(rng, 12);
        report::sample(json!({"iter": iter, "a leaf content drawn": show(&e)}));
    }
}

// ---------------------------------------------------------------------------------------------------------------

type Leaf = LeafNode24<LeafValueIndex<u64>>;
struct Ptr(*mut Leaf);
unsafe impl Send for Ptr {}
unsafe impl Sync for Ptr {}

/// Leaves of a chain split again and again; readers walk the chain.
fn run_conc(rng: &mut Rng, iter: u64) {
    let col = seize::Collector::new();
    let m = rng.range(1, 3);
    let mut all: Vec<u64> = ascending(rng, 24 * m);
    all.dedup();
    let g = col.enter();
    let leaves: Vec<Ptr> = (0..m)
        .map(|i| {
            let l: Box<Leaf> = LeafNode24::new();
            let n = 24;
            for j in 0..n {
                put(&l, j, &Ent { ikey: all[24 * i + j], len: if j % 3 == 1 { KSUF } else { 8 }, suffix: if j % 3 == 1 { vec![j as u8 + 1; 3] } else { vec![] }, val: all[24 * i + j] }, &g);
            }
            l.set_permutation(Permuter24::make_sorted(n));
            Ptr(Box::into_raw(l))
        })
        .collect();
    for i in 1..m {
        unsafe {
            (*leaves[i - 1].0).set_next(leaves[i].0);
            (*leaves[i].0).set_prev(leaves[i - 1].0);
        }
    }
    drop(g);
    let made: Mutex<Vec<Ptr>> = Mutex::new(vec![]);
    let nw = rng.range(1, 3);
    let nr = rng.range(1, 2);
    let mut jobs: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
    let mut plan = vec![];
    for t in 0..nw + nr {
        let ops = rng.range(1, 4);
        plan.push(ops);
        let seed = rng.next();
        let (leaves, col, made, all) = (&leaves, &col, &made, &all);
        jobs.push(Box::new(move || {
            let r = report::catch(|| {
                let mut rng = Rng::derive(seed, 16, t as u64);
                for _ in 0..ops {
                    mtv::weak::enter();
                    let g = col.enter();
                    if t < nw {
                        // a leaf found by walking from a random start, as far as chance takes it
                        let mut p = leaves[rng.below(m)].0;
                        let l: &Leaf = loop {
                            let l = unsafe { &*p };
                            let nx = l.safe_next();
                            if !nx.is_null() && rng.chance(1, 3) {
                                p = nx;
                            } else {
                                break l;
                            }
                        };
                        let mut lk = l.version().lock();
                        let n = LeafNode24::permutation(l).size();
                        if n < 2 {
                            continue;
                        }
                        let at = if rng.chance(1, 2) { n / 2 } else { rng.range(1, n - 1) };
                        let first = l.ikey(LeafNode24::permutation(l).get(at));
                        lk.mark_split();
                        let (b, split, _) = unsafe { l.split_into_preallocated(at, Leaf::new(), &g) };
                        if split != first {
                            violation("split-wrong", &format!("thread {t}: separator {split:#x}, expected {first:#x}"));
                        }
                        let b = Box::into_raw(b);
                        made.lock().unwrap().push(Ptr(b));
                        unsafe { l.link_sibling(b) };
                        unsafe { (*b).set_parent(std::ptr::null_mut()) };
                        unsafe { (*b).version().unlock_for_split() };
                        drop(lk);
                        report::count("concurrent_splits", 1);
                    } else {
                        walk(t, leaves[0].0, all, &mut rng);
                        // a single leaf, validated
                        for p in leaves {
                            let l = unsafe { &*p.0 };
                            l.wait_for_split();
                        }
                    }
                }
            });
            if let Err(m) = r {
                violation("panic", &format!("thread {t}: splitting or walking panicked: {m}"));
            }
        }));
    }
    let strat = comp::strategy(rng, nw + nr, 400);
    let desc = strat.describe();
    report::scenario(format!("{m} leaves, operations per thread {plan:?} ({nw} split, {nr} walk), schedule {desc}"));
    let info = sched::run(strat, rng.next(), 300_000, jobs);
    // at rest: the chain holds every leaf once, linked both ways
    let made = made.into_inner().unwrap();
    walk(usize::MAX, leaves[0].0, &all, rng);
    let mut p = leaves[0].0;
    let mut prev = std::ptr::null_mut();
    let mut seen = 0;
    while !p.is_null() {
        let l = unsafe { &*p };
        if l.prev() != prev {
            violation("chain-wrong", &format!("at rest: leaf {seen} of the chain names {:?} as its predecessor instead of {prev:?}", l.prev()));
        }
        if l.next_is_marked() || l.version().is_locked() || l.version().is_dirty() {
            violation("chain-wrong", &format!("at rest: leaf {seen} of the chain is still marked or locked"));
        }
        prev = p;
        p = l.next_raw();
        seen += 1;
    }
    if seen != m + made.len() {
        violation("chain-wrong", &format!("at rest: the chain holds {seen} leaves, expected {}", m + made.len()));
    }
    for q in leaves.into_iter().chain(made) {
        drop(unsafe { Box::from_raw(q.0) });
    }
    let mut h = DefaultHasher::new();
    (m, nw, &plan, info.hash).hash(&mut h);
    report::distinct("programs", h.finish());
    if iter % 2000 == 7 {
        report::sample(json!({"iter": iter, "leaves": m, "operations per thread": format!("{plan:?}"), "splitting threads": nw, "schedule": desc}));
    }
}

/// Walk the chain from its head, reading every leaf consistently: all entries, once, in order.
fn walk(t: usize, head: *mut Leaf, all: &[u64], _rng: &mut Rng) {
    let mut got: Vec<u64> = vec![];
    let mut p = head;
    while !p.is_null() {
        let l = unsafe { &*p };
        let mut spins = 0;
        let (e, next) = loop {
            let v = l.version().stable();
            let e = match TreeLeafNode::permutation_try(l) {
                Ok(perm) => (0..perm.size())
                    .map(|i| {
                        let s = perm.get(i);
                        let ok = l.keylenx(s) != KSUF || l.ksuf(s).is_some();
                        (l.ikey(s), l.leaf_value_ptr(s), ok)
                    })
                    .collect::<Vec<_>>(),
                Err(()) => {
                    report::count("reads_of_frozen_order", 1);
                    sched::point();
                    continue;
                }
            };
            let next = l.safe_next();
            if !l.version().has_changed_or_locked(v) {
                break (e, next);
            }
            report::count("reads_told_of_change", 1);
            spins += 1;
            if spins > 100_000 {
                violation("no-progress", &format!("thread {t}: a reader is told of changes forever"));
            }
        };
        for (ik, ptr, ok) in e {
            if ptr.is_null() || !ok {
                violation("chain-wrong", &format!("thread {t}: a validated read of entry {ik:#x} finds no value or no suffix"));
            }
            if unsafe { *ptr.cast::<u64>() } != ik {
                violation("chain-wrong", &format!("thread {t}: a validated read of entry {ik:#x} finds another entry's value"));
            }
            got.push(ik);
        }
        p = next;
    }
    if got != all {
        violation("chain-wrong", &format!("thread {t}: walking the chain gave {got:x?}, expected {all:x?}"));
    }
    report::count("chain_walks", 1);
}

fn main() {
    let (engine, args): (String, Args) = Args::parse();
    report::init(&engine, &args);
    sched::install();
    match engine.as_str() {
        "seq" => comp::drive(&args, 71, run_seq),
        "conc" => comp::drive(&args, 72, run_conc),
        _ => {
            eprintln!("unknown engine {engine}");
            std::process::exit(2)
        }
    }
}
