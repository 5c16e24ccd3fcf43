//! P20: who owns a value or node. `seq`: value slots, leaf slots and the node allocator against a model that knows every
//! owner. `conc`: threads replacing and reading allocated leaves, and claiming leaf slots, under the scheduler.
use masstree::internode::InternodeNode;
use masstree::key::Key;
use masstree::leaf_trait::LayerCapableLeaf;
use masstree::leaf24::{KSUF_KEYLENX, LAYER_KEYLENX};
use masstree::slot::ValueSlot;
use masstree::value::LeafValueIndex;
use masstree::{LeafNode24, LeafValue, MassTreeGeneric, NodeAllocator24, NodeAllocatorGeneric, SeizeAllocator24};
use mtv::report::{self, Args, violation};
use mtv::rng::Rng;
use mtv::val::{self, Cv, Val};
use mtv::{alloc, comp, sched};
use seize::{Collector, Guard};
use serde_json::json;
use std::collections::HashMap;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::sync::atomic::{AtomicPtr, Ordering};
use std::sync::{Arc, Mutex};

#[global_allocator]
static A: mtv::alloc::Counting = mtv::alloc::Counting;

/// The two storage modes.
trait Mode: ValueSlot<Value: Send + Sync, Output: Send + Sync> + Send + Sync + 'static {
    const SHARED: bool;
    fn make(id: u64) -> Self::Value;
    /// Identity of an output, checked.
    fn id(o: &Self::Output) -> Result<u64, String>;
    fn owners(o: &Self::Output) -> usize;
    /// The flavour's own accessors agree with the trait's.
    fn own_view(&self, i: usize) -> (bool, bool, bool, Option<u64>, Option<*mut u8>);
    fn refused(&mut self) -> bool;
    fn copy(&self) -> Self;
}
fn bad<T>(r: Result<T, String>, what: &str) -> T {
    r.unwrap_or_else(|e| violation("value-wrong", &format!("{what}: {e}")))
}
impl Mode for LeafValue<Val> {
    const SHARED: bool = true;
    fn make(id: u64) -> Val {
        Val::new(id)
    }
    fn id(o: &Arc<Val>) -> Result<u64, String> {
        o.live()
    }
    fn owners(o: &Arc<Val>) -> usize {
        Arc::strong_count(o)
    }
    fn own_view(&self, i: usize) -> (bool, bool, bool, Option<u64>, Option<*mut u8>) {
        let v = match i % 3 {
            0 => self.try_as_value().map(|a| bad(Self::id(a), "try_as_value")),
            1 => self.try_clone_arc().map(|a| bad(Self::id(&a), "try_clone_arc")),
            _ if LeafValue::is_value(self) => {
                let (a, b) = (bad(Self::id(self.as_value()), "as_value"), bad(Self::id(&self.clone_arc()), "clone_arc"));
                if a != b {
                    violation("value-wrong", &format!("as_value gives value {a}, clone_arc {b}"));
                }
                Some(a)
            }
            _ => None,
        };
        let l = if i % 2 == 0 || !LeafValue::is_layer(self) { self.try_as_layer() } else { Some(self.as_layer()) };
        (LeafValue::is_empty(self), LeafValue::is_value(self), LeafValue::is_layer(self), v, l)
    }
    fn refused(&mut self) -> bool {
        let (v, l) = (LeafValue::is_value(self), LeafValue::is_layer(self));
        (v || report::catch(|| drop(self.clone_arc())).is_err()) && (v || report::catch(|| drop(Arc::clone(self.as_value_mut()))).is_err()) && (l || report::catch(|| self.as_layer()).is_err())
    }
    fn copy(&self) -> Self {
        self.clone()
    }
}
impl Mode for LeafValueIndex<Cv> {
    const SHARED: bool = false;
    fn make(id: u64) -> Cv {
        Cv::new(id)
    }
    fn id(o: &Cv) -> Result<u64, String> {
        o.intact()
    }
    fn owners(_: &Cv) -> usize {
        0
    }
    fn own_view(&self, i: usize) -> (bool, bool, bool, Option<u64>, Option<*mut u8>) {
        let v = if i % 2 == 0 || !LeafValueIndex::is_value(self) { self.try_value() } else { Some(self.value()) };
        let l = if i % 3 == 0 || !LeafValueIndex::is_layer(self) { self.try_as_layer() } else { Some(self.as_layer()) };
        (LeafValueIndex::is_empty(self), LeafValueIndex::is_value(self), LeafValueIndex::is_layer(self), v.map(|c| bad(Self::id(&c), "value")), l)
    }
    fn refused(&mut self) -> bool {
        (LeafValueIndex::is_value(self) || report::catch(|| self.value()).is_err()) && (LeafValueIndex::is_layer(self) || report::catch(|| self.as_layer()).is_err())
    }
    fn copy(&self) -> Self {
        *self
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum M {
    Empty,
    Value(u64),
    Layer(usize),
}
fn layer_ptr(n: usize) -> *mut u8 {
    std::ptr::without_provenance_mut(0x1000 + n * 16)
}

/// Everything a run owns outside the thing under test.
struct Hands<S: Mode> {
    out: Vec<(S::Output, u64)>,
    raw: Vec<(*mut u8, u64)>,
    next: u64,
}
impl<S: Mode> Hands<S> {
    fn new() -> Self {
        Hands { out: vec![], raw: vec![], next: 1 }
    }
    fn create(&mut self) -> (S::Output, u64) {
        let id = if S::SHARED { val::fresh() } else { self.next };
        self.next = self.next.max(id) + 1;
        let o = S::into_output(S::make(id));
        if bad(S::id(&o), "into_output") != id {
            violation("value-wrong", &format!("into_output of value {id} gives another value"));
        }
        (o, id)
    }
    /// Common operations between handles and raw words.
    fn shuffle(&mut self, rng: &mut Rng) -> &'static str {
        match rng.below(8) {
            0 | 1 => {
                let n = self.create();
                self.out.push(n);
                "into_output"
            }
            2 if !self.out.is_empty() => {
                let i = rng.below(self.out.len());
                let p = S::output_to_raw(&self.out[i].0);
                self.raw.push((p, self.out[i].1));
                "output_to_raw"
            }
            3 if !self.out.is_empty() => {
                let (o, id) = self.out.swap_remove(rng.below(self.out.len()));
                self.raw.push((S::output_consume_to_raw(o), id));
                "output_consume_to_raw"
            }
            4 if !self.raw.is_empty() => {
                let (p, id) = self.raw[rng.below(self.raw.len())];
                // SAFETY: the word came from one of the two conversions above and was not cleaned up
                let o = unsafe { S::output_from_raw(p) };
                if bad(S::id(&o), "output_from_raw") != id {
                    violation("value-wrong", &format!("output_from_raw of value {id} gives another value"));
                }
                self.out.push((o, id));
                "output_from_raw"
            }
            5 if !self.raw.is_empty() => {
                let (p, _) = self.raw.swap_remove(rng.below(self.raw.len()));
                // SAFETY: as above; the word leaves the list of words
                unsafe { S::cleanup_value_ptr(p) };
                "cleanup_value_ptr"
            }
            6 if !self.out.is_empty() => {
                self.out.swap_remove(rng.below(self.out.len()));
                "dropping a handle"
            }
            _ => "nothing",
        }
    }
    /// Compare owner counts with the model: `held` lists the ids owned by the thing under test.
    fn audit(&self, held: &HashMap<u64, usize>, op: &str) {
        let mut want = held.clone();
        for (_, id) in &self.raw {
            *want.entry(*id).or_default() += 1;
        }
        if !S::SHARED {
            for (o, id) in &self.out {
                if bad(S::id(o), op) != *id {
                    violation("value-wrong", &format!("after {op}, the copy of value {id} differs"));
                }
            }
            return;
        }
        for (_, id) in &self.out {
            *want.entry(*id).or_default() += 1;
        }
        for (o, id) in &self.out {
            if bad(S::id(o), op) != *id || S::owners(o) != want[id] {
                violation("ownership", &format!("after {op}, value {id} has {} owners, expected {}", S::owners(o), want[id]));
            }
        }
        for id in 1..val::last_id() {
            if val::is_live(id) != want.contains_key(&id) {
                violation("ownership", &format!("after {op}, value {id} is {}, but {} owners remain", if val::is_live(id) { "alive" } else { "dropped" }, want.get(&id).copied().unwrap_or(0)));
            }
        }
        self.drops(op);
    }
    fn drops(&self, op: &str) {
        if val::BAD_DROP.load(Ordering::SeqCst) != 0 {
            violation("ownership", &format!("after {op}, value {} was dropped twice or damaged", val::BAD_DROP.load(Ordering::SeqCst)));
        }
    }
    fn end(mut self) {
        self.out.clear();
        for (p, _) in self.raw.drain(..) {
            // SAFETY: owned words
            unsafe { S::cleanup_value_ptr(p) };
        }
        self.drops("the end");
        if S::SHARED && val::CREATED.load(Ordering::SeqCst) != val::DROPPED.load(Ordering::SeqCst) {
            violation("ownership", &format!("{} values were created, {} dropped", val::CREATED.load(Ordering::SeqCst), val::DROPPED.load(Ordering::SeqCst)));
        }
    }
}

fn value_slots<S: Mode>(rng: &mut Rng) -> u64 {
    let mut h = DefaultHasher::new();
    let mut hands = Hands::<S>::new();
    let n = rng.range(1, 5);
    let mut slots: Vec<S> = (0..n).map(|_| S::default()).collect();
    let mut model = vec![M::Empty; n];
    for _ in 0..rng.range(5, 60) {
        let i = rng.below(n);
        let k = rng.below(14);
        (k, i).hash(&mut h);
        let op = match k {
            0 => {
                let (o, id) = hands.create();
                slots[i] = S::from_output(o);
                model[i] = M::Value(id);
                "from_output"
            }
            1 if !hands.out.is_empty() => {
                let (o, id) = hands.out.swap_remove(rng.below(hands.out.len()));
                slots[i] = S::from_output(o);
                model[i] = M::Value(id);
                "from_output of a handle"
            }
            2 => {
                let l = rng.below(9);
                slots[i] = S::layer(layer_ptr(l));
                model[i] = M::Layer(l);
                "layer"
            }
            3 => {
                let l = rng.below(9);
                slots[i].set_layer(layer_ptr(l));
                model[i] = M::Layer(l);
                "set_layer"
            }
            4 | 5 if !matches!(model[i], M::Layer(_)) => {
                let (o, id) = if hands.out.is_empty() || rng.chance(1, 2) { hands.create() } else { hands.out.swap_remove(rng.below(hands.out.len())) };
                let old = slots[i].swap_output(o);
                match (old, model[i]) {
                    (None, M::Empty) => {}
                    (Some(o), M::Value(w)) if bad(S::id(&o), "swap_output") == w => hands.out.push((o, w)),
                    (o, w) => violation("slot-wrong", &format!("swap_output of a slot holding {w:?} returns {:?}", o.map(|o| S::id(&o)))),
                }
                model[i] = M::Value(id);
                "swap_output"
            }
            6 => {
                let t = slots[i].take();
                let was = std::mem::replace(&mut model[i], M::Empty);
                if !slots[i].is_empty() {
                    violation("slot-wrong", &format!("a slot that held {was:?} is not empty after take"));
                }
                let j = rng.below(n);
                slots[j] = t;
                model[j] = was;
                "take"
            }
            7 | 8 => {
                match (slots[i].try_get(), model[i]) {
                    (Some(o), M::Value(w)) if bad(S::id(&o), "try_get") == w => {
                        if rng.chance(1, 2) {
                            hands.out.push((o, w));
                        }
                    }
                    (None, M::Empty | M::Layer(_)) => {}
                    (o, w) => violation("slot-wrong", &format!("try_get of a slot holding {w:?} gives {:?}", o.map(|o| S::id(&o)))),
                }
                "try_get"
            }
            9 => {
                let j = rng.below(n);
                slots[j] = slots[i].copy();
                model[j] = model[i];
                "clone"
            }
            10 => {
                if !slots[i].refused() {
                    violation("slot-wrong", &format!("a slot holding {:?} hands out something else instead of refusing", model[i]));
                }
                "refusal"
            }
            _ => hands.shuffle(rng),
        };
        let mut held: HashMap<u64, usize> = HashMap::new();
        for (i, (s, m)) in slots.iter().zip(&model).enumerate() {
            let want = (*m == M::Empty, matches!(m, M::Value(_)), matches!(m, M::Layer(_)));
            let (e, v, l, id, ptr) = s.own_view(rng.below(6));
            let ids = match m {
                M::Value(id) => Some(*id),
                _ => None,
            };
            let lay = match m {
                M::Layer(l) => Some(layer_ptr(*l)),
                _ => None,
            };
            if (e, v, l) != want || (s.is_empty(), s.is_value(), s.is_layer()) != want || id != ids || ptr != lay || s.try_layer() != lay {
                violation("slot-wrong", &format!("after {op}, slot {i} should hold {m:?} but shows {:?} / value {id:?} / layer {ptr:?}", (e, v, l)));
            }
            if let Some(id) = ids {
                *held.entry(id).or_default() += 1;
            }
        }
        hands.audit(&held, op);
        report::count("slot_operations", 1);
    }
    drop(slots);
    hands.audit(&HashMap::new(), "dropping the slots");
    hands.end();
    h.finish()
}

#[derive(Clone, PartialEq, Debug)]
struct Entry {
    what: M,
    word: usize,
    ikey: u64,
    len: u8,
    suffix: Option<Vec<u8>>,
}

fn leaf_slots<S: Mode>(rng: &mut Rng) -> u64
where
    LeafNode24<S>: LayerCapableLeaf<S>,
{
    let mut h = DefaultHasher::new();
    let collector = Collector::new();
    let mut hands = Hands::<S>::new();
    {
        let guard = collector.enter();
        let mut leaf: Box<LeafNode24<S>> = match rng.below(3) {
            0 => LeafNode24::new(),
            1 => LeafNode24::new_root(),
            _ => LeafNode24::new_layer_root(),
        };
        let _ = leaf.version_mut();
        let mut model = vec![Entry { what: M::Empty, word: 0, ikey: 0, len: 0, suffix: None }; 24];
        for _ in 0..rng.range(5, 60) {
            let i = rng.below(24);
            let k = rng.below(12);
            (k, i).hash(&mut h);
            let op = match k {
                0..3 if model[i].what == M::Empty => {
                    let (o, id) = if hands.out.is_empty() || rng.chance(1, 2) { hands.create() } else { hands.out.swap_remove(rng.below(hands.out.len())) };
                    let n = *rng.pick(&[0usize, 1, 7, 8, 8, 9, 16, 20]);
                    let bytes: Vec<u8> = (0..n).map(|_| rng.next() as u8).collect();
                    let key = Key::new(&bytes);
                    // SAFETY: the slot is empty and this thread alone uses the leaf
                    unsafe { LayerCapableLeaf::assign_from_key_arc(&*leaf, i, &key, Some(o), &guard) };
                    let m = &mut model[i];
                    m.what = M::Value(id);
                    m.word = leaf.leaf_value_ptr(i).addr();
                    let mut first = [0u8; 8];
                    first[..n.min(8)].copy_from_slice(&bytes[..n.min(8)]);
                    m.ikey = u64::from_be_bytes(first);
                    m.len = if n > 8 { KSUF_KEYLENX } else { n as u8 };
                    m.suffix = (n > 8).then(|| bytes[8..].to_vec());
                    "assign_from_key_arc"
                }
                3 => {
                    // a claim: expects what is there, or something else
                    let right = rng.chance(2, 3);
                    let cur = leaf.load_slot_value(i);
                    if matches!(model[i].what, M::Layer(_)) {
                        continue;
                    }
                    let (o, id) = hands.create();
                    let new = S::output_consume_to_raw(o);
                    let exp = if right { cur } else { layer_ptr(99) };
                    let r = leaf.cas_slot_value(i, exp, new);
                    match r {
                        Ok(()) if right => {
                            if let M::Value(old) = model[i].what {
                                hands.raw.push((cur, old));
                            }
                            model[i].what = M::Value(id);
                            model[i].word = new.addr();
                        }
                        Err(e) if !right && e == cur => hands.raw.push((new, id)),
                        r => violation("slot-wrong", &format!("cas_slot_value expecting {exp:?} on {cur:?} returns {r:?}")),
                    }
                    "cas_slot_value"
                }
                4 | 5 => {
                    let p = leaf.take_leaf_value_ptr(i);
                    if p.addr() != model[i].word || !leaf.leaf_value_ptr(i).is_null() {
                        violation("slot-wrong", &format!("take_leaf_value_ptr of slot {i} returned {p:?} and left {:?}", leaf.leaf_value_ptr(i)));
                    }
                    if let M::Value(id) = model[i].what {
                        hands.raw.push((p, id));
                    }
                    let clear = model[i].suffix.is_some();
                    if clear {
                        // SAFETY: single thread
                        unsafe { leaf.clear_ksuf(i, &guard) };
                        model[i].len = 0;
                        model[i].suffix = None;
                    } else if model[i].len >= LAYER_KEYLENX {
                        leaf.set_keylenx(i, 8);
                        model[i].len = 8;
                    }
                    model[i].what = M::Empty;
                    model[i].word = 0;
                    "take_leaf_value_ptr"
                }
                6 if model[i].what == M::Empty && !hands.raw.is_empty() => {
                    let (p, id) = hands.raw.swap_remove(rng.below(hands.raw.len()));
                    leaf.set_leaf_value_ptr(i, p);
                    model[i].what = M::Value(id);
                    model[i].word = p.addr();
                    "set_leaf_value_ptr"
                }
                7 if model[i].what == M::Empty => {
                    let (k, l) = (rng.next(), rng.below(9) as u8);
                    // SAFETY: nobody else claims slots here
                    unsafe { leaf.store_key_data_for_cas(i, k, l) };
                    model[i].ikey = k;
                    model[i].len = l;
                    "store_key_data_for_cas"
                }
                8 if model[i].what == M::Empty => {
                    let l = rng.below(9);
                    leaf.set_leaf_value_ptr(i, layer_ptr(l));
                    leaf.set_keylenx(i, LAYER_KEYLENX);
                    model[i].what = M::Layer(l);
                    model[i].word = layer_ptr(l).addr();
                    model[i].len = LAYER_KEYLENX;
                    "making a layer"
                }
                9 => {
                    match (LayerCapableLeaf::try_clone_output(&*leaf, i), model[i].what) {
                        (Some(o), M::Value(w)) if bad(S::id(&o), "try_clone_output") == w => hands.out.push((o, w)),
                        (None, M::Empty | M::Layer(_)) => {}
                        (o, w) => violation("slot-wrong", &format!("try_clone_output of a slot holding {w:?} gives {:?}", o.map(|o| S::id(&o)))),
                    }
                    "try_clone_output"
                }
                _ => hands.shuffle(rng),
            };
            let mut held: HashMap<u64, usize> = HashMap::new();
            for (i, m) in model.iter().enumerate() {
                let lay = m.len >= LAYER_KEYLENX;
                if leaf.leaf_value_ptr(i).addr() != m.word
                    || leaf.load_slot_value(i).addr() != m.word
                    || leaf.is_slot_empty(i) != (m.word == 0)
                    || leaf.keylenx(i) != m.len
                    || leaf.ikey(i) != m.ikey
                    || leaf.is_layer(i) != lay
                    || LeafNode24::<S>::keylenx_is_layer(m.len) != lay
                    || leaf.has_ksuf(i) != m.suffix.is_some()
                    || LeafNode24::<S>::keylenx_has_ksuf(m.len) != m.suffix.is_some()
                    || leaf.ksuf(i) != m.suffix.as_deref()
                {
                    violation("slot-wrong", &format!("after {op}, slot {i} should be {m:?} but has word {:?}, slice {:#x}, length {}, suffix {:?}", leaf.leaf_value_ptr(i), leaf.ikey(i), leaf.keylenx(i), leaf.ksuf(i)));
                }
                if let M::Value(id) = m.what {
                    *held.entry(id).or_default() += 1;
                }
            }
            hands.audit(&held, op);
            report::count("leaf_operations", 1);
        }
        drop(leaf);
    }
    drop(collector);
    hands.audit(&HashMap::new(), "dropping the leaf");
    hands.end();
    h.finish()
}

type Leaf = LeafNode24<LeafValue<Val>>;
type Inode = InternodeNode<LeafValue<Val>, 15>;
type Alloc = SeizeAllocator24<LeafValue<Val>>;

/// A leaf with some values; their ids.
fn filled(rng: &mut Rng) -> (Box<Leaf>, Vec<u64>) {
    let leaf: Box<Leaf> = LeafNode24::new();
    let ids: Vec<u64> = (0..rng.below(5)).map(|_| val::fresh()).collect();
    for (i, id) in ids.iter().enumerate() {
        let o = <LeafValue<Val> as ValueSlot>::into_output(Val::new(*id));
        leaf.set_ikey(i, *id);
        leaf.set_keylenx(i, 8);
        leaf.set_leaf_value_ptr(i, <LeafValue<Val> as ValueSlot>::output_consume_to_raw(o));
    }
    (leaf, ids)
}
/// Read a leaf that must be alive.
fn inspect(p: *mut Leaf, ids: &[u64], when: &str) {
    for (i, id) in ids.iter().enumerate() {
        // SAFETY: what is being checked; freed blocks stay mapped and hold a pattern
        unsafe {
            let (k, v) = ((*p).ikey(i), (*p).leaf_value_ptr(i));
            if k != *id || !val::is_live(*id) {
                violation("early-free", &format!("{when}: a leaf that is still protected was freed (slice {k:#x}, expected {id:#x}; value {})", if val::is_live(*id) { "alive" } else { "dropped" }));
            }
            match (*v.cast::<Val>()).live() {
                Ok(x) if x == *id => {}
                r => violation("early-free", &format!("{when}: value {id} of a protected leaf reads {r:?}")),
            }
        }
    }
}

fn allocator(rng: &mut Rng) -> u64 {
    let mut h = DefaultHasher::new();
    let before = alloc::live().0;
    let mut everyone: Vec<u64> = vec![];
    {
        let collector = Collector::new().batch_size(*rng.pick(&[1usize, 2, 8, 32]));
        let alloc: Alloc = if rng.chance(1, 2) { SeizeAllocator24::new() } else { SeizeAllocator24::default() };
        let mut guards = vec![];
        let mut leaves: Vec<(*mut Leaf, Vec<u64>)> = vec![];
        let mut inodes: Vec<(*mut Inode, u64)> = vec![];
        let mut gone: Vec<(*mut Leaf, Vec<u64>)> = vec![]; // retired while a guard that is still open was open
        let mut gone_i: Vec<(*mut Inode, u64)> = vec![];
        for _ in 0..rng.range(5, 80) {
            let k = rng.below(12);
            k.hash(&mut h);
            match k {
                0..3 => {
                    let (leaf, ids) = filled(rng);
                    everyone.extend(&ids);
                    let p = match rng.below(4) {
                        0 => NodeAllocator24::alloc_leaf24(&alloc, leaf),
                        1 => NodeAllocatorGeneric::alloc_leaf(&alloc, leaf),
                        2 => {
                            let p = Box::into_raw(leaf);
                            NodeAllocator24::track_leaf24(&alloc, p);
                            p
                        }
                        _ => {
                            let p = Box::into_raw(leaf);
                            NodeAllocatorGeneric::track_leaf(&alloc, p);
                            p
                        }
                    };
                    leaves.push((p, ids));
                }
                3 | 4 => {
                    let mark = rng.next();
                    let n = Inode::new(rng.below(4) as u32);
                    n.set_ikey(0, mark);
                    n.set_nkeys(1);
                    let p = match rng.below(4) {
                        0 => NodeAllocator24::alloc_internode24(&alloc, n),
                        1 => NodeAllocatorGeneric::<LeafValue<Val>, Leaf>::alloc_internode_erased(&alloc, Box::into_raw(n).cast()).cast(),
                        2 => {
                            let p = Box::into_raw(n);
                            NodeAllocator24::track_internode24(&alloc, p);
                            p
                        }
                        _ => {
                            let p = Box::into_raw(n);
                            NodeAllocatorGeneric::<LeafValue<Val>, Leaf>::track_internode_erased(&alloc, p.cast());
                            p
                        }
                    };
                    inodes.push((p, mark));
                }
                5 | 6 => guards.push(collector.enter()),
                7 if !guards.is_empty() => {
                    guards.swap_remove(rng.below(guards.len()));
                    if guards.is_empty() {
                        gone.clear();
                        gone_i.clear();
                    }
                }
                8 | 9 if !leaves.is_empty() => {
                    let (p, ids) = leaves.swap_remove(rng.below(leaves.len()));
                    let own = collector.enter();
                    let g = if guards.is_empty() || rng.chance(1, 2) { &own } else { &guards[rng.below(guards.len())] };
                    // SAFETY: the leaf is allocated, unreachable but for this list, and retired once
                    unsafe {
                        if rng.chance(1, 2) {
                            NodeAllocator24::retire_leaf24(&alloc, p, g);
                        } else {
                            NodeAllocatorGeneric::retire_leaf(&alloc, p, g);
                        }
                    }
                    inspect(p, &ids, "right after retiring");
                    if !guards.is_empty() {
                        gone.push((p, ids));
                    }
                    drop(own);
                    report::count("retired", 1);
                }
                10 if !inodes.is_empty() => {
                    let (p, m) = inodes.swap_remove(rng.below(inodes.len()));
                    let own = collector.enter();
                    // SAFETY: as above
                    unsafe {
                        if rng.chance(1, 2) {
                            NodeAllocator24::retire_internode24(&alloc, p, &own);
                        } else {
                            NodeAllocatorGeneric::<LeafValue<Val>, Leaf>::retire_internode_erased(&alloc, p.cast(), &own);
                        }
                    }
                    if !guards.is_empty() {
                        gone_i.push((p, m));
                    }
                    drop(own);
                    report::count("retired", 1);
                }
                11 => {
                    collector.enter().flush();
                }
                _ => {}
            }
            if (alloc.leaf_count(), alloc.internode_count()) != (leaves.len(), inodes.len()) {
                violation("tracking", &format!("the allocator tracks {} leaves and {} internodes, expected {} and {}", alloc.leaf_count(), alloc.internode_count(), leaves.len(), inodes.len()));
            }
            for (p, ids) in &leaves {
                inspect(*p, ids, "a leaf that was never retired");
            }
            for (p, ids) in &gone {
                inspect(*p, ids, "a retired leaf under a guard older than its retirement");
            }
            for (p, m) in inodes.iter().chain(&gone_i) {
                // SAFETY: what is being checked; freed blocks stay mapped
                if unsafe { (**p).ikey(0) } != *m {
                    violation("early-free", "an internode that is tracked, or retired under a guard still held, was freed");
                }
            }
            report::count("allocator_operations", 1);
        }
        if rng.chance(1, 2) {
            NodeAllocatorGeneric::teardown_tree(&alloc, std::ptr::null_mut());
            if (alloc.leaf_count(), alloc.internode_count()) != (0, 0) {
                violation("tracking", "nodes are still tracked after teardown");
            }
            for (_, ids) in &leaves {
                if let Some(id) = ids.iter().find(|i| val::is_live(**i)) {
                    violation("node-leak", &format!("value {id} of a tracked leaf outlives the teardown"));
                }
            }
            for (p, ids) in &gone {
                inspect(*p, ids, "a retired leaf under a guard, after teardown");
            }
        } else {
            drop(alloc);
            for (_, ids) in &leaves {
                if let Some(id) = ids.iter().find(|i| val::is_live(**i)) {
                    violation("node-leak", &format!("value {id} of a tracked leaf outlives the allocator"));
                }
            }
        }
        drop(guards);
        drop(collector);
    }
    over(&everyone);
    drop(everyone);
    let after = alloc::live().0;
    if after > before + 512 {
        violation("node-leak", &format!("{} bytes remain after allocator, collector and guards are gone", after - before));
    }
    h.finish()
}

/// Value types of every size and alignment, and values that own something themselves.
trait Shape: Send + Sync + 'static {
    fn of(n: u64) -> Self;
    fn is(&self, n: u64) -> bool;
}
#[derive(Clone, Copy)]
#[repr(align(128))]
struct Line(u8);
#[derive(Clone, Copy)]
#[repr(align(64))]
struct Nothing;
#[derive(Clone, Copy)]
struct Wide([u64; 70]);
impl Shape for () {
    fn of(_: u64) {}
    fn is(&self, _: u64) -> bool {
        true
    }
}
impl Shape for Nothing {
    fn of(_: u64) -> Self {
        Self
    }
    fn is(&self, _: u64) -> bool {
        std::ptr::from_ref(self).addr() % 64 == 0
    }
}
impl Shape for u8 {
    fn of(n: u64) -> Self {
        n as Self
    }
    fn is(&self, n: u64) -> bool {
        *self == n as Self
    }
}
impl Shape for Line {
    fn of(n: u64) -> Self {
        Self(n as u8)
    }
    fn is(&self, n: u64) -> bool {
        self.0 == n as u8 && std::ptr::from_ref(self).addr() % 128 == 0
    }
}
impl Shape for Wide {
    fn of(n: u64) -> Self {
        Self(std::array::from_fn(|i| n.wrapping_mul(i as u64 + 1)))
    }
    fn is(&self, n: u64) -> bool {
        self.0.iter().enumerate().all(|(i, x)| *x == n.wrapping_mul(i as u64 + 1))
    }
}
impl Shape for Option<&'static str> {
    fn of(n: u64) -> Self {
        ["", "one", "another"].get(n as usize % 4).copied()
    }
    fn is(&self, n: u64) -> bool {
        *self == Self::of(n)
    }
}
impl Shape for u128 {
    fn of(n: u64) -> Self {
        Self::from(n) << 61
    }
    fn is(&self, n: u64) -> bool {
        *self == Self::of(n)
    }
}
impl Shape for Vec<String> {
    fn of(n: u64) -> Self {
        (0..n % 4).map(|i| format!("{n}/{i}")).collect()
    }
    fn is(&self, n: u64) -> bool {
        *self == Self::of(n)
    }
}

/// A tree of one value type against a map: every read gives the value last written, and nothing is left once all is gone.
fn shape_tree<S, V>(rng: &mut Rng) -> u64
where
    V: Shape,
    S: ValueSlot<Value = V, Output: std::borrow::Borrow<V> + Send + Sync> + Send + Sync + 'static,
    LeafNode24<S>: LayerCapableLeaf<S>,
    SeizeAllocator24<S>: NodeAllocatorGeneric<S, LeafNode24<S>>,
{
    use std::borrow::Borrow;
    let name = std::any::type_name::<S>();
    let before = alloc::live().1;
    let mut h = DefaultHasher::new();
    let mut kept: Vec<(S::Output, u64)> = Vec::new();
    let mut model: HashMap<Vec<u8>, u64> = HashMap::new();
    let (ops, keys) = (1 + rng.below(400), 1 + rng.below(200) as u64);
    {
        let tree = MassTreeGeneric::<S, LeafNode24<S>, SeizeAllocator24<S>>::with_allocator(SeizeAllocator24::new());
        let check = |got: Option<&V>, want: Option<&u64>, what: &str| match (got, want) {
            (None, None) => {}
            (Some(v), Some(n)) if v.is(*n) => {}
            (g, w) => violation("value-wrong", &format!("{name}: {what} gives {} instead of {w:?}", if g.is_some() { "another value" } else { "nothing" })),
        };
        let mut guard = tree.guard();
        for _ in 0..ops {
            let k = rng.below(keys as usize) as u64;
            let mut key = Vec::new();
            key.extend((k / 40).to_be_bytes().into_iter().take(8 * (k as usize % 2)));
            key.extend(format!("{k:03}").into_bytes());
            key.extend(std::iter::repeat_n(b'x', (k as usize % 5) * 4));
            k.hash(&mut h);
            match rng.below(8) {
                0..=3 => {
                    let n = rng.next();
                    let old = if rng.chance(1, 2) { tree.insert(&key, V::of(n)) } else { tree.insert_with_guard(&key, V::of(n), &guard) };
                    let old = old.unwrap_or_else(|e| violation("value-wrong", &format!("{name}: insert failed: {e}")));
                    let was = model.insert(key, n);
                    check(old.as_ref().map(Borrow::borrow), was.as_ref(), "the value replaced");
                    if let (Some(o), Some(n)) = (old, was) {
                        if rng.chance(1, 4) {
                            kept.push((o, n));
                        }
                    }
                }
                4 => check(tree.get_ref(&key, &guard), model.get(&key), "get_ref"),
                5 => {
                    let got = tree.get_with_guard(&key, &guard);
                    check(got.as_ref().map(Borrow::borrow), model.get(&key), "get_with_guard");
                    if let (Some(o), Some(n)) = (got, model.get(&key)) {
                        kept.push((o, *n));
                    }
                }
                6 => check(tree.get(&key).as_ref().map(Borrow::borrow), model.get(&key), "get"),
                _ if rng.chance(1, 4) => {
                    drop(guard);
                    guard = tree.guard();
                }
                _ => {}
            }
        }
        for (k, n) in &model {
            check(tree.get_ref(k, &guard), Some(n), "get_ref at the end");
        }
        if tree.len() != model.len() {
            violation("value-wrong", &format!("{name}: len {} with {} keys", tree.len(), model.len()));
        }
    }
    // outputs outlive the tree
    for (o, n) in &kept {
        if !o.borrow().is(*n) {
            violation("value-wrong", &format!("{name}: an output changed after the tree was dropped"));
        }
    }
    report::count("shape_keys", model.len() as u64);
    drop((kept, model));
    let after = alloc::live().1;
    // a thread keeps a few blocks of its own
    if after > before + 24 {
        violation("node-leak", &format!("{name}: {} blocks left after the tree and all outputs were dropped ({ops} operations)", after - before));
    }
    h.finish()
}

fn shapes(rng: &mut Rng) -> u64 {
    type A<V> = LeafValue<V>;
    type I<V> = LeafValueIndex<V>;
    match rng.below(14) {
        0 => shape_tree::<A<()>, _>(rng),
        1 => shape_tree::<I<()>, _>(rng),
        2 => shape_tree::<A<Nothing>, _>(rng),
        3 => shape_tree::<I<Nothing>, _>(rng),
        4 => shape_tree::<A<u8>, _>(rng),
        5 => shape_tree::<I<u8>, _>(rng),
        6 => shape_tree::<A<Line>, _>(rng),
        7 => shape_tree::<I<Line>, _>(rng),
        8 => shape_tree::<A<Wide>, _>(rng),
        9 => shape_tree::<I<Wide>, _>(rng),
        10 => shape_tree::<A<u128>, _>(rng),
        11 => shape_tree::<I<Option<&'static str>>, _>(rng),
        12 => shape_tree::<A<Option<&'static str>>, _>(rng),
        _ => shape_tree::<A<Vec<String>>, _>(rng),
    }
}

/// Every value was dropped exactly once.
fn over(ids: &[u64]) {
    if val::BAD_DROP.load(Ordering::SeqCst) != 0 {
        violation("ownership", &format!("value {} was dropped twice or damaged", val::BAD_DROP.load(Ordering::SeqCst)));
    }
    for id in ids {
        if val::drops(*id) != 1 {
            violation("node-leak", &format!("value {id} was dropped {} times by the end", val::drops(*id)));
        }
    }
}

fn run_seq(rng: &mut Rng, iter: u64) {
    val::reset();
    let part = rng.below(6);
    let h = match part {
        0 => value_slots::<LeafValue<Val>>(rng),
        1 => value_slots::<LeafValueIndex<Cv>>(rng),
        2 => leaf_slots::<LeafValue<Val>>(rng),
        3 => leaf_slots::<LeafValueIndex<Cv>>(rng),
        4 => allocator(rng),
        _ => shapes(rng),
    };
    let mut d = DefaultHasher::new();
    (part, h).hash(&mut d);
    report::distinct("programs", d.finish());
    if iter % 20_000 == 7 {
        let part = ["slots", "slots by value", "leaf slots", "leaf slots by value", "allocator", "value types"][part];
        report::sample(json!({"iter": iter, "part": part}));
    }
}

/// Threads replace, retire and read leaves of one allocator.
fn turnover(rng: &mut Rng, iter: u64) {
    let collector = Collector::new().batch_size(*rng.pick(&[1usize, 2, 8]));
    let alloc: Alloc = SeizeAllocator24::new();
    let cells: Vec<AtomicPtr<Leaf>> = (0..rng.range(1, 4)).map(|_| AtomicPtr::new(std::ptr::null_mut())).collect();
    let known: Mutex<HashMap<usize, Vec<u64>>> = Mutex::new(HashMap::new());
    for c in &cells {
        let (leaf, ids) = filled(rng);
        let p = NodeAllocator24::alloc_leaf24(&alloc, leaf);
        known.lock().unwrap().insert(p.addr(), ids);
        c.store(p, Ordering::Release);
    }
    let n = rng.range(2, 5);
    let mut plan = vec![];
    let mut jobs: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
    for t in 0..n {
        let ops = rng.range(1, 6);
        let s = rng.next();
        plan.push(ops);
        let (alloc, cells, known, collector) = (&alloc, &cells, &known, &collector);
        jobs.push(Box::new(move || {
            let r = report::catch(|| {
                let mut rng = Rng::derive(s, 12, t as u64);
                for _ in 0..ops {
                    let g = collector.enter();
                    sched::point();
                    let c = &cells[rng.below(cells.len())];
                    if rng.chance(1, 2) {
                        let (leaf, ids) = filled(&mut rng);
                        let p = NodeAllocator24::alloc_leaf24(alloc, leaf);
                        known.lock().unwrap().insert(p.addr(), ids);
                        let old = g.swap(c, p, Ordering::AcqRel);
                        sched::point();
                        // SAFETY: unreachable now, and only the thread that swapped it out retires it
                        unsafe { NodeAllocator24::retire_leaf24(alloc, old, &g) };
                        report::count("retired", 1);
                    } else {
                        let p = g.protect(c, Ordering::Acquire);
                        let ids = known.lock().unwrap()[&p.addr()].clone();
                        for _ in 0..rng.range(1, 4) {
                            sched::point();
                            inspect(p, &ids, "a leaf reached under a guard");
                            report::count("protected_reads", 1);
                        }
                    }
                }
            });
            if let Err(m) = r {
                violation("panic", &format!("thread {t}: {m}"));
            }
        }));
    }
    let strat = comp::strategy(rng, n, 40);
    let desc = strat.describe();
    report::scenario(format!("turnover of {} leaves, operations per thread {plan:?}, schedule {desc}", cells.len()));
    let info = sched::run(strat, rng.next(), 200_000, jobs);
    if alloc.leaf_count() != cells.len() {
        violation("tracking", &format!("{} leaves are tracked, expected {}", alloc.leaf_count(), cells.len()));
    }
    for c in &cells {
        let p = c.load(Ordering::Acquire);
        inspect(p, &known.lock().unwrap()[&p.addr()], "at the end");
    }
    drop(alloc);
    drop(collector);
    over(&(1..val::last_id()).collect::<Vec<_>>());
    note("turnover", &plan, info.hash, iter, &desc);
}

fn note(what: &str, plan: &[usize], hash: u64, iter: u64, desc: &str) {
    let mut h = DefaultHasher::new();
    (what, plan, hash).hash(&mut h);
    report::distinct("programs", h.finish());
    if iter % 5000 < 2 {
        report::sample(json!({"iter": iter, "part": what, "operations": plan, "schedule": desc}));
    }
}

/// Threads claim and release slots of one leaf.
fn claims(rng: &mut Rng, iter: u64) {
    let leaf: Box<Leaf> = LeafNode24::new();
    let width = rng.range(1, 4);
    // successful changes of each slot: from, to
    let moves: Vec<Mutex<Vec<(usize, usize)>>> = (0..width).map(|_| Mutex::new(vec![])).collect();
    let made: Mutex<Vec<usize>> = Mutex::new(vec![]);
    let n = rng.range(2, 5);
    let mut plan = vec![];
    let mut jobs: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
    for t in 0..n {
        let ops = rng.range(1, 7);
        let s = rng.next();
        plan.push(ops);
        let (leaf, moves, made) = (&*leaf, &moves, &made);
        jobs.push(Box::new(move || {
            let r = report::catch(|| {
                let mut rng = Rng::derive(s, 13, t as u64);
                for _ in 0..ops {
                    let i = rng.below(moves.len());
                    if rng.chance(3, 4) {
                        let p = <LeafValue<Val> as ValueSlot>::output_consume_to_raw(Arc::new(Val::new(val::fresh())));
                        made.lock().unwrap().push(p.addr());
                        let exp = if rng.chance(1, 2) { std::ptr::null_mut() } else { leaf.load_slot_value(i) };
                        match leaf.cas_slot_value(i, exp, p) {
                            Ok(()) => {
                                moves[i].lock().unwrap().push((exp.addr(), p.addr()));
                                report::count("claims", 1);
                            }
                            Err(e) => {
                                if e == exp {
                                    violation("slot-wrong", &format!("thread {t}: a claim of slot {i} failed although it holds what was expected"));
                                }
                                report::count("claims_refused", 1);
                            }
                        }
                    } else {
                        let p = leaf.take_leaf_value_ptr(i);
                        if !p.is_null() {
                            moves[i].lock().unwrap().push((p.addr(), 0));
                        }
                    }
                }
            });
            if let Err(m) = r {
                violation("panic", &format!("thread {t}: {m}"));
            }
        }));
    }
    let strat = comp::strategy(rng, n, 30);
    let desc = strat.describe();
    report::scenario(format!("claims of {width} slots, operations per thread {plan:?}, schedule {desc}"));
    let info = sched::run(strat, rng.next(), 200_000, jobs);
    let mut inside = std::collections::HashSet::new();
    for (i, m) in moves.iter().enumerate() {
        let m = m.lock().unwrap();
        let end = leaf.leaf_value_ptr(i).addr();
        // every word enters and leaves a slot at most once; what entered and did not leave is there
        let mut there: HashMap<usize, i32> = HashMap::new();
        for (a, b) in m.iter() {
            *there.entry(*a).or_default() -= 1;
            *there.entry(*b).or_default() += 1;
        }
        *there.entry(0).or_default() += 1;
        for (w, c) in there {
            if c != i32::from(w == end) {
                violation("slot-wrong", &format!("slot {i}: word {w:#x} entered {c} times more than it left, and the slot holds {end:#x}; changes {m:x?}"));
            }
        }
        if end != 0 {
            inside.insert(end);
        }
    }
    for p in made.into_inner().unwrap() {
        if !inside.contains(&p) {
            // SAFETY: created above, owned by nobody else
            unsafe { <LeafValue<Val> as ValueSlot>::cleanup_value_ptr(std::ptr::with_exposed_provenance_mut(p)) };
        }
    }
    drop(leaf);
    over(&(1..val::last_id()).collect::<Vec<_>>());
    note("claims", &plan, info.hash, iter, &desc);
}

fn run_conc(rng: &mut Rng, iter: u64) {
    val::reset();
    if rng.chance(1, 2) { turnover(rng, iter) } else { claims(rng, iter) }
}

fn main() {
    let (engine, args): (String, Args) = Args::parse();
    report::init(&engine, &args);
    sched::install();
    match engine.as_str() {
        "seq" => comp::drive(&args, 61, run_seq),
        "conc" => comp::drive(&args, 62, run_conc),
        _ => {
            eprintln!("unknown engine {engine}");
            std::process::exit(2)
        }
    }
}
