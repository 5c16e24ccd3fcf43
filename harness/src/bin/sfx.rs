//! P14: suffix storage. `seq`: random operations on bags of several widths and on leaves against a map of byte
//! strings. `conc`: validated readers beside a writer that keeps replacing a leaf's suffixes.
use masstree::permuter::Permuter;
use masstree::{LeafNode24, LeafValue, Permuter24, SuffixBag};
use mtv::keys::hex;
use mtv::report::{self, Args, violation};
use mtv::rng::Rng;
use mtv::{comp, sched};
use serde_json::json;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::sync::Mutex;

#[global_allocator]
static A: mtv::alloc::Counting = mtv::alloc::Counting;

fn bytes(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(12) {
        0 => 0,
        1 => 1,
        2..5 => rng.below(9),
        5..9 => rng.below(40),
        9 | 10 => rng.below(260),
        _ => rng.below(3000),
    };
    let style = rng.below(3);
    (0..n).map(|i| match style {
        0 => rng.next() as u8,
        1 => b'a' + (i % 3) as u8,
        _ => if rng.chance(1, 10) { 1 } else { 0 },
    }).collect()
}

/// A string close to `b`: equal, shorter, longer, or with one byte changed.
fn near(b: &[u8], rng: &mut Rng) -> Vec<u8> {
    let mut v = b.to_vec();
    match rng.below(5) {
        0 => {
            v.pop();
        }
        1 if v.len() < 65_535 => v.push(rng.next() as u8 & 1),
        2 | 3 if !v.is_empty() => {
            let i = rng.below(v.len());
            let d = 1 + rng.below(255) as u8;
            v[i] = v[i].wrapping_add(d);
        }
        _ => {}
    }
    v
}

type Map = Vec<Option<Vec<u8>>>;

fn agree<const W: usize>(b: &SuffixBag<W>, m: &Map, op: &str, rng: &mut Rng) {
    for s in 0..W {
        let (g, w) = (b.get(s), m[s].as_deref());
        if g != w {
            violation("suffix-wrong", &format!("width {W}: after {op}, slot {s} holds {:?}, expected {:?}", g.map(hex), w.map(hex)));
        }
        if b.has_suffix(s) != w.is_some() || b.get_or_empty(s) != w.unwrap_or(&[]) {
            violation("suffix-wrong", &format!("width {W}: after {op}, has_suffix or get_or_empty of slot {s} disagrees with get"));
        }
    }
    if b.count() != m.iter().flatten().count() {
        violation("suffix-wrong", &format!("width {W}: after {op}, count() = {}, expected {}", b.count(), m.iter().flatten().count()));
    }
    for _ in 0..4 {
        let s = rng.below(W);
        let q = match (&m[s], rng.below(4)) {
            (Some(x), 0..3) => near(x, rng),
            _ => bytes(rng),
        };
        let (e, c) = (b.suffix_equals(s, &q), b.suffix_compare(s, &q));
        let w = m[s].as_ref().map(|x| x.as_slice().cmp(&q));
        if e != (m[s].as_deref() == Some(&q[..])) || c != w {
            violation("suffix-compare", &format!("width {W}: slot {s} holds {:?}; against {} suffix_equals gives {e}, suffix_compare {c:?}", m[s].as_deref().map(hex), hex(&q)));
        }
        report::count("comparisons", 1);
    }
}

fn run_bag<const W: usize>(rng: &mut Rng, iter: u64) {
    let mut b: SuffixBag<W> = if rng.chance(1, 3) { SuffixBag::with_capacity(rng.below(600)) } else { SuffixBag::new() };
    let mut m: Map = vec![None; W];
    let mut ops = vec![];
    agree(&b, &m, "construction", rng);
    for _ in 0..rng.range(5, 100) {
        let s = rng.below(W);
        let op;
        match rng.below(11) {
            0..3 => {
                let x = bytes(rng);
                op = format!("assign({s}, {} bytes)", x.len());
                b.assign(s, &x);
                m[s] = Some(x);
            }
            3..6 => {
                let x = match (&m[s], rng.below(2)) {
                    (Some(o), 0) => near(o, rng),
                    _ => bytes(rng),
                };
                op = format!("try_assign_in_place({s}, {} bytes)", x.len());
                let (u, c) = (b.used(), b.capacity());
                let fits = m[s].as_ref().is_some_and(|o| x.len() <= o.len()) || u + x.len() <= c;
                let r = b.try_assign_in_place(s, &x);
                if r != fits {
                    violation("suffix-wrong", &format!("width {W}: {op} with {u} of {c} bytes used returned {r}"));
                }
                if b.capacity() != c || (!r && b.used() != u) {
                    violation("in-place", &format!("width {W}: {op} changed the storage: used {u} to {}, capacity {c} to {}", b.used(), b.capacity()));
                }
                if r {
                    m[s] = Some(x);
                } else {
                    report::count("in_place_refusals", 1);
                }
            }
            6 => {
                op = format!("clear({s})");
                b.clear(s);
                m[s] = None;
            }
            7 => {
                // compaction over a chosen set, in a chosen order, possibly with strangers
                let mut keep: Vec<usize> = (0..W).filter(|_| rng.chance(2, 3)).collect();
                rng.shuffle(&mut keep);
                if rng.chance(1, 4) {
                    keep.push(W + rng.below(3));
                }
                op = format!("compact({keep:?})");
                let u = b.used();
                let r = b.compact(keep.iter().copied());
                for s in 0..W {
                    if !keep.contains(&s) {
                        m[s] = None;
                    }
                }
                compacted(&b, &m, u, r, &op);
            }
            8 => {
                let ex = rng.chance(1, 2).then(|| rng.below(W));
                let n = rng.below(W + 1);
                let mut slots: Vec<usize> = (0..W).collect();
                rng.shuffle(&mut slots);
                let u = b.used();
                let r = if W == 24 {
                    let mut p = Permuter24::make_sorted(n);
                    for (i, s) in slots.iter().enumerate() {
                        p.set(i, *s);
                    }
                    b.compact_with_permuter(&p, ex)
                } else if W == 15 {
                    let mut p = Permuter::<15>::make_sorted(n);
                    for (i, s) in slots.iter().enumerate() {
                        p.set(i, *s);
                    }
                    b.compact_with_permuter(&p, ex)
                } else {
                    let mut p = Permuter::<7>::make_sorted(n.min(7));
                    for (i, s) in slots.iter().filter(|s| **s < 7).enumerate() {
                        p.set(i, *s);
                    }
                    slots.retain(|s| *s < 7);
                    b.compact_with_permuter(&p, ex)
                };
                op = format!("compact_with_permuter({:?}, {ex:?})", &slots[..n.min(slots.len())]);
                for s in 0..W {
                    if !slots[..n.min(slots.len())].contains(&s) || ex == Some(s) {
                        m[s] = None;
                    }
                }
                compacted(&b, &m, u, r, &op);
            }
            9 => {
                op = "clone".to_string();
                let mut c = b.clone();
                agree(&c, &m, "clone", rng);
                if rng.chance(1, 2) {
                    // the two are independent
                    let x = bytes(rng);
                    c.assign(s, &x);
                    c.clear(rng.below(W));
                    let _ = c.try_assign_in_place(rng.below(W), &x);
                } else {
                    std::mem::swap(&mut b, &mut c);
                }
            }
            _ => {
                if !rng.chance(1, 20) {
                    continue;
                }
                // the longest possible, and one too long
                let x = vec![7u8; 65_535];
                let y = vec![7u8; 65_536 + rng.below(3)];
                op = format!("assign({s}, 65535 bytes)");
                for which in 0..2 {
                    let r = report::catch(|| {
                        if which == 0 {
                            b.assign(s, &y);
                        } else {
                            let _ = b.try_assign_in_place(s, &y);
                        }
                    });
                    if r.is_ok() {
                        violation("suffix-wrong", &format!("width {W}: a suffix of {} bytes was accepted", y.len()));
                    }
                    agree(&b, &m, "a rejected suffix", rng);
                }
                b.assign(s, &x);
                m[s] = Some(x);
            }
        }
        agree(&b, &m, &op, rng);
        ops.push(op);
    }
    report::count("operations", ops.len() as u64);
    let mut h = DefaultHasher::new();
    (W, &ops, &m).hash(&mut h);
    report::distinct("programs", h.finish());
    if iter % 2000 == 5 {
        report::sample(json!({"iter": iter, "width": W, "operations": ops.iter().take(20).collect::<Vec<_>>()}));
    }
}

fn compacted<const W: usize>(b: &SuffixBag<W>, m: &Map, used: usize, reclaimed: usize, op: &str) {
    let sum: usize = m.iter().flatten().map(Vec::len).sum();
    if b.used() != sum {
        violation("not-reclaimed", &format!("width {W}: after {op}, {} bytes are used for {sum} bytes of suffixes", b.used()));
    }
    if reclaimed != used.saturating_sub(sum) {
        violation("not-reclaimed", &format!("width {W}: {op} reports {reclaimed} bytes reclaimed, of {used} used and {sum} kept"));
    }
    report::count("compactions", 1);
}

type Leaf = LeafNode24<LeafValue<u64>>;

fn agree_leaf(l: &Leaf, m: &Map, ik: &[u64], kl: &[u8], op: &str, rng: &mut Rng) {
    for s in 0..24 {
        let (g, w) = (l.ksuf(s), m[s].as_deref());
        if g != w {
            violation("suffix-wrong", &format!("leaf: after {op}, slot {s} holds {:?}, expected {:?}", g.map(hex), w.map(hex)));
        }
        if l.has_ksuf(s) != w.is_some() || l.ksuf_or_empty(s) != w.unwrap_or(&[]) {
            violation("suffix-wrong", &format!("leaf: after {op}, has_ksuf or ksuf_or_empty of slot {s} disagrees with ksuf"));
        }
        if l.keylenx(s) != kl[s] {
            violation("suffix-wrong", &format!("leaf: after {op}, slot {s} has key length code {}, expected {}", l.keylenx(s), kl[s]));
        }
    }
    for _ in 0..4 {
        let s = rng.below(24);
        let q = match (&m[s], rng.below(4)) {
            (Some(x), 0..3) => near(x, rng),
            _ => bytes(rng),
        };
        let w = m[s].as_ref().map(|x| x.as_slice().cmp(&q));
        let eq = m[s].as_deref() == Some(&q[..]);
        let ikq = if rng.chance(3, 4) { ik[s] } else { ik[s] ^ (1 << rng.below(64)) };
        let mat = ikq == ik[s] && if q.is_empty() { m[s].is_none() } else { eq };
        if l.ksuf_equals(s, &q) != eq || l.ksuf_compare(s, &q) != w || l.ksuf_matches(s, ikq, &q) != mat {
            violation("suffix-compare", &format!("leaf: slot {s} holds {:?}; against {} ksuf_equals {}, ksuf_compare {:?}, ksuf_matches {}", m[s].as_deref().map(hex), hex(&q), l.ksuf_equals(s, &q), l.ksuf_compare(s, &q), l.ksuf_matches(s, ikq, &q)));
        }
        let code = if q.is_empty() { rng.below(9) as u8 } else { 64 };
        let want = match kl[s] {
            k if k >= 128 => -8,
            64 => i32::from(!q.is_empty() && eq),
            k => i32::from(q.is_empty() && k == code),
        };
        type T = dyn Fn(&Leaf, usize, u64, u8, &[u8]) -> (bool, Option<std::cmp::Ordering>, bool, i32, Vec<u8>, bool, bool);
        let through: &T = &|l, s, ik, code, q| {
            use masstree::TreeLeafNode as N;
            (
                <Leaf as N<LeafValue<u64>>>::ksuf_equals(l, s, q),
                <Leaf as N<LeafValue<u64>>>::ksuf_compare(l, s, q),
                <Leaf as N<LeafValue<u64>>>::ksuf_matches(l, s, ik, q),
                <Leaf as N<LeafValue<u64>>>::ksuf_match_result(l, s, code, q),
                <Leaf as N<LeafValue<u64>>>::ksuf_or_empty(l, s).to_vec(),
                <Leaf as N<LeafValue<u64>>>::has_ksuf(l, s),
                <Leaf as N<LeafValue<u64>>>::is_layer(l, s),
            )
        };
        let expected = (eq, w, mat, want, m[s].clone().unwrap_or_default(), m[s].is_some(), kl[s] >= 128);
        let got = through(l, s, ikq, code, &q);
        if got != expected {
            violation("suffix-compare", &format!("leaf: slot {s} through the generic interface against {}: (equals, compare, matches, match result, suffix, has suffix, is layer) = {got:?}, expected {expected:?}", hex(&q)));
        }
        if l.ksuf_match_result(s, code, &q) != want {
            violation("suffix-compare", &format!("leaf: slot {s} with length code {} and suffix {:?}: match result against code {code} and {} is {}, expected {want}", kl[s], m[s].as_deref().map(hex), hex(&q), l.ksuf_match_result(s, code, &q)));
        }
        report::count("comparisons", 1);
    }
}

fn run_leaf(rng: &mut Rng, iter: u64) {
    let col = seize::Collector::new();
    let l: Box<Leaf> = Leaf::new();
    let mut m: Map = vec![None; 24];
    let mut ik = vec![0u64; 24];
    let mut kl = vec![0u8; 24];
    let mut ops = vec![];
    for _ in 0..rng.range(5, 80) {
        let g = col.enter();
        let s = rng.below(24);
        let op;
        let mut lk = l.version().lock();
        lk.mark_insert();
        match rng.below(8) {
            0..4 => {
                let x = match (&m[s], rng.below(2)) {
                    (Some(o), 0) => near(o, rng),
                    _ => bytes(rng),
                };
                op = format!("assign_ksuf({s}, {} bytes)", x.len());
                unsafe { l.assign_ksuf(s, &x, &g) };
                m[s] = Some(x);
                kl[s] = 64;
            }
            4 => {
                op = format!("clear_ksuf({s})");
                unsafe { l.clear_ksuf(s, &g) };
                m[s] = None;
                kl[s] = 0;
            }
            5 => {
                let i = rng.next();
                op = format!("set_ikey({s})");
                l.set_ikey(s, i);
                ik[s] = i;
            }
            6 => {
                // an inline key or a layer marker takes the slot
                let k = if rng.chance(1, 4) { 128 } else { rng.below(9) as u8 };
                op = format!("clear_ksuf({s}), set_keylenx({s}, {k})");
                unsafe { l.clear_ksuf(s, &g) };
                l.set_keylenx(s, k);
                kl[s] = k;
                m[s] = None;
            }
            _ => {
                let n = rng.below(25);
                let mut slots: Vec<usize> = (0..24).collect();
                rng.shuffle(&mut slots);
                let mut p = Permuter24::make_sorted(n);
                for (i, s) in slots.iter().enumerate() {
                    p.set(i, *s);
                }
                l.set_permutation(p);
                let ex = rng.chance(1, 2).then(|| rng.below(24));
                op = format!("compact_ksuf({ex:?}) with slots {:?}", &slots[..n]);
                let had = l.has_ksuf_storage();
                let used = if had { unsafe { (*l.ksuf_ptr()).used() } } else { 0 };
                let r = unsafe { l.compact_ksuf(ex, &g) };
                for s in 0..24 {
                    if !slots[..n].contains(&s) || ex == Some(s) {
                        if m[s].take().is_some() {
                            // its code still announces a suffix: the slot is out of use
                            l.set_keylenx(s, 0);
                            kl[s] = 0;
                        }
                    }
                }
                if had {
                    compacted::<24>(unsafe { &*l.ksuf_ptr() }, &m, used, r, &op);
                }
            }
        }
        drop(lk);
        agree_leaf(&l, &m, &ik, &kl, &op, rng);
        ops.push(op);
    }
    report::count("operations", ops.len() as u64);
    let mut h = DefaultHasher::new();
    (&ops, &m).hash(&mut h);
    report::distinct("programs", h.finish());
    if iter % 2000 < 40 {
        report::sample(json!({"iter": iter, "leaf operations": ops.iter().take(20).collect::<Vec<_>>()}));
    }
    // only slots holding layers would own something else
    drop(l);
}

fn run_seq(rng: &mut Rng, iter: u64) {
    match rng.below(8) {
        0 => run_bag::<1>(rng, iter),
        1 => run_bag::<7>(rng, iter),
        2 => run_bag::<15>(rng, iter),
        3..5 => run_bag::<24>(rng, iter),
        _ => run_leaf(rng, iter),
    }
}

/// Suffix number `v` of slot `s`: every byte follows from (s, v), so that mixtures show.
fn stamp(s: usize, v: u64) -> Vec<u8> {
    let n = 2 + ((s as u64 * 7 + v * 13) % 60) as usize;
    let mut b = vec![s as u8, v as u8];
    b.extend((2..n).map(|i| (s as u8).wrapping_mul(31).wrapping_add((v as u8).wrapping_mul(17)).wrapping_add(i as u8)));
    b
}

fn run_conc(rng: &mut Rng, iter: u64) {
    let col = seize::Collector::new();
    let l: Box<Leaf> = Leaf::new();
    let slots = rng.range(1, 5);
    // state of each slot over time: (time the change may appear, time it has appeared, version or 0 for none)
    let hist: Mutex<Vec<Vec<(u64, u64, u64)>>> = Mutex::new(vec![vec![]; slots]);
    {
        let g = col.enter();
        let _lk = l.version().lock();
        for s in 0..slots {
            let mut h = hist.lock().unwrap();
            if rng.chance(2, 3) {
                unsafe { l.assign_ksuf(s, &stamp(s, 1), &g) };
                h[s].push((0, 0, 1));
            } else {
                h[s].push((0, 0, 0));
            }
        }
    }
    let n = rng.range(2, 4);
    let reads: Mutex<Vec<(usize, u64, u64, u64)>> = Mutex::new(vec![]);
    let mut jobs: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
    let mut plan = vec![];
    for t in 0..n {
        let ops = rng.range(1, 8);
        let seed = rng.next();
        plan.push(ops);
        let (l, col, hist, reads) = (&*l, &col, &hist, &reads);
        jobs.push(Box::new(move || {
            let r = report::catch(|| {
                let mut rng = Rng::derive(seed, 12, t as u64);
                let mut ver = 1u64;
                for _ in 0..ops {
                    mtv::weak::enter();
                    let g = col.enter();
                    let s = rng.below(slots);
                    if t == 0 {
                        ver += 1;
                        let call = sched::now();
                        let mut lk = l.version().lock();
                        lk.mark_insert();
                        let v = match rng.below(6) {
                            0 => {
                                unsafe { l.clear_ksuf(s, &g) };
                                0
                            }
                            1 => {
                                let mut p = Permuter24::make_sorted(slots);
                                p.set_size(slots);
                                l.set_permutation(p);
                                unsafe { l.compact_ksuf(None, &g) };
                                u64::MAX
                            }
                            _ => {
                                unsafe { l.assign_ksuf(s, &stamp(s, ver), &g) };
                                ver
                            }
                        };
                        drop(lk);
                        let ret = sched::now();
                        if v != u64::MAX {
                            hist.lock().unwrap()[s].push((call, ret, v));
                        }
                    } else {
                        let call = sched::now();
                        let v = l.version().stable();
                        let has = l.has_ksuf(s);
                        let got = l.ksuf(s);
                        if let Some(x) = got {
                            // the bytes are read plainly: their writing must happen before
                            mtv::weak::touch(x.as_ptr() as usize);
                        }
                        let eq = got.is_some_and(|x| l.ksuf_equals(s, x));
                        let seen = got.map(|x| x.to_vec());
                        if let Some(x) = &seen {
                            // even an unvalidated reader sees one whole suffix of that slot
                            if x.len() < 2 || x[0] != s as u8 || *x != stamp(s, u64::from(x[1])) {
                                violation("suffix-torn", &format!("thread {t}: slot {s} shows {}, which was never stored", hex(x)));
                            }
                        }
                        if !l.version().has_changed_or_locked(v) {
                            if has != seen.is_some() || eq != has {
                                violation("suffix-wrong", &format!("thread {t}: a validated read of slot {s} is inconsistent"));
                            }
                            let ret = sched::now();
                            reads.lock().unwrap().push((s, call, ret, seen.map_or(0, |x| u64::from(x[1]))));
                        } else {
                            report::count("reads_told_of_change", 1);
                        }
                    }
                }
            });
            if let Err(m) = r {
                violation("panic", &format!("thread {t}: a suffix operation panicked: {m}"));
            }
        }));
    }
    let strat = comp::strategy(rng, n, 80);
    let desc = strat.describe();
    report::scenario(format!("{slots} slots, operations per thread {plan:?} (first writes), schedule {desc}"));
    let info = sched::run(strat, rng.next(), 200_000, jobs);
    let hist = hist.into_inner().unwrap();
    for (s, call, ret, v) in reads.into_inner().unwrap() {
        let h = &hist[s];
        let ok = h.iter().enumerate().any(|(i, e)| {
            // its state began before the read ended, and the next one was complete only after the read began
            e.2 == v && e.0 <= ret && h.get(i + 1).is_none_or(|n| n.1 >= call)
        });
        if !ok {
            violation("suffix-wrong", &format!("a validated read of slot {s} in [{call},{ret}] gave version {v}; states {h:?}"));
        }
        report::count("validated_reads", 1);
    }
    let mut h = DefaultHasher::new();
    (slots, &plan, info.hash).hash(&mut h);
    report::distinct("programs", h.finish());
    if iter % 3000 == 7 {
        report::sample(json!({"iter": iter, "slots": slots, "operations per thread": format!("{plan:?}"), "schedule": desc}));
    }
}

fn main() {
    let (engine, args): (String, Args) = Args::parse();
    report::init(&engine, &args);
    sched::install();
    match engine.as_str() {
        "seq" => comp::drive(&args, 51, run_seq),
        "conc" => comp::drive(&args, 52, run_conc),
        _ => {
            eprintln!("unknown engine {engine}");
            std::process::exit(2)
        }
    }
}
