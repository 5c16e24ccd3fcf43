//! Several trees at once: independence, and guards given to the wrong tree (P19).
use crate::keys::{FAMILIES, ORDERS, family, hex};
use crate::report::{self, Args, violation};
use crate::rng::Rng;
use crate::store::Store;
use crate::val::{self, Cv, Val};
use crate::watch::tick;
use masstree::{MassTree, MassTree24Inline};
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

struct T<S: Store> {
    tree: S,
    model: BTreeMap<Vec<u8>, u64>,
    name: u64,
}

fn put<S: Store>(t: &mut T<S>, k: &[u8]) {
    let id = val::fresh();
    let r = report::catch(|| t.tree.insert(k, id));
    let prev = match r {
        Ok(Ok(p)) => p.map(|o| S::id(&o)),
        Ok(Err(e)) => violation("insert-error", &format!("tree {}: insert of {} failed: {e}", t.name, hex(k))),
        Err(m) => violation("panic", &format!("tree {}: insert of {} panicked: {m}", t.name, hex(k))),
    };
    let want = t.model.insert(k.to_vec(), id);
    if prev != want {
        violation("cross-tree", &format!("tree {}: insert of {} displaced {prev:?}, expected {want:?}", t.name, hex(k)));
    }
}

fn verify<S: Store>(t: &T<S>, why: &str) {
    if t.tree.len() != t.model.len() || t.tree.is_empty() != t.model.is_empty() {
        violation("cross-tree", &format!("tree {} ({why}): len() = {}, is_empty() = {}, expected {} keys", t.name, t.tree.len(), t.tree.is_empty(), t.model.len()));
    }
    let g = t.tree.guard();
    for (k, id) in &t.model {
        let got = t.tree.get_ref(k, &g).map(|r| S::rid(r));
        if got != Some(*id) {
            violation("cross-tree", &format!("tree {} ({why}): {} reads {got:?}, stored {id}", t.name, hex(k)));
        }
    }
    report::count("entries_verified", t.model.len() as u64);
}

/// `t` is given `foreign`, a guard of another tree.
fn foreign<S: Store>(t: &T<S>, foreign: &seize::LocalGuard<'_>, k: &[u8], rng: &mut Rng) {
    let before = t.tree.len();
    let known = t.model.get(k).copied();
    let form = rng.below(3);
    let accepted = match form {
        0 => report::catch(|| drop(t.tree.get_g(k, foreign))).is_ok(),
        1 => report::catch(|| {
            let _ = t.tree.get_ref(k, foreign).map(|r| S::rid(r));
        })
        .is_ok(),
        _ => {
            let id = val::fresh();
            report::catch(|| drop(t.tree.insert_g(k, id, foreign))).is_ok()
        }
    };
    let what = ["get_with_guard", "get_ref", "insert_with_guard"][form];
    if accepted {
        violation("foreign-guard", &format!("tree {}: {what} of {} with a guard of another tree was carried out", t.name, hex(k)));
    }
    let now = t.tree.get(k).map(|o| S::id(&o));
    if t.tree.len() != before || now != known {
        violation("foreign-guard", &format!("tree {}: a refused {what} of {} left len {} (was {before}), value {now:?} (was {known:?})", t.name, hex(k), t.tree.len()));
    }
    report::count("foreign_guards_refused", 1);
}

fn one_thread<S: Store>(rng: &mut Rng, iter: u64) {
    val::reset();
    let f = *rng.pick(FAMILIES);
    let kn = rng.range(10, 80);
    let o = *rng.pick(ORDERS);
    let keys = family(f, kn, o, rng);
    let mut trees: Vec<T<S>> = vec![];
    let other: MassTree24Inline<u64> = MassTree24Inline::new();
    let mut made = 0;
    let mut kept: Vec<(u64, S::Out)> = vec![];
    report::scenario(format!("{} {f}/{o:?} {} keys, one thread", S::NAME, keys.len()));
    for _ in 0..rng.range(5, 25) {
        // create, move and drop trees
        for _ in 0..rng.below(3) + usize::from(trees.len() < 2) * 2 {
            made += 1;
            let mut t = T { tree: S::new(), model: BTreeMap::new(), name: made };
            for _ in 0..rng.below(30) {
                let k = rng.below(keys.len());
                put(&mut t, &keys[k]);
            }
            let at = rng.below(trees.len() + 1);
            trees.insert(at, t);
        }
        if trees.len() > 3 {
            let gone = trees.swap_remove(rng.below(trees.len()));
            let ids: Vec<u64> = gone.model.values().copied().collect();
            for k in gone.model.keys().take(2) {
                if let Some(o) = gone.tree.get(k) {
                    kept.push((S::id(&o), o));
                }
            }
            drop(gone);
            if S::DROPS {
                for id in ids {
                    let held = kept.iter().any(|(i, _)| *i == id);
                    if val::is_live(id) != held {
                        violation("cross-tree", &format!("value {id} of a dropped tree: live = {}, handle kept = {held}", val::is_live(id)));
                    }
                }
            }
        }
        if rng.chance(1, 4) {
            // move everything
            let mut v = Vec::with_capacity(trees.len() * 3 + 1);
            v.append(&mut trees);
            trees = v;
        }
        for _ in 0..rng.below(60) {
            let n = trees.len();
            let k = rng.below(keys.len());
            put(&mut trees[rng.below(n)], &keys[k]);
        }
        // guards of several trees held together; references from each; wrong guards
        let mut news: Vec<(usize, Vec<u8>, u64)> = vec![];
        {
            let guards: Vec<_> = trees.iter().map(|t| t.tree.guard()).collect();
            let og = other.guard();
            // pointers, so that the guards can be released one by one; used only while the guard lives
            let mut refs: Vec<(usize, u64, *const S::Ref)> = vec![];
            for (i, t) in trees.iter().enumerate() {
                for _ in 0..rng.below(6) {
                    let k = &keys[rng.below(keys.len())];
                    let got = t.tree.get_ref(k, &guards[i]);
                    let id = got.map(|r| S::rid(r));
                    if id != t.model.get(k).copied() {
                        violation("cross-tree", &format!("tree {}: {} reads {id:?}, expected {:?}", t.name, hex(k), t.model.get(k)));
                    }
                    if let (Some(r), Some(id)) = (got, id) {
                        refs.push((i, id, std::ptr::from_ref(r)));
                    }
                }
            }
            for _ in 0..rng.below(12) {
                let i = rng.below(trees.len());
                let j = rng.below(trees.len());
                let k = &keys[rng.below(keys.len())];
                if i != j {
                    foreign(&trees[i], &guards[j], k, rng);
                } else {
                    foreign(&trees[i], &og, k, rng);
                }
            }
            // guards of different trees one after the other in the same place
            for _ in 0..rng.below(4) {
                let i = rng.below(trees.len());
                let k = &keys[rng.below(keys.len())];
                let mut h = trees[i].tree.guard();
                for _ in 0..rng.range(1, 4) {
                    let j = rng.below(trees.len());
                    for own in [i, j] {
                        h = trees[own].tree.guard();
                        let got = trees[own].tree.get_g(k, &h).map(|o| S::id(&o));
                        if got != trees[own].model.get(k).copied() {
                            violation("cross-tree", &format!("tree {}: {} reads {got:?}, expected {:?}", trees[own].name, hex(k), trees[own].model.get(k)));
                        }
                        if rng.chance(1, 2) {
                            h = trees[j].tree.guard();
                            break;
                        }
                    }
                    if i != j {
                        foreign(&trees[i], &h, k, rng);
                    }
                }
                h = trees[i].tree.guard();
                let got = trees[i].tree.get_ref(k, &h).map(|r| S::rid(r));
                if got != trees[i].model.get(k).copied() {
                    violation("cross-tree", &format!("tree {}: {} reads {got:?}, expected {:?}", trees[i].name, hex(k), trees[i].model.get(k)));
                }
            }
            // overwrite under the references, in the same and in other trees
            for _ in 0..rng.below(80) {
                let i = rng.below(trees.len());
                let k = &keys[rng.below(keys.len())];
                let id = val::fresh();
                match trees[i].tree.insert_g(k, id, &guards[i]) {
                    Ok(_) => news.push((i, k.clone(), id)),
                    Err(e) => violation("insert-error", &e),
                }
            }
            let mut guards: Vec<Option<_>> = guards.into_iter().map(Some).collect();
            for (i, id, r) in &refs {
                if S::rid(unsafe { &**r }) != *id {
                    violation("cross-tree", &format!("a reference into tree {} changed", trees[*i].name));
                }
            }
            // release the guards in any order; references of the others stay
            while guards.iter().any(Option::is_some) {
                let i = rng.below(guards.len());
                if let Some(g) = guards[i].take() {
                    if rng.chance(1, 2) {
                        seize::Guard::flush(&g);
                    }
                    refs.retain(|x| x.0 != i);
                    drop(g);
                    for (i, id, r) in &refs {
                        if S::rid(unsafe { &**r }) != *id {
                            violation("cross-tree", &format!("a reference into tree {} changed when a guard of another tree was released", trees[*i].name));
                        }
                    }
                }
            }
        }
        for (i, k, id) in news {
            trees[i].model.insert(k, id);
        }
        for t in &trees {
            verify(t, "one thread");
        }
        tick();
    }
    report::count("trees", made);
    for (id, o) in &kept {
        if S::id(o) != *id {
            violation("cross-tree", "a handle kept from a dropped tree changed");
        }
    }
    rng.shuffle(&mut trees);
    while let Some(t) = trees.pop() {
        drop(t);
        for t in &trees {
            verify(t, "others dropped");
        }
    }
    drop(kept);
    if S::DROPS && (val::CREATED.load(SeqCst) != val::DROPPED.load(SeqCst) || val::BAD_DROP.load(SeqCst) != 0) {
        violation("leak", &format!("{} values created, {} dropped, doubly dropped {}", val::CREATED.load(SeqCst), val::DROPPED.load(SeqCst), val::BAD_DROP.load(SeqCst)));
    }
    if iter % 50 == 3 {
        report::sample(json!({"iter": iter, "keys": f, "trees": made}));
    }
}

/// A guard of one tree held for good must not stop another tree's reclamation,
/// nor its operations.
fn no_delay(rng: &mut Rng) {
    val::reset();
    let a: MassTree<Val> = MassTree::new();
    let b: MassTree<Val> = MassTree::new();
    let n = rng.range(1, 30);
    let keys = family("flat", n, *rng.pick(ORDERS), rng);
    report::scenario(format!("guard of tree a held, {} overwritten keys in tree b", keys.len()));
    let _ = a.insert(b"x", Val::new(val::fresh()));
    let held = std::sync::Barrier::new(2);
    let done = std::sync::Barrier::new(2);
    std::thread::scope(|s| {
        s.spawn(|| {
            // this thread uses only tree a
            let g = a.guard();
            let r = a.get_ref(b"x", &g).map(|v| v.id);
            held.wait();
            done.wait();
            let r2 = a.get_ref(b"x", &g).map(|v| v.id);
            if r != r2 {
                violation("cross-tree", &format!("tree a reads {r2:?} after work on tree b, {r:?} before"));
            }
        });
        held.wait();
        let ga = a.guard();
        let rounds = rng.range(300, 900);
        let c0 = val::CREATED.load(SeqCst);
        for i in 0..rounds {
            let k = &keys[i % keys.len()];
            if rng.chance(1, 2) {
                drop(b.insert(k, Val::new(val::fresh())));
            } else {
                let gb = b.guard();
                drop(b.insert_with_guard(k, Val::new(val::fresh()), &gb));
            }
            if i % 50 == 49 {
                seize::Guard::flush(&b.guard());
            }
        }
        seize::Guard::flush(&b.guard());
        drop(b.guard());
        let live = (val::CREATED.load(SeqCst) - c0) as i64 - val::DROPPED.load(SeqCst) as i64;
        let bound = keys.len() as i64 + 128;
        if live > bound {
            violation("cross-delay", &format!("{live} values of tree b are alive after {rounds} overwrites of {} keys, all guards of b released: guards of another tree hold them back (bound {bound})", keys.len()));
        }
        report::count("reclaimed_beside_foreign_guard", val::DROPPED.load(SeqCst));
        drop(ga);
        done.wait();
    });
}

/// Threads create, share, use and drop trees.
fn threads<S: Store>(rng: &mut Rng) {
    val::reset();
    let f = *rng.pick(FAMILIES);
    let kn = rng.range(10, 60);
    let keys = family(f, kn, *rng.pick(ORDERS), rng);
    let n = rng.range(2, 4);
    report::scenario(format!("{} {f} {} keys, {n} threads sharing trees", S::NAME, keys.len()));
    let pool: Mutex<Vec<(u64, Arc<S>)>> = Mutex::new((0..3).map(|i| (i, Arc::new(S::new()))).collect());
    let names = AtomicU64::new(3);
    let seeds: Vec<u64> = (0..n).map(|_| rng.next()).collect();
    let ops = AtomicU64::new(0);
    // all start with the same trees, however late they start
    let starts: Vec<Vec<(u64, Arc<S>)>> = (0..n).map(|_| pool.lock().unwrap().clone()).collect();
    std::thread::scope(|s| {
        for (t, mut local) in starts.into_iter().enumerate() {
            let (pool, names, keys, seed, ops) = (&pool, &names, &keys, seeds[t], &ops);
            s.spawn(move || {
                let mut rng = Rng::new(seed);
                // what this thread stored, by tree (only this thread writes its keys)
                let mut mine: BTreeMap<u64, BTreeMap<Vec<u8>, u64>> = BTreeMap::new();
                for _ in 0..rng.range(50, 250) {
                    match rng.below(20) {
                        0 => {
                            let e = (names.fetch_add(1, SeqCst), Arc::new(S::new()));
                            pool.lock().unwrap().push(e.clone());
                            local.push(e);
                        }
                        1 if local.len() > 2 => {
                            // forget a tree here; the last one to do so destroys it
                            let (name, tr) = local.swap_remove(rng.below(local.len()));
                            mine.remove(&name);
                            pool.lock().unwrap().retain(|x| x.0 != name);
                            drop(tr);
                        }
                        2 => {
                            let p = pool.lock().unwrap().clone();
                            for e in p {
                                if local.len() < 6 && !local.iter().any(|x| x.0 == e.0) {
                                    local.push(e);
                                }
                            }
                        }
                        3 if local.len() > 1 => {
                            let (i, j) = (0, 1 + rng.below(local.len() - 1));
                            let g = local[i].1.guard();
                            let k = &keys[rng.below(keys.len())];
                            let form = rng.below(3);
                            let tr = &local[j].1;
                            let r = match form {
                                0 => report::catch(|| drop(tr.get_g(k, &g))),
                                1 => report::catch(|| drop(tr.get_ref(k, &g).map(|r| S::rid(r)))),
                                _ => report::catch(|| drop(tr.insert_g(k, val::fresh(), &g))),
                            };
                            if r.is_ok() {
                                violation("foreign-guard", "an operation with a guard of another tree was carried out");
                            }
                            report::count("foreign_guards_refused", 1);
                        }
                        _ => {
                            let (name, tr) = &local[rng.below(local.len())];
                            let k = rng.below(keys.len());
                            let m = mine.entry(*name).or_default();
                            let mut key = keys[k].clone();
                            if rng.chance(2, 3) {
                                // own keys carry a mark of the thread
                                key.truncate(250);
                                key.extend([0xEE, t as u8]);
                                if rng.chance(2, 3) {
                                    let id = val::fresh();
                                    let r = tr.insert(&key, id);
                                    let Ok(r) = r else { violation("insert-error", "insert failed") };
                                    let prev = r.map(|o| S::id(&o));
                                    let want = m.insert(key.clone(), id);
                                    if prev != want {
                                        violation("cross-tree", &format!("tree {name}: insert of {} displaced {prev:?}, expected {want:?}", hex(&key)));
                                    }
                                } else {
                                    let g = tr.guard();
                                    let got = tr.get_ref(&key, &g).map(|r| S::rid(r));
                                    if got != m.get(&key).copied() {
                                        violation("cross-tree", &format!("tree {name}: {} reads {got:?}, expected {:?}", hex(&key), m.get(&key)));
                                    }
                                }
                            } else if tr.insert(&key, val::fresh()).is_err() {
                                violation("insert-error", "insert failed");
                            }
                            ops.fetch_add(1, SeqCst);
                        }
                    }
                    tick();
                }
                for (name, tr) in &local {
                    for (k, id) in mine.get(name).into_iter().flatten() {
                        let got = tr.get(k).map(|o| S::id(&o));
                        if got != Some(*id) {
                            violation("cross-tree", &format!("tree {name}: {} reads {got:?} at the end, stored {id}", hex(k)));
                        }
                    }
                }
            });
        }
    });
    report::count("shared_tree_operations", ops.load(SeqCst));
    report::count("trees", names.load(SeqCst));
    drop(pool);
    if S::DROPS && (val::CREATED.load(SeqCst) != val::DROPPED.load(SeqCst) || val::BAD_DROP.load(SeqCst) != 0) {
        violation("leak", &format!("{} values created, {} dropped, doubly dropped {}", val::CREATED.load(SeqCst), val::DROPPED.load(SeqCst), val::BAD_DROP.load(SeqCst)));
    }
}

pub fn main(args: &Args) {
    crate::alloc::set_poison(args.get("poison", 1) == 1);
    let seed = args.get("seed", 1);
    let ms = args.get("ms", 10_000);
    let only = args.map.get("only").and_then(|s| s.parse::<u64>().ok());
    crate::watch::start();
    let mut i = only.unwrap_or(args.get("from", 0));
    let end = only.map_or(u64::MAX, |o| o + 1);
    while i < end && (only.is_some() || report::elapsed_ms() < ms) {
        report::begin_iter(i);
        let mut rng = Rng::derive(seed, 4, i);
        let kind = rng.below(10);
        let r = report::catch(|| match kind {
            0..4 => one_thread::<MassTree<Val>>(&mut rng, i),
            4..6 => one_thread::<MassTree24Inline<Cv>>(&mut rng, i),
            6 => no_delay(&mut rng),
            7 => threads::<MassTree24Inline<Cv>>(&mut rng),
            _ => threads::<MassTree<Val>>(&mut rng),
        });
        if let Err(m) = r {
            violation("panic", &format!("an operation panicked: {m}"));
        }
        report::count("runs", 1);
        report::count(["one_thread_runs", "delay_runs", "thread_runs"][if kind < 6 { 0 } else if kind == 6 { 1 } else { 2 }], 1);
        report::distinct("programs", rng.next());
        tick();
        i += 1;
    }
    report::finish();
}
