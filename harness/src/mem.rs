//! Memory: what a tree holds is bounded by what it contains, superseded objects
//! are given back while it is in use, and everything is given back on drop.
//! The global allocator accounts for every byte.
use crate::alloc;
use crate::keys::{FAMILIES, ORDERS, Order, family, hex};
use crate::report::{self, Args, violation};
use crate::rng::Rng;
use crate::store::Store;
use crate::val::{self, Cv, Val};
use masstree::{MassTree, MassTree24Inline};
use serde_json::json;
use std::sync::atomic::Ordering::SeqCst;

/// Fixed allowances.
const FIXED: i64 = 64 << 10;

struct Plan {
    family: String,
    order: Order,
    keys: Vec<Vec<u8>>,
    threads: usize,
    rounds: usize,
    /// 0: a guard per operation; else: one guard for this many operations.
    per_guard: usize,
    inline: bool,
}

impl Plan {
    fn slack(&self) -> u64 {
        // the collector keeps batches smaller than the number of threads active at
        // the time of the flush
        if self.threads == 1 { 0 } else { (self.threads * 8) as u64 }
    }
}

fn flush<S: Store>(t: &S) {
    let g = t.guard();
    seize::Guard::flush(&g);
}

fn expect_ok<T>(r: Result<Result<T, String>, String>, what: &str, key: &[u8]) -> T {
    match r {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => violation("insert-error", &format!("{what} of {} failed: {e}", hex(key))),
        Err(m) => violation("panic", &format!("{what} of {} panicked: {m}", hex(key))),
    }
}

/// Insert keys[lo..hi] split among threads (thread t takes every `threads`-th).
fn work<S: Store>(tree: &S, p: &Plan, lo: usize, hi: usize) -> usize {
    let one = |t: usize| {
        let mut prevs = 0;
        let mut i = lo + t;
        if p.per_guard == 0 {
            while i < hi {
                let id = val::fresh();
                let o = expect_ok(report::catch(|| tree.insert(&p.keys[i], id)), "insert", &p.keys[i]);
                prevs += usize::from(o.is_some());
                i += p.threads;
            }
        } else {
            while i < hi {
                let g = tree.guard();
                for _ in 0..p.per_guard {
                    if i >= hi {
                        break;
                    }
                    let id = val::fresh();
                    let o = expect_ok(report::catch(|| tree.insert_g(&p.keys[i], id, &g)), "insert", &p.keys[i]);
                    prevs += usize::from(o.is_some());
                    i += p.threads;
                }
            }
        }
        flush(tree);
        prevs
    };
    if p.threads == 1 {
        one(0)
    } else {
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..p.threads).map(|t| s.spawn(move || one(t))).collect();
            hs.into_iter().map(|h| h.join().unwrap()).sum()
        })
    }
}

/// What the tree may hold, from its contents.
fn allowance<S: Store>(tree: &S, keys: usize) -> i64 {
    let (leaf, inode, value) = S::sizes();
    let bag = size_of::<masstree::SuffixBag<24>>();
    #[cfg(masstree_verif)]
    {
        match report::catch(|| tree.walk()) {
            Ok(Ok(w)) => {
                report::count("nodes_walked", (w.leaves + w.internodes) as u64);
                if w.entries.len() != keys {
                    violation("structure", &format!("{} entries in the tree, {keys} keys inserted", w.entries.len()));
                }
                return (w.leaves * (leaf + 24 + bag) + w.internodes * (inode + 24) + w.bag_bytes + w.entries.len() * value) as i64;
            }
            Ok(Err(e)) => violation("structure", &e),
            Err(m) => violation("structure", &m),
        }
    }
    #[cfg(not(masstree_verif))]
    {
        // at worst 33 leaves per key
        let _ = (tree, inode);
        (keys * (34 * (leaf + bag + 256) + value + 4 * 256)) as i64
    }
}

fn run<S: Store>(p: &Plan, base: (i64, i64)) {
    val::reset();
    let tree = S::new();
    let n = p.keys.len();
    // growth
    let mut lo = 0;
    let cuts = [n / 4, n / 2, n];
    for &hi in &cuts {
        alloc::reset_peak();
        let prevs = work(&tree, p, lo, hi);
        if prevs != 0 {
            violation("displaced-foreign", &format!("{prevs} inserts of new keys reported previous values"));
        }
        lo = hi;
        flush(&tree);
        flush(&tree);
        let held = alloc::live().0 - base.0;
        let allow = allowance(&tree, hi);
        report::count("bytes_audited", held.max(0) as u64);
        report::maximum("held_permille_of_allowance", (held.max(0) * 1000 / (allow + FIXED)) as u64);
        if held > allow + FIXED {
            violation(
                "memory-growth",
                &format!("with {hi} keys the tree holds {held} bytes; its nodes, suffixes and values account for at most {}", allow + FIXED),
            );
        }
        // superseded objects must not pile up during growth either
        let over = alloc::peak() - base.0;
        let backlog = backlog_allowance::<S>(p);
        let peak_name = if p.threads == 1 { "peak_permille_of_allowance" } else { "peak_permille_threads" };
        report::maximum(peak_name, (over.max(0) * 1000 / (allow + FIXED + backlog)) as u64);
        // (with several threads one may be descheduled while it holds a guard: no bound)
        if p.threads == 1 && over > allow + FIXED + backlog {
            violation(
                "memory-backlog",
                &format!("while inserting {hi} keys up to {over} bytes were held; contents and reclamation backlog account for at most {}", allow + FIXED + backlog),
            );
        }
        check_values::<S>(hi as u64, p.slack());
    }
    // steady state: the same keys again and again
    let level = alloc::live().0;
    for r in 0..p.rounds {
        alloc::reset_peak();
        let prevs = work(&tree, p, 0, n);
        if prevs != n {
            violation("displaced-lost", &format!("{prevs} of {n} updates reported a previous value"));
        }
        flush(&tree);
        flush(&tree);
        let now = alloc::live().0;
        let grew = now - level;
        report::count("updates", n as u64);
        if grew > FIXED {
            violation("memory-growth", &format!("round {r} of updating the same {n} keys left {grew} more bytes in use"));
        }
        let over = alloc::peak() - level;
        if p.threads == 1 && over > FIXED + backlog_allowance::<S>(p) {
            violation(
                "memory-backlog",
                &format!("updating {n} existing keys needed {over} extra bytes at its peak; the reclamation backlog may take {}", FIXED + backlog_allowance::<S>(p)),
            );
        }
        check_values::<S>(n as u64, p.slack());
    }
    drop(tree);
    let (bytes, blocks) = alloc::live();
    // With several threads, process-wide tables (of locks, of thread numbers) may grow
    // now and then; their total is bounded.
    static SPARE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(6000);
    let extra = bytes - base.0;
    let spare = if p.threads > 1 && extra > 0 { SPARE.fetch_sub(extra, SeqCst) } else { 0 };
    if extra > spare.max(512) || blocks > base.1 + if p.threads > 1 { 8 + 64 } else { 8 } {
        violation(
            "memory-leak",
            &format!("dropping the tree left {extra} bytes in {} blocks allocated", blocks - base.1),
        );
    }
    if S::DROPS {
        check_values::<S>(0, 0);
    }
}

/// Retired objects a thread may have waiting: a batch, times what a batch entry can be.
fn backlog_allowance<S: Store>(p: &Plan) -> i64 {
    let (_, _, value) = S::sizes();
    let longest = p.keys.iter().map(|k| k.len()).max().unwrap_or(0);
    let bag = size_of::<masstree::SuffixBag<24>>() + 256.max(24 * longest * 2);
    let each = (value + bag + 128) as i64;
    // operations under one guard can retire up to about 40 objects each (a split of
    // suffixed entries), none of which may be freed before the guard goes
    let per_guard = 40 * p.per_guard.max(1) as i64;
    (p.threads as i64 + 1) * (per_guard + 64 * 4) * each
}

/// `slack`: objects that may still wait in the batches of finished threads.
fn check_values<S: Store>(expect: u64, slack: u64) {
    if !S::DROPS {
        return;
    }
    let bad = val::BAD_DROP.load(SeqCst);
    if bad != 0 {
        violation("double-drop", &format!("value v{bad} was dropped twice or damaged"));
    }
    let live = val::CREATED.load(SeqCst) - val::DROPPED.load(SeqCst);
    if live > expect + slack {
        violation("leak", &format!("{live} values are alive with {expect} keys stored and no handle or guard held"));
    }
    if live < expect {
        violation("early-drop", &format!("only {live} values are alive with {expect} keys stored"));
    }
    report::count("values_balanced", live);
}

pub fn main(args: &Args) {
    let seed = args.get("seed", 1);
    let ms = args.get("ms", 10_000);
    let only = args.map.get("only").and_then(|s| s.parse::<u64>().ok());
    let mut i = only.unwrap_or(args.get("from", 0));
    // thread-local and lazily created things first
    {
        let p = Plan {
            family: "flat".into(),
            order: Order::Up,
            keys: (0..500u64).map(|i| i.to_be_bytes().to_vec()).collect(),
            threads: 1,
            rounds: 1,
            per_guard: 0,
            inline: false,
        };
        val::reset();
        let t = <MassTree<Val> as Store>::new();
        work(&t, &p, 0, 500);
        let t = <MassTree24Inline<Cv> as Store>::new();
        work(&t, &p, 0, 500);
        for k in ["nodes_walked", "bytes_audited", "updates", "values_balanced", "runs", "keys"] {
            report::count(k, 0);
        }
        for k in ["held_permille_of_allowance", "peak_permille_of_allowance", "peak_permille_threads"] {
            report::maximum(k, 0);
        }
    }
    while only.is_some_and(|o| i <= o) || (only.is_none() && report::elapsed_ms() < ms) {
        report::begin_iter(i);
        let mut rng = Rng::derive(seed, 3, i);
        let fam = *rng.pick(FAMILIES);
        let order = *rng.pick(ORDERS);
        let n = *rng.pick(&[60usize, 300, 1500, 5000]);
        let n = match fam {
            "long" | "prefixes" | "edges" | "twigs" => n.min(300),
            _ => n,
        };
        let mut keys = family(fam, n, order, &mut rng);
        if rng.chance(1, 3) {
            // lengthen: every key gets a distinct slice and a long suffix
            let l = rng.range(4, 200);
            let n = keys.len();
            for (j, k) in keys.iter_mut().enumerate() {
                let mut nk = (if order == Order::Down { n - j } else { j } as u64).to_be_bytes().to_vec();
                nk.extend(std::iter::repeat_n(b'.', l));
                *k = nk;
            }
        }
        let p = Plan {
            family: fam.into(),
            order,
            threads: *rng.pick(&[1usize, 1, 2, 4]),
            rounds: rng.range(1, 3),
            per_guard: *rng.pick(&[0usize, 1, 16, 200]),
            keys,
            inline: rng.chance(1, 3),
        };
        let desc = format!(
            "{} {}/{:?}: {} keys (longest {} bytes), {} threads, {} update rounds, operations per guard {}",
            if p.inline { "inline" } else { "arc" },
            p.family,
            p.order,
            p.keys.len(),
            p.keys.iter().map(Vec::len).max().unwrap_or(0),
            p.threads,
            p.rounds,
            if p.per_guard == 0 { "1 (internal)".to_string() } else { p.per_guard.to_string() }
        );
        report::scenario(desc.clone());
        {
            use std::hash::{DefaultHasher, Hash, Hasher};
            let mut h = DefaultHasher::new();
            (&desc, &p.keys).hash(&mut h);
            report::distinct("plans", h.finish());
        }
        let base = alloc::live();
        if p.inline {
            run::<MassTree24Inline<Cv>>(&p, base);
        } else {
            run::<MassTree<Val>>(&p, base);
        }
        report::count("runs", 1);
        report::count("keys", p.keys.len() as u64);
        if i % 37 == 3 {
            report::sample(json!({"iter": i, "plan": desc}));
        }
        i += 1;
    }
    report::finish();
}
