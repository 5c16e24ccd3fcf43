//! Concurrent executions of the real code under controlled (or free) scheduling,
//! checked against: the history oracle, the structural walker, value life cycle,
//! size bounds, progress.
use crate::hist::{Event, What, check_counts, check_key};
use crate::keys::{FAMILIES, ORDERS, Order, family, hex};
use crate::report::{self, Args, violation};
use crate::rng::Rng;
use crate::sched::{self, Class, Strategy};
use crate::store::Store;
use crate::val::{self, Cv, Val};
use crate::weak;
use masstree::{MassTree, MassTree24Inline};
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub enum Op {
    Insert(usize, bool),
    /// 0: own guard, 1: thread's guard, 2: by reference (kept to the end)
    Get(usize, u8),
    Len,
    Empty,
    /// Drop the thread's guard and take a new one (flushing retired objects).
    Reguard(bool),
}

#[derive(Clone, Debug)]
pub struct Scenario {
    pub inline: bool,
    pub family: String,
    pub order: Order,
    pub keys: Vec<Vec<u8>>,
    pub prefill: usize,
    pub programs: Vec<Vec<Op>>,
    pub label: &'static str,
    /// One writer with a long program, the others short ones.
    pub long_writer: bool,
    /// Accesses after which scheduling turns fair (then three times as many: no progress).
    pub budget: u64,
}

impl Scenario {
    /// `describe`, or less when that would be long.
    pub fn brief(&self) -> String {
        if self.programs.iter().map(Vec::len).sum::<usize>() < 200 {
            return self.describe();
        }
        let lens: Vec<usize> = self.programs.iter().map(Vec::len).collect();
        format!("{} {}/{:?} {} prefill={} keys={} operations {lens:?}, shortest program: {:?}\n", if self.inline { "inline" } else { "arc" }, self.family, self.order, self.label, self.prefill, self.keys.len(), self.programs.iter().min_by_key(|p| p.len()).unwrap())
    }

    pub fn describe(&self) -> String {
        let mut s = format!(
            "{} {}/{:?} {} prefill={} keys={}\n",
            if self.inline { "inline" } else { "arc" },
            self.family,
            self.order,
            self.label,
            self.prefill,
            self.keys.len()
        );
        for (t, p) in self.programs.iter().enumerate() {
            s.push_str(&format!("  t{t}:"));
            for o in p {
                match o {
                    Op::Insert(k, g) => s.push_str(&format!(" insert{}({}{})", if *g { "_g" } else { "" }, k, hex(&self.keys[*k]))),
                    Op::Get(k, m) => s.push_str(&format!(" get{}({}{})", ["", "_g", "_ref"][*m as usize], k, hex(&self.keys[*k]))),
                    Op::Len => s.push_str(" len"),
                    Op::Empty => s.push_str(" is_empty"),
                    Op::Reguard(f) => s.push_str(if *f { " flush" } else { " reguard" }),
                }
            }
            s.push('\n');
        }
        s
    }
}

/// Prefill sizes just before which something structural happens.
struct Instance {
    family: String,
    order: Order,
    keys: Vec<Vec<u8>>,
    /// (number of keys after which it happened, what)
    critical: Vec<(usize, &'static str)>,
}

fn instance(fam: &str, order: Order, n: usize, rng: &mut Rng) -> Instance {
    let mut keys = family(fam, n, order, rng);
    keys.truncate(n);
    let mut critical = vec![];
    // before the first key, and around the first split
    critical.push((1, "first-key"));
    #[cfg(masstree_verif)]
    {
        let t: MassTree24Inline<Cv> = MassTree24Inline::new();
        let mut prev: Option<crate::walk::Walked> = None;
        for (i, k) in keys.iter().enumerate() {
            let _ = report::catch(|| Store::insert(&t, k, i as u64 + 1));
            // of long sequences, look only now and then
            let step = if i < 420 { 1 } else { 12 };
            if i % step != 0 {
                continue;
            }
            let Ok(Ok(w)) = report::catch(|| t.walk()) else { break };
            if let Some(p) = &prev {
                let what = if w.layers > p.layers {
                    "new-layer"
                } else if w.leaves == p.leaves {
                    ""
                } else if w.max_height > p.max_height {
                    if w.max_height > 1 { "root-grows" } else { "first-split" }
                } else if w.internodes > p.internodes {
                    "internode-split"
                } else if critical.len() < 600 {
                    "leaf-split"
                } else {
                    ""
                };
                if !what.is_empty() {
                    critical.extend((i + 2 - step..i + 2).map(|n| (n, what)));
                }
            }
            prev = Some(w);
        }
    }
    #[cfg(not(masstree_verif))]
    for c in [25, 37, 49, 61, 193, 205] {
        critical.push((c, "leaf-split"));
    }
    Instance { family: fam.into(), order, keys, critical }
}

pub struct Gen {
    insts: Vec<Instance>,
    focus: String,
}

impl Gen {
    pub fn new(seed: u64, focus: &str, small: bool) -> Gen {
        let mut rng = Rng::derive(seed, 1, 1);
        let mut insts = vec![];
        for f in FAMILIES {
            let orders: Vec<Order> = match *f {
                "flat" | "layer" => ORDERS.to_vec(),
                _ => vec![*rng.pick(ORDERS), Order::Random],
            };
            for o in orders {
                let n = match *f {
                    "flat" | "layer" if !small => *rng.pick(&[60, 260, 260, 420]),
                    "long" => 40,
                    _ if small => 40,
                    _ => rng.range(50, 160),
                };
                insts.push(instance(f, o, n, &mut rng));
            }
        }
        if !small {
            // tall trees: internodes above internodes
            insts.push(instance("flat", Order::Up, 2600, &mut rng));
            insts.push(instance("layer", Order::Up, 2600, &mut rng));
        }
        Gen { insts, focus: focus.into() }
    }

    pub fn scenario(&self, rng: &mut Rng) -> Scenario {
        let mut inst = &self.insts[rng.below(self.insts.len())];
        if inst.keys.len() > 1000 && !rng.chance(1, 6) {
            inst = &self.insts[rng.below(self.insts.len() - 2)];
        }
        // choose a structural event to happen during the run, rare kinds preferred
        let mut kinds: BTreeMap<&'static str, Vec<usize>> = BTreeMap::new();
        for (n, k) in &inst.critical {
            kinds.entry(k).or_default().push(*n);
        }
        let (label, at) = if rng.chance(1, 12) {
            ("anywhere", rng.below(inst.keys.len().min(300)) + 1)
        } else {
            let ks: Vec<&'static str> = kinds.keys().copied().collect();
            let k = *rng.pick(&ks);
            (k, *rng.pick(&kinds[k]))
        };
        let slack = rng.below(3);
        let prefill = at.saturating_sub(1 + slack);
        let n = inst.keys.len();
        // hot keys: next in insertion order, and neighbours (in key order) of the key that triggers
        let trigger = (at - 1).min(n - 1);
        let upto = (trigger + 40).min(n);
        let mut sorted: Vec<usize> = (0..upto).collect();
        sorted.sort_by(|a, b| inst.keys[*a].cmp(&inst.keys[*b]));
        let pos = sorted.iter().position(|&i| i == trigger).unwrap();
        let mut near: Vec<usize> = vec![];
        let lo = pos.saturating_sub(18);
        let hi = (pos + 18).min(sorted.len());
        near.extend(&sorted[lo..hi]);
        let old_near: Vec<usize> = near.iter().copied().filter(|&i| i < prefill).collect();
        let mut fresh: Vec<usize> = (prefill..(trigger + 3).min(n)).collect();
        for &i in &near {
            if i >= prefill && fresh.len() < 14 && !fresh.contains(&i) {
                fresh.push(i);
            }
        }
        if fresh.is_empty() {
            fresh.push(n - 1);
        }
        let threads = *rng.pick(&[2usize, 2, 2, 3, 3, 4]);
        let mut programs = vec![];
        let style = rng.below(6);
        let hotkey = *rng.pick(&fresh);
        for t in 0..threads {
            let reader = match style {
                0 | 1 => t > 0,
                2 => t == threads - 1,
                3 => false,
                _ => rng.chance(1, 2) && t > 0,
            };
            let mut p = vec![];
            let len = if reader { rng.range(1, 6) } else { rng.range(1, 4) };
            // writers: start at a fresh key that triggers
            let mut next = if style == 5 { 0 } else { t % fresh.len() };
            for j in 0..len {
                if self.focus == "counts" && rng.chance(1, 3) {
                    p.push(if rng.chance(1, 2) { Op::Len } else { Op::Empty });
                    continue;
                }
                if rng.chance(1, 40) {
                    p.push(if rng.chance(1, 2) { Op::Len } else { Op::Empty });
                    continue;
                }
                let flush = if self.focus == "mem" { 4 } else { 20 };
                if rng.chance(1, flush) {
                    p.push(Op::Reguard(rng.chance(2, 3)));
                    continue;
                }
                if reader {
                    let k = match rng.below(10) {
                        0..5 if !old_near.is_empty() => *rng.pick(&old_near),
                        5..8 => *rng.pick(&fresh),
                        8 => hotkey,
                        _ => rng.below(n),
                    };
                    p.push(Op::Get(k, *rng.pick(&[0u8, 1, 2, 2])));
                } else {
                    let upd = if self.focus == "mem" { 5 } else { 3 };
                    let k = match rng.below(12) {
                        x if x < upd && !old_near.is_empty() && j > 0 => *rng.pick(&old_near),
                        11 => hotkey,
                        _ => {
                            let k = fresh[next % fresh.len()];
                            next += if style == 5 { 1 } else { threads };
                            k
                        }
                    };
                    if rng.chance(1, 6) {
                        p.push(Op::Get(k, rng.below(3) as u8));
                    } else {
                        p.push(Op::Insert(k, rng.chance(1, 2)));
                    }
                }
            }
            programs.push(p);
        }
        let long_writer = rng.chance(1, 8);
        if long_writer {
            // one writer works long enough for several restructurings of the same
            // neighbourhood, the others do one or two operations
            for p in programs.iter_mut().skip(1) {
                p.truncate(2);
            }
            let mut more: Vec<usize> = sorted[lo..hi].iter().copied().filter(|&i| i >= prefill).collect();
            more.extend(trigger..(trigger + 30).min(n));
            let m = rng.range(8, 40).min(more.len());
            programs[0] = more[..m].iter().map(|&k| Op::Insert(k, true)).collect();
        }
        let inline = rng.chance(1, 3);
        Scenario {
            inline,
            family: inst.family.clone(),
            order: inst.order,
            keys: inst.keys.clone(),
            prefill,
            programs,
            label,
            long_writer,
            budget: 60_000,
        }
    }

    /// Two threads: one (the victim) does an operation or two on a small tree, the
    /// other works through the insertions that follow. Small enough for the places
    /// where the victim can stop to be covered densely.
    fn duel(&self, rng: &mut Rng) -> (Scenario, Vec<Strategy>) {
        let inst = loop {
            let i = rng.pick(&self.insts);
            if i.keys.len() < 1000 {
                break i;
            }
        };
        let n = inst.keys.len();
        let at = inst.critical.iter().filter(|c| c.0 <= 60).map(|c| c.0).collect::<Vec<_>>();
        let prefill = if at.is_empty() { 1 } else { rng.pick(&at).saturating_sub(1 + rng.below(2)) }.min(n - 1);
        let mut w: Vec<usize> = (prefill..(prefill + rng.range(2, 30)).min(n)).collect();
        if rng.chance(1, 3) {
            w = (prefill..(prefill + 80).min(n)).collect();
            rng.shuffle(&mut w);
            w.truncate(rng.range(2, 30));
        }
        let mut wp: Vec<Op> = w.iter().map(|&k| Op::Insert(k, true)).collect();
        if prefill > 0 && rng.chance(1, 4) {
            for _ in 0..rng.range(1, 4) {
                let at = rng.below(wp.len() + 1);
                wp.insert(at, Op::Insert(rng.below(prefill), true));
            }
        }
        let fresh = (prefill + rng.below(34)).min(n - 1);
        let old = if prefill > 0 { rng.below(prefill) } else { fresh };
        let mut vp = vec![match rng.below(10) {
            0..5 => Op::Get(old, rng.below(3) as u8),
            5 => Op::Get(fresh, rng.below(3) as u8),
            6 => Op::Insert(old, true),
            _ => Op::Insert(fresh, true),
        }];
        if rng.chance(1, 4) {
            vp.push(Op::Get(if rng.chance(1, 2) { old } else { fresh }, rng.below(3) as u8));
        }
        let strats = (0..20)
            .map(|_| {
                let mut segs = vec![];
                let rounds = *rng.pick(&[1usize, 2, 2, 2, 3]);
                for r in 0..rounds {
                    let reach = match rng.below(8) {
                        0 => 300,
                        1..4 => 70,
                        _ => 25,
                    };
                    segs.push((0, 1 + rng.below(reach) as u64, Class::Any));
                    if r + 1 == rounds && rng.chance(2, 3) || rng.chance(1, 4) {
                        segs.push((1, 1 + rng.below(2) as u64, if rng.chance(1, 4) { Class::HitRead } else { Class::Hit }));
                    } else {
                        match rng.below(6) {
                            0 => segs.push((1, 1 + rng.below(60 * w.len()) as u64, Class::Any)),
                            1 => segs.push((1, 1 + rng.below(20 * w.len()) as u64, Class::W8)),
                            2 => segs.push((1, 1 + rng.below(40) as u64, Class::W16)),
                            _ => segs.push((1, 1 + rng.below(70) as u64, Class::W4)),
                        }
                    }
                }
                Strategy::Segments { segs, tail: if rng.chance(5, 6) { vec![0, 1] } else { vec![1, 0] } }
            })
            .collect();
        (
            Scenario {
                inline: rng.chance(1, 3),
                family: inst.family.clone(),
                order: inst.order,
                keys: inst.keys.clone(),
                prefill,
                programs: vec![vp, wp],
                label: "duel",
                long_writer: true,
                budget: 60_000,
            },
            strats,
        )
    }

    /// One thread is held up somewhere in a single operation while another one
    /// grows the layer by thousands of keys.
    fn marathon(&self, rng: &mut Rng) -> (Scenario, Vec<Strategy>) {
        let inst = &self.insts[self.insts.len() - 1 - rng.below(2)];
        let n = inst.keys.len();
        let prefill = *rng.pick(&[1usize, 2, 20, 24, 25, 200]);
        let late = rng.range(n - 60, n - 1);
        let k = rng.below(n);
        let op = match rng.below(3) {
            0 => Op::Insert(late, false),
            1 => Op::Insert(k, true),
            _ => Op::Get(rng.below(prefill), rng.below(3) as u8),
        };
        let end = late - rng.below(3);
        let programs = vec![(prefill..end).map(|k| Op::Insert(k, true)).collect(), vec![op, Op::Get(late, 0)]];
        let strats = (0..3)
            .map(|_| Strategy::Segments {
                segs: vec![(1, 1 + rng.below(40) as u64, Class::Any), (0, 1 << 40, Class::Any)],
                tail: vec![1, 0],
            })
            .collect();
        (
            Scenario {
                inline: rng.chance(1, 2),
                family: inst.family.clone(),
                order: inst.order,
                keys: inst.keys.clone(),
                prefill,
                programs,
                label: "marathon",
                long_writer: true,
                budget: 3_000_000,
            },
            strats,
        )
    }

    /// One insertion that restructures the tree (thread 1) is stopped halfway, between any
    /// two of its accesses, while another thread begins an operation nearby and is stopped in
    /// turn; the first completes before the second goes on.
    fn collide(&self, rng: &mut Rng) -> Scenario {
        let inst = loop {
            let i = rng.pick(&self.insts);
            if i.keys.len() < 1000 && i.critical.len() > 1 {
                break i;
            }
        };
        let mut kinds: BTreeMap<&'static str, Vec<usize>> = BTreeMap::new();
        for (n, k) in &inst.critical {
            kinds.entry(k).or_default().push(*n);
        }
        let ks: Vec<&'static str> = kinds.keys().copied().collect();
        let label = if kinds.contains_key("leaf-split") && rng.chance(1, 2) { "leaf-split" } else { *rng.pick(&ks) };
        let at = *rng.pick(&kinds[label]);
        let n = inst.keys.len();
        let prefill = (at - 1).min(n - 1);
        let trigger = prefill;
        let mut sorted: Vec<usize> = (0..(trigger + 20).min(n)).collect();
        sorted.sort_by(|a, b| inst.keys[*a].cmp(&inst.keys[*b]));
        let pos = sorted.iter().position(|&i| i == trigger).unwrap();
        let near = &sorted[pos.saturating_sub(20)..(pos + 20).min(sorted.len())];
        let old: Vec<usize> = near.iter().copied().filter(|&i| i < prefill).collect();
        let mut wp = vec![Op::Insert(trigger, true)];
        if rng.chance(1, 4) {
            wp.extend((trigger + 1..(trigger + rng.range(2, 5)).min(n)).map(|k| Op::Insert(k, true)));
        }
        let any = *rng.pick(near);
        let k = if old.is_empty() { any } else { *rng.pick(&old) };
        let mut vp = vec![match rng.below(12) {
            0..8 => Op::Get(k, rng.below(3) as u8),
            8 => Op::Get(trigger, rng.below(3) as u8),
            9 => Op::Insert(k, true),
            _ => Op::Insert(any, true),
        }];
        if rng.chance(1, 4) {
            vp.push(Op::Get(any, rng.below(3) as u8));
        }
        Scenario {
            inline: rng.chance(1, 2),
            family: inst.family.clone(),
            order: inst.order,
            keys: inst.keys.clone(),
            prefill,
            programs: vec![vp, wp],
            label,
            long_writer: false,
            budget: 60_000,
        }
    }

    fn collision(&self, rng: &mut Rng, est: u64) -> Strategy {
        let mut segs = vec![];
        if rng.chance(1, 3) {
            segs.push((0, 1 + rng.below(25) as u64, Class::Any));
        }
        match rng.below(6) {
            0 | 1 => segs.push((1, 1 + rng.below(est as usize) as u64, Class::Any)),
            // the nodes above are changed last
            2 => segs.push((1, est - rng.below(est as usize / 2) as u64, Class::Any)),
            3 => segs.push((1, 1 + rng.below(est as usize / 6 + 4) as u64, Class::W4)),
            _ => segs.push((1, 1 + rng.below(est as usize / 3 + 4) as u64, Class::W8)),
        }
        let reach = *rng.pick(&[12usize, 25, 25, 60]);
        segs.push((0, 1 + rng.below(reach) as u64, Class::Any));
        if rng.chance(1, 4) {
            segs.push((1, 1 + rng.below(30) as u64, *rng.pick(&[Class::Any, Class::W])));
            segs.push((0, 1 + rng.below(25) as u64, Class::Any));
        }
        Strategy::Segments { segs, tail: vec![1, 0] }
    }

    /// One thread splits a leaf, or looks up a key in it, while another one fills the
    /// leaves around it, splitting the node above again and again. The first thread
    /// stops mostly before it locks something, until what it read last is written.
    fn siege(&self, rng: &mut Rng) -> (Scenario, Vec<Strategy>) {
        let prefix: &[u8] = if rng.chance(1, 3) { b"besieged" } else { b"" };
        let tail: &[u8] = if rng.chance(1, 3) { b"/and more" } else { b"" };
        let mk = |x: u64| -> Vec<u8> { [prefix, &x.to_be_bytes(), tail].concat() };
        let base = rng.range(60, 200) as u64;
        let mut keys: Vec<Vec<u8>> = (0..base).map(|i| mk(i * 1000)).collect();
        // fill the neighbourhood of one place almost up to a split
        let at = rng.range(20, base as usize - 20) as u64;
        for j in 0..rng.range(8, 20) as u64 {
            keys.push(mk((at - at % 12 + j % 12) * 1000 + 500 + j));
        }
        let prefill = keys.len();
        // the victim's keys
        let mine = rng.range(1, 4);
        for j in 0..mine as u64 {
            keys.push(mk(at * 1000 + 700 + j));
        }
        // the writer's keys: below, above, or around
        let (lo, hi) = match rng.below(3) {
            0 => (at - 20, at - 2),
            1 => (at + 2, at + 20),
            _ => (at - 15, at + 15),
        };
        let span = (hi - lo) * 1000;
        let many = rng.range(150, 500) as u64;
        let up = rng.chance(1, 2);
        let mut more: Vec<u64> = (0..many).map(|j| lo * 1000 + (j * span / many) | 1).collect();
        if !up {
            rng.shuffle(&mut more);
        }
        let taken: std::collections::HashSet<Vec<u8>> = keys.iter().cloned().collect();
        let mut seen = std::collections::HashSet::new();
        keys.extend(more.iter().map(|&x| mk(x)).filter(|k| !taken.contains(k) && seen.insert(k.clone())));
        let mut vp: Vec<Op> = (0..mine).map(|j| Op::Insert(prefill + j, true)).collect();
        if rng.chance(1, 4) {
            vp = vec![Op::Get(rng.below(prefill), rng.below(3) as u8), Op::Get(at as usize, 0)];
        }
        let wp: Vec<Op> = (prefill + mine..keys.len()).map(|k| Op::Insert(k, true)).collect();
        let strats = (0..6)
            .map(|_| {
                let mut segs = vec![];
                let rounds = rng.range(1, 5);
                for r in 0..rounds {
                    let n = if r == 0 { rng.range(1, 4) } else { rng.range(1, 3) };
                    if rng.chance(1, 5) {
                        segs.push((0, 1 + rng.below(60) as u64, Class::Any));
                    } else {
                        segs.push((0, n as u64, Class::Lock));
                    }
                    match rng.below(6) {
                        0 => segs.push((1, 1 + rng.below(4000) as u64, Class::Any)),
                        1 => segs.push((1, 1 + rng.below(2) as u64, Class::Hit)),
                        _ => segs.push((1, 1 + rng.below(2) as u64, Class::HitRead)),
                    }
                }
                Strategy::Segments { segs, tail: vec![0, 1] }
            })
            .collect();
        (
            Scenario {
                inline: rng.chance(1, 3),
                family: "siege".into(),
                order: Order::Random,
                keys,
                prefill,
                programs: vec![vp, wp],
                label: "siege",
                long_writer: true,
                budget: 400_000,
            },
            strats,
        )
    }

    /// A thread stops before some access; another one runs until it has written what
    /// the first is about to access; the first goes on for a while; and again.
    fn watch(&self, rng: &mut Rng, n: usize, est: u64) -> Strategy {
        let mut segs = vec![];
        for _ in 0..rng.range(1, 3) {
            let v = rng.below(n);
            let w = (v + 1 + rng.below(n - 1)) % n;
            let len = match rng.below(4) {
                0 => est as usize / n,
                1 => 100,
                _ => 30,
            };
            segs.push((v, 1 + rng.below(len) as u64, Class::Any));
            segs.push((w, 1 + rng.below(3) as u64, if rng.chance(1, 4) { Class::HitRead } else { Class::Hit }));
            if n > 2 && rng.chance(1, 3) {
                segs.push((rng.below(n), 1 + rng.below(100) as u64, Class::Any));
            }
        }
        let mut tail: Vec<usize> = (0..n).collect();
        rng.shuffle(&mut tail);
        let first = segs[0].0;
        if rng.chance(2, 3) {
            tail.retain(|&t| t != first);
            tail.insert(0, first);
        }
        Strategy::Segments { segs, tail }
    }

    pub fn strategy(&self, rng: &mut Rng, s: &Scenario, est: u64, mode: &str) -> Strategy {
        let n = s.programs.len();
        if mode == "free" || !sched::HOOKED {
            return Strategy::Free { den: *rng.pick(&[5usize, 20, 100]), spins: *rng.pick(&[50usize, 400, 3000]) };
        }
        let est = est.max(50);
        if s.long_writer && rng.chance(3, 4) {
            // the others stop and go while the writer advances
            let mut segs = vec![];
            let (w8, w4) = (est as usize / 12 + 2, est as usize / 60 + 2);
            for _ in 0..rng.range(1, 4) {
                let r = 1 + rng.below(n - 1);
                let far = rng.chance(1, 3);
                segs.push((r, 1 + rng.below(if far { 80 } else { 25 }) as u64, Class::Any));
                let (len, class) = match rng.below(4) {
                    0 => (est as usize, Class::Any),
                    1 => (w4, Class::W4),
                    _ => (w8, Class::W8),
                };
                let len = if rng.chance(1, 2) { len } else { len / 4 + 1 };
                if rng.chance(1, 3) {
                    segs.push((0, 1 + rng.below(3) as u64, Class::Hit));
                } else {
                    segs.push((0, 1 + rng.below(len) as u64, class));
                }
            }
            let mut tail: Vec<usize> = (1..n).collect();
            rng.shuffle(&mut tail);
            tail.push(0);
            return Strategy::Segments { segs, tail };
        }
        match rng.below(16) {
            15 => Strategy::Hunt {
                den: *rng.pick(&[3usize, 10, 60]),
                victim: rng.below(n),
                at: rng.below((est as usize * 3 / 2) / n + 1) as u64,
                writes: 0,
                times: rng.range(1, 6) as u64,
                hold: 1 + rng.below(est as usize) as u64,
            },
            12..15 => self.watch(rng, n, est),
            0..2 => Strategy::Walk { den: *rng.pick(&[2usize, 3, 5, 10, 30, 80]) },
            2..4 => {
                let d = rng.range(1, 4);
                Strategy::Pct { changes: (0..d).map(|_| 1 + rng.below(est as usize) as u64).collect() }
            }
            4..6 => Strategy::Stall {
                den: *rng.pick(&[3usize, 10, 60]),
                victim: rng.below(n),
                at: 1 + rng.below((est as usize * 3 / 2) / n + 1) as u64,
            },
            _ => {
                let k = rng.range(1, 4);
                let per = est as usize / n + 20;
                let mut segs = vec![];
                let mut last = usize::MAX;
                for _ in 0..k {
                    let mut t = rng.below(n);
                    if t == last {
                        t = (t + 1) % n;
                    }
                    last = t;
                    let mut len = 1 + rng.below(per + per / 2);
                    let mut class = Class::Any;
                    match rng.below(8) {
                        0 | 1 => len = 1 + rng.below(60),
                        2 => {
                            class = *rng.pick(&[Class::W, Class::W1, Class::W8]);
                            len = 1 + rng.below(per / 3 + 2);
                        }
                        3 => {
                            class = *rng.pick(&[Class::W4, Class::W16, Class::R4]);
                            len = 1 + rng.below(per / 16 + 3);
                        }
                        _ => {}
                    }
                    segs.push((t, len as u64, class));
                }
                let mut tail: Vec<usize> = (0..n).collect();
                rng.shuffle(&mut tail);
                Strategy::Segments { segs, tail }
            }
        }
    }
}

struct Log {
    events: Vec<Event>,
}

fn worker<S: Store>(me: usize, tree: &S, sc: &Scenario, ids: &[u64], log: &Mutex<Log>, keep: &Mutex<Vec<(u64, S::Out)>>) {
    // (memory is not given back while threads run: see `weak::freed`)
    let mut evs: Vec<Event> = Vec::with_capacity(sc.programs[me].len());
    let mut idn = 0;
    let mut ops = sc.programs[me].iter().peekable();
    let r = report::catch(|| {
        while ops.peek().is_some() {
            // one guard per stretch
            weak::enter();
            let guard = tree.guard();
            let mut held: Vec<(usize, u64, &S::Ref)> = Vec::with_capacity(8);
            let mut flush = false;
            for op in ops.by_ref() {
                sched::point();
                let call = sched::now();
                match op {
                    Op::Insert(k, own) => {
                        let id = ids[idn];
                        idn += 1;
                        let r = if *own {
                            tree.insert_g(&sc.keys[*k], id, &guard)
                        } else {
                            tree.insert(&sc.keys[*k], id)
                        };
                        let ret = sched::now();
                        match r {
                            Ok(o) => {
                                let prev = o.as_ref().map(|o| S::id(o));
                                evs.push(Event { thread: me, key: *k, what: What::Insert { id, prev }, call, ret });
                                if let (Some(o), Some(p)) = (o, prev) {
                                    keep.lock().unwrap().push((p, o));
                                }
                            }
                            Err(e) => violation("insert-error", &format!("insert of key {} failed: {e}", hex(&sc.keys[*k]))),
                        }
                    }
                    Op::Get(k, mode) => {
                        let key = &sc.keys[*k];
                        let found = match mode {
                            0 => {
                                let o = tree.get(key);
                                o.as_ref().map(|o| S::id(o))
                            }
                            1 => {
                                let o = tree.get_g(key, &guard);
                                let id = o.as_ref().map(|o| S::id(o));
                                if let (Some(o), Some(i)) = (o, id) {
                                    keep.lock().unwrap().push((i, o));
                                }
                                id
                            }
                            _ => {
                                let r = tree.get_ref(key, &guard);
                                let id = r.map(|r| S::rid(r));
                                if let (Some(r), Some(i)) = (r, id) {
                                    held.push((*k, i, r));
                                }
                                id
                            }
                        };
                        let ret = sched::now();
                        evs.push(Event { thread: me, key: *k, what: What::Get { found }, call, ret });
                    }
                    Op::Len => {
                        let n = tree.len();
                        let ret = sched::now();
                        evs.push(Event { thread: me, key: usize::MAX, what: What::Len { n }, call, ret });
                    }
                    Op::Empty => {
                        let yes = tree.is_empty();
                        let ret = sched::now();
                        evs.push(Event { thread: me, key: usize::MAX, what: What::Empty { yes }, call, ret });
                    }
                    Op::Reguard(f) => {
                        flush = *f;
                        break;
                    }
                }
                for (k, i, r) in &held {
                    if S::rid(r) != *i {
                        violation("ref-changed", &format!("a reference to key {} changed from v{i} to v{}", hex(&sc.keys[*k]), S::rid(r)));
                    }
                }
            }
            sched::point();
            for (k, i, r) in &held {
                if S::rid(r) != *i {
                    violation("ref-changed", &format!("a reference to key {} changed from v{i} to v{}", hex(&sc.keys[*k]), S::rid(r)));
                }
            }
            if flush {
                seize::Guard::flush(&guard);
            }
        }
    });
    if let Err(m) = r {
        violation("panic", &format!("thread {me}: an operation panicked: {m}"));
    }
    log.lock().unwrap().events.extend(evs);
}

pub struct Checks {
    pub walk: bool,
    pub counts: bool,
    pub drops: bool,
    /// Loads may yield older values.
    pub weak: Option<weak::Weak>,
}

/// Execute one scenario under one strategy and check everything.
/// Returns the run's statistics.
pub fn execute<S: Store>(sc: &Scenario, strat: Strategy, seed: u64, ck: &Checks) -> sched::RunInfo {
    val::reset();
    let tree = S::new();
    let mut base: HashMap<usize, u64> = HashMap::new();
    for k in 0..sc.prefill {
        let id = val::fresh();
        base.insert(k, id);
        match report::catch(|| S::insert(&tree, &sc.keys[k], id)) {
            Ok(Ok(None)) => {}
            Ok(Ok(Some(_))) => violation("displaced-foreign", &format!("prefill: insert of new key {} reports a previous value", hex(&sc.keys[k]))),
            Ok(Err(e)) => violation("insert-error", &format!("prefill insert of {} failed: {e}", hex(&sc.keys[k]))),
            Err(m) => violation("panic", &format!("prefill insert of {} panicked: {m}", hex(&sc.keys[k]))),
        }
    }
    // ids are fixed beforehand: they must not depend on the schedule
    let mut ids: Vec<Vec<u64>> = vec![];
    for p in &sc.programs {
        ids.push(p.iter().filter(|o| matches!(o, Op::Insert(..))).map(|_| val::fresh()).collect());
    }
    let log = Mutex::new(Log { events: vec![] });
    let keep: Mutex<Vec<(u64, S::Out)>> = Mutex::new(Vec::with_capacity(sc.programs.iter().map(Vec::len).sum()));
    let mut jobs: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
    for t in 0..sc.programs.len() {
        let (tree, log, keep, ids) = (&tree, &log, &keep, &ids);
        jobs.push(Box::new(move || worker(t, tree, sc, &ids[t], log, keep)));
    }
    let pin = ck.weak.is_some_and(|w| w.pinned).then(|| tree.guard());
    if let Some(w) = ck.weak {
        weak::start(w, seed);
    }
    let info = sched::run(strat, seed, sc.budget, jobs);
    weak::stop();
    drop(pin);
    if info.stuck {
        report::count("runs_released", 1);
    }
    let events = log.into_inner().unwrap().events;

    // at rest
    let mut last: HashMap<usize, Option<u64>> = HashMap::new();
    let mut by_key: BTreeMap<usize, Vec<Event>> = BTreeMap::new();
    for e in &events {
        if e.key != usize::MAX {
            by_key.entry(e.key).or_default().push(*e);
        }
    }
    let guard = tree.guard();
    let probe = |k: usize| -> Option<u64> {
        match report::catch(|| {
            let a = tree.get_g(&sc.keys[k], &guard).map(|o| S::id(&o));
            let b = tree.get_ref(&sc.keys[k], &guard).map(|r| S::rid(r));
            (a, b)
        }) {
            Ok((a, b)) => {
                if a != b {
                    violation("paths-disagree", &format!("get gives {a:?} but get_ref gives {b:?} for {}", hex(&sc.keys[k])));
                }
                a
            }
            Err(m) => violation("panic", &format!("lookup at rest panicked: {m}")),
        }
    };
    for (&k, evs) in &by_key {
        let l = probe(k);
        last.insert(k, l);
        if let Err((kind, msg)) = check_key(k, &sc.keys, base.get(&k).copied(), l, evs) {
            violation(kind, &msg);
        }
    }
    // untouched keys; all of them when few, else a sample
    let stepk = (sc.prefill / 64).max(1);
    for k in (0..sc.prefill).step_by(stepk) {
        if !last.contains_key(&k) && probe(k) != base.get(&k).copied() {
            violation("lost-key", &format!("untouched key {} reads {:?}, stored {:?}", hex(&sc.keys[k]), probe(k), base.get(&k)));
        }
    }
    drop(guard);
    let mut expect: BTreeMap<&[u8], u64> = BTreeMap::new();
    for (k, id) in &base {
        expect.insert(&sc.keys[*k], *id);
    }
    for (k, l) in &last {
        if let Some(id) = l {
            expect.insert(&sc.keys[*k], *id);
        }
    }
    if ck.counts {
        if tree.len() != expect.len() {
            violation("len-final", &format!("len() = {} at rest with {} distinct keys", tree.len(), expect.len()));
        }
        if tree.is_empty() != expect.is_empty() {
            violation("empty-final", &format!("is_empty() = {} at rest with {} keys", tree.is_empty(), expect.len()));
        }
        if let Err((kind, msg)) = check_counts(base.len(), &events) {
            violation(kind, &msg);
        }
    }
    #[cfg(masstree_verif)]
    if ck.walk {
        match report::catch(|| tree.walk()) {
            Ok(Ok(w)) => {
                report::count("nodes_walked", (w.leaves + w.internodes) as u64);
                report::distinct("shapes", w.shape);
                if w.entries.len() != expect.len() || w.entries.iter().zip(&expect).any(|((a, x), (b, y))| a != b || x != y) {
                    let missing: Vec<String> = expect.keys().filter(|k| !w.entries.contains_key(**k)).map(|k| hex(k)).collect();
                    let extra: Vec<String> = w.entries.keys().filter(|k| !expect.contains_key(k.as_slice())).map(|k| hex(k)).collect();
                    violation("structure", &format!("entries in the tree differ from the keys inserted: missing {missing:?}, extra {extra:?}, or wrong values"));
                }
            }
            Ok(Err(e)) => violation("structure", &e),
            Err(m) => violation("structure", &format!("walking the tree panicked: {m}")),
        }
    }
    if ck.drops && S::DROPS {
        for (k, id) in &expect {
            if !val::is_live(*id) {
                violation("early-drop", &format!("the current value v{id} of {} has been dropped", hex(k)));
            }
        }
    }
    let kept = keep.into_inner().unwrap();
    for (id, o) in &kept {
        if S::id(o) != *id {
            violation("handle-changed", &format!("an owned result changed from v{id} to v{}", S::id(o)));
        }
    }
    // half of the handles outlive the tree
    let (a, b): (Vec<_>, Vec<_>) = kept.into_iter().enumerate().partition(|(i, _)| i % 2 == 0);
    drop(a);
    drop(tree);
    for (_, (id, o)) in &b {
        if S::id(o) != *id {
            violation("handle-changed", &format!("an owned result changed from v{id} to v{} when the tree was dropped", S::id(o)));
        }
    }
    drop(b);
    if ck.drops && S::DROPS {
        use std::sync::atomic::Ordering::SeqCst;
        let bad = val::BAD_DROP.load(SeqCst);
        let (c, d) = (val::CREATED.load(SeqCst), val::DROPPED.load(SeqCst));
        if bad != 0 {
            violation("double-drop", &format!("value v{bad} was dropped twice or damaged"));
        }
        if c != d {
            let leaked: Vec<u64> = (1..val::last_id()).filter(|&i| val::is_live(i)).collect();
            violation("leak", &format!("{c} values were handed in, {d} dropped after the tree and all handles are gone; leaked ids {leaked:?}"));
        }
        report::count("values_tracked", c);
    }
    report::count("events", events.len() as u64);
    info
}

fn run_one(sc: &Scenario, strat: Strategy, seed: u64, ck: &Checks) -> sched::RunInfo {
    if sc.inline {
        execute::<MassTree24Inline<Cv>>(sc, strat, seed, ck)
    } else {
        execute::<MassTree<Val>>(sc, strat, seed, ck)
    }
}

pub fn main(args: &Args) {
    crate::alloc::set_poison(args.get("poison", 1) == 1);
    let seed = args.get("seed", 1);
    let iters = args.get("iters", u64::MAX);
    let ms = args.get("ms", 10_000);
    let mode = args.str("mode", "mixed").to_string();
    let focus = args.str("focus", "all").to_string();
    let weak = args.get("weak", 0) == 1;
    let mut ck = Checks {
        walk: args.get("walk", 1) == 1,
        counts: args.get("counts", 1) == 1,
        drops: args.get("drops", 1) == 1,
        weak: None,
    };
    let genr = Gen::new(seed, &focus, args.get("small", 0) == 1);
    let only = args.map.get("only").and_then(|s| s.parse::<u64>().ok());
    let first = only.unwrap_or(args.get("from", 0));
    let mut i = first;
    let end = only.map_or(iters, |o| o + 1);
    while i < end {
        if only.is_none() && report::elapsed_ms() > ms {
            break;
        }
        report::begin_iter(i);
        let mut rng = Rng::derive(seed, 2, i);
        let marathon = sched::HOOKED && mode != "free" && args.get("small", 0) == 0 && i % 500 == 250;
        let siege = !marathon && sched::HOOKED && mode != "free" && args.get("small", 0) == 0 && i % 10 == 7;
        let collide = !marathon && !siege && sched::HOOKED && mode != "free" && i % 10 == 3;
        let duel = !marathon && !siege && sched::HOOKED && mode != "free" && i % 5 < 2;
        let (sc, mut fixed) = if marathon {
            genr.marathon(&mut rng)
        } else if siege {
            genr.siege(&mut rng)
        } else if collide {
            (genr.collide(&mut rng), vec![])
        } else if duel {
            genr.duel(&mut rng)
        } else {
             (genr.scenario(&mut rng), vec![])
        };
        report::scenario(if marathon || siege { sc.brief() } else { sc.describe() });
        let free = !collide && fixed.is_empty() && (mode == "free" || (mode == "mixed" && rng.chance(1, 8)));
        let mut est = 200 * sc.programs.iter().map(Vec::len).sum::<usize>() as u64;
        // the same scenario under several schedules
        let reps = if !fixed.is_empty() { fixed.len() } else if collide { 25 } else if free { 3 } else { 8 };
        for r in 0..reps {
            let strat = if let Some(s) = fixed.pop() {
                s
            } else if r == 0 && !free && sched::HOOKED {
                let mut tail: Vec<usize> = (0..sc.programs.len()).collect();
                if collide {
                    tail.reverse();
                }
                Strategy::Segments { segs: vec![], tail }
            } else if collide {
                genr.collision(&mut rng, est.saturating_sub(30).max(50))
            } else {
                genr.strategy(&mut rng, &sc, est, if free { "free" } else { "controlled" })
            };
            ck.weak = (weak && !matches!(strat, Strategy::Free { .. })).then(|| weak::Weak::generate(&mut rng));
            report::scenario(format!("{}  schedule {r}: {} {:?}", sc.brief(), strat.describe(), ck.weak));
            let kind = strat.kind();
            let desc = strat.describe();
            let info = run_one(&sc, strat, rng.next(), &ck);
            if r == 0 && !free {
                est = info.steps;
            }
            report::count("runs", 1);
            report::count(&format!("runs_{kind}"), 1);
            report::count(&format!("event_{}", sc.label), 1);
            report::count("steps", info.steps);
            report::count("preemptions", info.switches);
            report::maximum("steps_in_a_run", info.steps);
            if !free {
                report::distinct("interleavings", info.hash ^ i.wrapping_mul(0x9E37_79B9_7F4A_7C15));
            }
            if i % 50 == 7 && r == 3 {
                report::sample(json!({"iter": i, "schedule": desc, "steps": info.steps, "preemptions": info.switches, "scenario": sc.describe()}));
            }
        }
        i += 1;
    }
    if weak {
        weak::count();
    }
    report::count("scenarios", i - first);
    report::finish();
}
