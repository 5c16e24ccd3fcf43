//! History checker. Written values are unique, so each insert names, through
//! the previous value it reports, its immediate predecessor: the writes of a key
//! form a chain, and what is left to check is that the chain, with the lookups
//! placed between the writes they observed, respects real time. That check is
//! exact (greedy earliest placement along the chain).
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum What {
    /// Insert of value id, reporting the previous value.
    Insert { id: u64, prev: Option<u64> },
    /// Lookup.
    Get { found: Option<u64> },
    /// len()
    Len { n: usize },
    /// is_empty()
    Empty { yes: bool },
}

#[derive(Clone, Copy, Debug)]
pub struct Event {
    pub thread: usize,
    pub key: usize,
    pub what: What,
    pub call: u64,
    pub ret: u64,
}

/// Kind of failure and explanation.
pub type Fail = (&'static str, String);

fn show(keys: &[Vec<u8>], k: usize) -> String {
    format!("key#{k}={}", crate::keys::hex(&keys[k]))
}

/// Check one key's history. `init`/`last`: value before and after the run.
pub fn check_key(
    k: usize,
    keys: &[Vec<u8>],
    init: Option<u64>,
    last: Option<u64>,
    evs: &[Event],
) -> Result<(), Fail> {
    let mut by_prev: HashMap<Option<u64>, &Event> = HashMap::new();
    let mut ids: HashMap<u64, &Event> = HashMap::new();
    for e in evs {
        if let What::Insert { id, .. } = e.what {
            ids.insert(id, e);
        }
    }
    for e in evs {
        if let What::Insert { id, prev } = e.what {
            if let Some(p) = prev
                && Some(p) != init
                && !ids.contains_key(&p)
            {
                return Err((
                    "displaced-foreign",
                    format!("{}: insert of v{id} reports previous value v{p}, which was never stored under this key: {e:?}", show(keys, k)),
                ));
            }
            if prev == Some(id) {
                return Err(("displaced-self", format!("{}: insert of v{id} reports itself as previous", show(keys, k))));
            }
            if prev.is_none() && init.is_some() {
                return Err((
                    "displaced-lost",
                    format!("{}: insert of v{id} reports the key as new, but v{} was stored before the run: {e:?}", show(keys, k), init.unwrap()),
                ));
            }
            if let Some(o) = by_prev.insert(prev, e) {
                return Err((
                    "displaced-twice",
                    format!("{}: previous value {prev:?} reported by two inserts: {o:?} and {e:?}", show(keys, k)),
                ));
            }
        }
    }
    // chain
    let mut cur = init;
    let mut order: Vec<&Event> = vec![];
    while let Some(e) = by_prev.get(&cur) {
        order.push(e);
        let What::Insert { id, .. } = e.what else { unreachable!() };
        cur = Some(id);
        if order.len() > ids.len() {
            break;
        }
    }
    if order.len() != ids.len() {
        return Err((
            "displaced-lost",
            format!("{}: the inserts do not form one chain from {init:?}: {:?}", show(keys, k), evs),
        ));
    }
    if last != cur {
        return Err((
            "final-value",
            format!("{}: at rest the tree holds {last:?}, but the last insert stored {cur:?}; history {evs:?}", show(keys, k)),
        ));
    }
    // real time
    let mut reads: HashMap<Option<u64>, Vec<&Event>> = HashMap::new();
    for e in evs {
        if let What::Get { found } = e.what {
            reads.entry(found).or_default().push(e);
        }
    }
    for f in reads.keys() {
        if let Some(v) = f
            && Some(*v) != init
            && !ids.contains_key(v)
        {
            return Err((
                "foreign-value",
                format!("{}: lookup found v{v}, never stored under this key: {:?}", show(keys, k), reads[f][0]),
            ));
        }
        if f.is_none() && init.is_some() {
            return Err((
                "lost-key",
                format!("{}: lookup found nothing although the key was stored before the run: {:?}; history {evs:?}", show(keys, k), reads[f][0]),
            ));
        }
    }
    let mut t = 0u64; // earliest time at which the current state can begin
    let mut stateid = init;
    let mut i = 0;
    loop {
        let mut nt = t;
        if let Some(rs) = reads.get(&stateid) {
            for r in rs {
                if r.ret < t {
                    let kind = if stateid.is_some() { "stale-order" } else { "lost-key" };
                    return Err((
                        kind,
                        format!("{}: lookup {r:?} observed {stateid:?} before it can have been stored (earliest {t}); history {evs:?}", show(keys, k)),
                    ));
                }
                nt = nt.max(r.call);
            }
        }
        if i == order.len() {
            break;
        }
        let w = order[i];
        nt = nt.max(w.call);
        if w.ret < nt {
            let late = stateid.is_none();
            return Err((
                if late { "lost-key" } else { "stale-value" },
                format!("{}: {w:?} completed, yet a later operation still observed {stateid:?}; history {evs:?}", show(keys, k)),
            ));
        }
        t = nt;
        let What::Insert { id, .. } = w.what else { unreachable!() };
        stateid = Some(id);
        i += 1;
    }
    Ok(())
}

/// Check len/is_empty observations. `base`: number of keys before the run.
pub fn check_counts(base: usize, evs: &[Event]) -> Result<(), Fail> {
    let firsts: Vec<&Event> =
        evs.iter().filter(|e| matches!(e.what, What::Insert { prev: None, .. })).collect();
    let mut lens: Vec<(&Event, usize)> = vec![];
    for e in evs {
        match e.what {
            What::Len { n } => {
                let lo = base + firsts.iter().filter(|f| f.ret < e.call).count();
                let hi = base + firsts.iter().filter(|f| f.call < e.ret).count();
                if n < lo || n > hi {
                    return Err(("len-bounds", format!("len() = {n}, must lie in {lo}..={hi}: {e:?}; history {evs:?}")));
                }
                lens.push((e, n));
            }
            What::Empty { yes } => {
                let lo = base + firsts.iter().filter(|f| f.ret < e.call).count();
                let hi = base + evs.iter().filter(|f| matches!(f.what, What::Insert { .. }) && f.call < e.ret).count();
                if yes && lo > 0 {
                    return Err(("empty-wrong", format!("is_empty() although {lo} keys were inserted before: {e:?}; history {evs:?}")));
                }
                if !yes && hi == 0 {
                    return Err(("empty-wrong", format!("not is_empty() before any insert began: {e:?}")));
                }
            }
            _ => {}
        }
    }
    for (a, n) in &lens {
        for (b, m) in &lens {
            if a.ret < b.call && m < n {
                return Err(("len-decreased", format!("len() went from {n} ({a:?}) to {m} ({b:?})")));
            }
        }
    }
    Ok(())
}
