//! P15: key slicing and node searches. `seq`: random and boundary inputs against byte-wise comparison and plain
//! linear scans.
use masstree::internode::InternodeNode;
use masstree::key::{Key, MAX_KEY_LENGTH};
use masstree::ksearch::{self, simd};
use masstree::leaf_trait::TreeLeafNode;
use masstree::permuter::Permuter;
use masstree::{LeafNode24, LeafValue};
use mtv::keys::hex;
use mtv::report::{self, Args, violation};
use mtv::rng::Rng;
use mtv::{comp, sched};
use serde_json::json;
use std::cmp::Ordering;
use std::hash::{DefaultHasher, Hash, Hasher};

#[global_allocator]
static A: mtv::alloc::Counting = mtv::alloc::Counting;

fn key_bytes(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(10) {
        0 => rng.below(3),
        1..4 => rng.below(10),
        4..7 => rng.below(34),
        7 => *rng.pick(&[7usize, 8, 9, 15, 16, 17, 23, 24, 25, 63, 64, 65]),
        8 => *rng.pick(&[247usize, 248, 249, 255, 256]),
        _ => rng.below(MAX_KEY_LENGTH + 1),
    };
    let style = rng.below(4);
    (0..n)
        .map(|i| match style {
            0 => rng.next() as u8,
            1 => *rng.pick(&[0u8, 0, 0, 1, 255]),
            2 => *rng.pick(&[0x7fu8, 0x80, 0xff, 0]),
            _ => b'a' + (i % 2) as u8,
        })
        .collect()
}

fn near_key(b: &[u8], rng: &mut Rng) -> Vec<u8> {
    let mut v = b.to_vec();
    match rng.below(6) {
        0 => {
            v.pop();
        }
        1 if v.len() < MAX_KEY_LENGTH => v.push(*rng.pick(&[0u8, 1, 255])),
        2 | 3 if !v.is_empty() => {
            let i = rng.below(v.len());
            v[i] = *rng.pick(&[0u8, 1, 0x7f, 0x80, 0xff]);
        }
        4 => v.truncate(rng.below(v.len() + 1)),
        _ => {}
    }
    v
}

/// The 8 bytes at `off`, padded with zero bytes, as a number.
fn slice_at(b: &[u8], off: usize) -> u64 {
    let mut x = 0u64;
    for i in 0..8 {
        x = x * 256 + u64::from(*b.get(off + i).unwrap_or(&0));
    }
    x
}

fn check_key(k: &Key, b: &[u8], shift: usize, op: &str) {
    let bad = |what: String| violation("slice-wrong", &format!("key {} after {op} (at slice {shift}): {what}", hex(b)));
    let off = shift * 8;
    let rest = b.len().saturating_sub(off);
    if k.ikey() != slice_at(b, off) {
        bad(format!("ikey {:#x}, expected {:#x}", k.ikey(), slice_at(b, off)));
    }
    if k.len() != b.len() || k.full_data() != b || k.is_empty() != b.is_empty() {
        bad(format!("len {}, is_empty {}, full_data {}", k.len(), k.is_empty(), hex(k.full_data())));
    }
    if k.shift_count() != shift || k.is_shifted() != (shift > 0) || k.current_len() != rest {
        bad(format!("shift_count {}, is_shifted {}, current_len {}, expected {shift}, {rest}", k.shift_count(), k.is_shifted(), k.current_len()));
    }
    let suffix: &[u8] = if rest > 8 { &b[off + 8..] } else { &[] };
    if k.has_suffix() != (rest > 8) || k.suffix() != suffix || k.suffix_len() != suffix.len() {
        bad(format!("suffix {} (length {}, has {}), expected {}", hex(k.suffix()), k.suffix_len(), k.has_suffix(), hex(suffix)));
    }
    if k.suffix_start() != (off + 8).min(b.len()) {
        bad(format!("suffix_start {}, expected {}", k.suffix_start(), (off + 8).min(b.len())));
    }
}

/// What a leaf stores as the length of a key at this layer.
fn keylenx(k: &Key) -> usize {
    if k.has_suffix() { 64 } else { k.current_len() }
}

fn run_keys(rng: &mut Rng) {
    let a = key_bytes(rng);
    let b = if rng.chance(2, 3) { near_key(&a, rng) } else { key_bytes(rng) };
    report::scenario(format!("keys {} and {}", hex(&a), hex(&b)));
    // accessors at every reachable shift position, by every way of getting there
    let mut k = if rng.chance(1, 2) { Key::new(&a) } else { Key::from_suffix(&a) };
    check_key(&k, &a, 0, "new");
    let mut s = 0;
    for _ in 0..rng.range(2, 40) {
        let left = a.len().saturating_sub(8 * s + 1) / 8;
        match rng.below(6) {
            0 if s > 0 => {
                k.unshift();
                s -= 1;
                check_key(&k, &a, s, "unshift");
            }
            1 if rng.chance(1, 4) => {
                k.unshift_all();
                s = 0;
                check_key(&k, &a, s, "unshift_all");
            }
            2 if left > 0 => {
                let n = rng.range(0, left);
                k.shift_by(8 * n);
                s += n;
                check_key(&k, &a, s, "shift_by");
            }
            3..6 if left > 0 => {
                k.shift();
                s += 1;
                check_key(&k, &a, s, "shift");
            }
            _ => {}
        }
        report::count("key_positions_checked", 1);
    }
    // the layered order is the byte-wise order
    let (mut x, mut y) = (Key::new(&a), Key::new(&b));
    let mut layers = 0;
    let got = loop {
        let c = x.compare(y.ikey(), keylenx(&y));
        let r = y.compare(x.ikey(), keylenx(&x));
        if c != r.reverse() {
            violation("key-order", &format!("at slice {layers} of {} and {}: compare gives {c:?} one way and {r:?} the other", hex(&a), hex(&b)));
        }
        if Key::compare_ikey(x.ikey(), y.ikey()) != x.ikey().cmp(&y.ikey()) {
            violation("key-order", &format!("compare_ikey({:#x}, {:#x})", x.ikey(), y.ikey()));
        }
        if c != Ordering::Equal || !x.has_suffix() {
            break c;
        }
        // both continue: the bytes so far agree, and comparing the suffixes decides
        let w = x.suffix().cmp(y.suffix());
        if w != a.cmp(&b) {
            violation("key-order", &format!("keys {} and {} agree up to slice {layers}, but their suffixes compare {w:?}", hex(&a), hex(&b)));
        }
        x.shift();
        y.shift();
        layers += 1;
    };
    if got != a.cmp(&b) {
        violation("key-order", &format!("keys {} and {} compare {got:?} slice by slice, {:?} as bytes", hex(&a), hex(&b), a.cmp(&b)));
    }
    report::maximum("layers_compared", layers + 1);
    // reading a slice at any offset, also past the end
    for _ in 0..8 {
        let off = rng.below(a.len() + 20);
        if Key::read_ikey(&a, off) != slice_at(&a, off) {
            violation("slice-wrong", &format!("read_ikey({}, {off}) = {:#x}, expected {:#x}", hex(&a), Key::read_ikey(&a, off), slice_at(&a, off)));
        }
    }
    let n = rng.below(8).min(a.len());
    if Key::read_ikey_slow(&a[..n]) != slice_at(&a[..n], 0) {
        violation("slice-wrong", &format!("read_ikey_slow({})", hex(&a[..n])));
    }
    let i = pool(rng)[0];
    if Key::from_ikey(i).ikey() != i {
        violation("slice-wrong", &format!("from_ikey({i:#x}).ikey() = {:#x}", Key::from_ikey(i).ikey()));
    }
    let mut h = DefaultHasher::new();
    (&a, &b).hash(&mut h);
    report::distinct("programs", h.finish());
    report::count("key_pairs", 1);
}

/// Values that keys and targets are drawn from.
fn pool(rng: &mut Rng) -> Vec<u64> {
    let mut v = match rng.below(5) {
        // around the sign bit and the ends
        0 => vec![0, 1, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 1],
        // differing in one byte only
        1 => {
            let base = rng.next();
            (0..8).map(|i| base ^ (1 << (8 * i + rng.below(8)))).chain([base]).collect()
        }
        // differing in one 32-bit half only
        2 => {
            let (a, b) = (rng.next() as u32, rng.next() as u32);
            let j = |x: u32, y: u32| u64::from(x) << 32 | u64::from(y);
            vec![j(a, b), j(a, !b), j(!a, b), j(b, a), j(a, a), j(b, b), j(a, b.wrapping_add(1)), j(a.wrapping_add(1), b)]
        }
        3 => (0..12).map(|_| rng.next()).collect(),
        _ => {
            let base = rng.next();
            (0..20).map(|i| base.wrapping_add(i)).collect()
        }
    };
    if rng.chance(1, 3) {
        v.truncate(rng.range(1, 3));
    }
    v
}

fn run_scans(rng: &mut Rng) {
    let p = pool(rng);
    // a window of a longer buffer: what lies outside it must not count
    let before = rng.below(5);
    let n = rng.below(33);
    let after = rng.below(9);
    let target = if rng.chance(1, 5) { rng.next() } else { *rng.pick(&p) };
    let mut buf: Vec<u64> = (0..before + n + after).map(|_| *rng.pick(&p)).collect();
    match rng.below(4) {
        0 => buf.iter_mut().for_each(|x| *x = target),
        // exactly one match, at a random place
        1 if n > 0 => {
            for x in &mut buf[before..before + n] {
                if *x == target {
                    *x = x.wrapping_add(1);
                }
            }
            let i = rng.below(n);
            buf[before + i] = target;
        }
        _ => {}
    }
    if rng.chance(1, 2) {
        // matches all around the window
        buf[..before].fill(target);
        buf[before + n..].fill(target);
    }
    let keys = &buf[before..before + n];
    report::scenario(format!("array {keys:x?} (offset {before}, {after} words after it), target {target:#x}"));
    let want = (0..n).find(|&i| keys[i] == target);
    for (name, got) in [("find_exact_u64", simd::find_exact_u64(keys, target)), ("find_exact_u64_scalar", simd::find_exact_u64_scalar(keys, target))] {
        if got != want {
            violation("scan-wrong", &format!("{name} of {target:#x} in {keys:x?} = {got:?}, expected {want:?}"));
        }
    }
    #[cfg(masstree_verif)]
    if is_x86_feature_detected!("sse4.1") {
        let got = unsafe { simd::verif_sse::find_exact_u64_sse2(keys, target) };
        if got != want {
            violation("scan-wrong", &format!("find_exact_u64_sse2 of {target:#x} in {keys:x?} = {got:?}, expected {want:?}"));
        }
    }
    // sizes up to and beyond the array
    for size in [n, rng.below(n + 1), n + 1 + rng.below(8)] {
        let m = size.min(n);
        let le = keys[..m].iter().filter(|k| **k <= target).count();
        for (name, got) in [("count_le_u64", simd::count_le_u64(keys, size, target)), ("count_le_u64_scalar", simd::count_le_u64_scalar(keys, size, target))] {
            if got != le {
                violation("scan-wrong", &format!("{name} of {target:#x} in {keys:x?} (size {size}) = {got}, expected {le}"));
            }
        }
        let mut mask = 0u32;
        for (i, k) in keys[..m].iter().enumerate() {
            if *k == target {
                mask |= 1 << i;
            }
        }
        #[cfg(masstree_verif)]
        if is_x86_feature_detected!("sse4.1") {
            let got = unsafe { simd::verif_sse::find_all_matches_u64_sse2(keys, size, target) };
            if got != mask {
                violation("scan-wrong", &format!("find_all_matches_u64_sse2 of {target:#x} in {keys:x?} (length {size}) = {got:#b}, expected {mask:#b}"));
            }
        }
        for (name, got) in [("find_all_matches_u64", simd::find_all_matches_u64(keys, size, target)), ("find_all_matches_u64_scalar", simd::find_all_matches_u64_scalar(keys, size, target))] {
            if got != mask {
                violation("scan-wrong", &format!("{name} of {target:#x} in {keys:x?} (length {size}) = {got:#b}, expected {mask:#b}"));
            }
        }
    }
    // a leaf's own keys
    if rng.chance(1, 4) {
        let l: Box<LeafNode24<LeafValue<u64>>> = LeafNode24::new();
        let ks: Vec<u64> = (0..24).map(|_| *rng.pick(&p)).collect();
        for (i, k) in ks.iter().enumerate() {
            l.set_ikey(i, *k);
        }
        let mask = ks.iter().enumerate().filter(|(_, k)| **k == target).fold(0u32, |m, (i, _)| m | 1 << i);
        if l.load_all_ikeys()[..] != ks[..] {
            violation("scan-wrong", &format!("load_all_ikeys = {:x?}, stored {ks:x?}", l.load_all_ikeys()));
        }
        for (name, got) in [("find_ikey_matches_leaf24", ksearch::find_ikey_matches_leaf24(target, &l)), ("find_ikey_matches", TreeLeafNode::find_ikey_matches(&*l, target))] {
            if got != mask {
                violation("scan-wrong", &format!("{name} of {target:#x} in {ks:x?} = {got:#b}, expected {mask:#b}"));
            }
        }
        report::count("leaf_scans", 1);
    }
    let mut h = DefaultHasher::new();
    (keys, target).hash(&mut h);
    report::distinct("programs", h.finish());
    report::count("array_scans", 1);
}

fn bounds<const W: usize>(rng: &mut Rng) {
    // strictly ascending keys in logical order
    let mut p: Vec<u64> = (0..rng.range(1, 4)).flat_map(|_| pool(rng)).collect();
    p.sort_unstable();
    p.dedup();
    let n = rng.below(W + 1).min(p.len());
    while p.len() > n {
        let i = rng.below(p.len());
        p.remove(i);
    }
    let mut targets = vec![0, u64::MAX, 1 << 63, (1 << 63) - 1, rng.next()];
    for k in &p {
        targets.extend([*k, k.wrapping_add(1), k.wrapping_sub(1)]);
    }
    // the keys lie in arbitrary slots, with an arbitrary order
    let mut slots: Vec<usize> = (0..W).collect();
    rng.shuffle(&mut slots);
    let mut perm = Permuter::<W>::empty();
    for i in 0..n {
        let got = perm.insert_from_back(i);
        if let Some(j) = slots.iter().position(|s| *s == got) {
            slots.swap(i, j);
        }
    }
    if rng.chance(1, 2) && n > 1 {
        // a different assignment of slots to positions
        for _ in 0..n {
            let (i, j) = (rng.below(n), rng.below(n));
            perm.exchange(i, j);
        }
        for (i, s) in slots.iter_mut().enumerate().take(n) {
            *s = perm.get(i);
        }
    }
    let mut at = vec![0u64; W];
    for i in 0..n {
        at[perm.get(i)] = p[i];
    }
    report::scenario(format!("width {W}, keys {p:x?} in slots {:?}", (0..n).map(|i| perm.get(i)).collect::<Vec<_>>()));
    let node: Box<InternodeNode<LeafValue<u64>, W>> = InternodeNode::new(0);
    for (i, k) in p.iter().enumerate() {
        node.set_ikey(i, *k);
    }
    // stale keys beyond the size must not count
    for i in n..W {
        node.set_ikey(i, *rng.pick(&targets));
    }
    node.set_nkeys(n as u8);
    for t in targets {
        let cmp = |s: usize| t.cmp(&at[s]);
        let upper = p.iter().filter(|k| **k <= t).count();
        let lower = p.iter().filter(|k| **k < t).count();
        let found = p.get(lower) == Some(&t);
        for (name, r) in [("lower_bound_by", ksearch::lower_bound_by(n, perm, cmp)), ("lower_bound_linear_by", ksearch::lower_bound_linear_by(n, perm, cmp))] {
            let slot = found.then(|| perm.get(lower));
            if r.i != lower || r.is_found() != found || r.try_slot() != slot {
                violation("bound-wrong", &format!("width {W}: {name} of {t:#x} in {p:x?} = {r:?}, expected position {lower}, slot {slot:?}"));
            }
        }
        for (name, r) in [
            ("upper_bound_by", ksearch::upper_bound_by(n, perm, cmp)),
            ("upper_bound_linear_by", ksearch::upper_bound_linear_by(n, perm, cmp)),
            ("upper_bound_internode", ksearch::upper_bound_internode(t, &*node)),
            ("upper_bound_internode_direct", ksearch::upper_bound_internode_direct(t, &*node)),
            ("upper_bound_internode_generic", ksearch::upper_bound_internode_generic::<LeafValue<u64>, InternodeNode<LeafValue<u64>, W>>(t, &*node)),
        ] {
            if r != upper {
                violation("bound-wrong", &format!("width {W}: {name} of {t:#x} in {p:x?} = {r}, expected {upper}"));
            }
        }
        if node.find_insert_position(t) != lower {
            violation("bound-wrong", &format!("width {W}: find_insert_position of {t:#x} in {p:x?} = {}, expected {lower}", node.find_insert_position(t)));
        }
        report::count("bound_searches", 1);
    }
    let mut h = DefaultHasher::new();
    (W, &p, slots).hash(&mut h);
    report::distinct("programs", h.finish());
}

fn run_seq(rng: &mut Rng, iter: u64) {
    for _ in 0..20 {
        run_keys(rng);
        run_scans(rng);
    }
    bounds::<1>(rng);
    bounds::<2>(rng);
    bounds::<3>(rng);
    bounds::<4>(rng);
    bounds::<7>(rng);
    bounds::<8>(rng);
    bounds::<14>(rng);
    bounds::<15>(rng);
    bounds::<15>(rng);
    if iter % 500 == 3 {
        let a = key_bytes(rng);
        let p = pool(rng);
        report::sample(json!({"iter": iter, "a key drawn": hex(&a), "a value pool drawn": format!("{p:x?}")}));
    }
}

fn main() {
    let (engine, args): (String, Args) = Args::parse();
    report::init(&engine, &args);
    sched::install();
    match engine.as_str() {
        "seq" => comp::drive(&args, 61, run_seq),
        _ => {
            eprintln!("unknown engine {engine}");
            std::process::exit(2)
        }
    }
}
