//! Key families: ordered lists of keys whose insertion in list order drives the
//! tree through particular shapes.
use crate::rng::Rng;
use std::collections::BTreeSet;

pub fn hex(k: &[u8]) -> String {
    let mut s = String::new();
    let n = k.len().min(48);
    for b in &k[..n] {
        s.push_str(&format!("{b:02x}"));
    }
    if k.len() > n {
        s.push_str(&format!("..({})", k.len()));
    }
    format!("[{s}]")
}

pub const FAMILIES: &[&str] = &[
    "flat", "layer", "suffix", "zeros", "edges", "prefixes", "mixed", "long", "twigs", "groups",
];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Order {
    Up,
    Down,
    Random,
    /// Outside in.
    Inward,
    /// Every second key upwards, then the gaps.
    Gaps,
    /// A leaf full of evenly spaced keys, then the gaps in its lower half, then the rest:
    /// the first leaf splits again and again.
    Refill,
}
pub const ORDERS: &[Order] = &[Order::Up, Order::Down, Order::Random, Order::Inward, Order::Gaps, Order::Refill];

fn arrange(mut v: Vec<Vec<u8>>, order: Order, rng: &mut Rng) -> Vec<Vec<u8>> {
    match order {
        Order::Up => v,
        Order::Down => {
            v.reverse();
            v
        }
        Order::Random => {
            rng.shuffle(&mut v);
            v
        }
        Order::Inward => {
            let mut o = vec![];
            let (mut i, mut j) = (0, v.len());
            while i < j {
                o.push(v[i].clone());
                i += 1;
                if i < j {
                    j -= 1;
                    o.push(v[j].clone());
                }
            }
            o
        }
        Order::Refill => {
            let step = (v.len() / 24).max(1);
            let mut o: Vec<Vec<u8>> = v.iter().step_by(step).cloned().collect();
            let rest: Vec<Vec<u8>> = v.iter().enumerate().filter(|(i, _)| i % step != 0).map(|x| x.1.clone()).collect();
            let h = rest.len() / 2;
            let mut low = rest[..h].to_vec();
            rng.shuffle(&mut low);
            o.extend(low);
            o.extend_from_slice(&rest[h..]);
            o
        }
        Order::Gaps => {
            let mut o: Vec<Vec<u8>> = v.iter().step_by(2).cloned().collect();
            o.extend(v.iter().skip(1).step_by(2).cloned());
            o
        }
    }
}

/// About `n` distinct keys of a family, in insertion order.
pub fn family(name: &str, n: usize, order: Order, rng: &mut Rng) -> Vec<Vec<u8>> {
    let mut set: BTreeSet<Vec<u8>> = BTreeSet::new();
    let mut tries = 0;
    match name {
        "flat" => {
            let stride = [1u64, 2, 256, 0x1_0000_0000_0001][rng.below(4)];
            let base = [0u64, 1, 0x7FFF_FFFF_FFFF_FF00, 0x6161_6161_6161_6161][rng.below(4)];
            for i in 0..n as u64 {
                set.insert(base.wrapping_add(i.wrapping_mul(stride)).to_be_bytes().to_vec());
            }
        }
        "layer" => {
            // one or more full slices shared by all keys
            let d = rng.range(1, 4);
            let p: Vec<u8> = (0..d * 8).map(|_| rng.next() as u8).collect();
            let tail = rng.below(3);
            for i in 0..n as u64 {
                let mut k = p.clone();
                k.extend((i * 3 + 1).to_be_bytes());
                match tail {
                    0 => {}
                    1 => k.truncate(d * 8 + 8),
                    _ => k.extend(b"sfx"),
                }
                set.insert(k);
            }
        }
        "suffix" => {
            // few slices, many suffixes
            let heads = rng.range(1, 5);
            while set.len() < n && tries < n * 20 {
                tries += 1;
                let mut k = vec![b'a' + rng.below(heads) as u8; 8];
                let l = rng.range(0, 20);
                for _ in 0..l {
                    k.push(*rng.pick(&[0u8, 1, b'x', 0xFF]));
                }
                set.insert(k);
            }
        }
        "zeros" => {
            // keys differing only in trailing zeros: up to ten per slice
            let heads = n / 8 + 1;
            for h in 0..heads {
                let hl = rng.range(0, 3);
                let mut p: Vec<u8> = vec![];
                for _ in 0..hl {
                    p.push(*rng.pick(&[1u8, 2, 3, 0x80, 0xFF]));
                }
                if h > 0 {
                    p.insert(0, (h % 250) as u8 + 1);
                }
                for z in 0..=(9 - p.len().min(9)) {
                    let mut k = p.clone();
                    k.extend(std::iter::repeat_n(0u8, z));
                    set.insert(k);
                }
            }
        }
        "edges" => {
            while set.len() < n && tries < n * 30 {
                tries += 1;
                let l = *rng.pick(&[0usize, 1, 2, 7, 8, 8, 8, 9, 15, 16, 17, 24]);
                let k: Vec<u8> = (0..l)
                    .map(|_| if rng.chance(1, 12) { rng.next() as u8 } else { *rng.pick(&[0u8, 0xFF, 0x80, 0x7F]) })
                    .collect();
                set.insert(k);
            }
        }
        "prefixes" => {
            // all prefixes of a few strings
            while set.len() < n && tries < 50 {
                tries += 1;
                let l = rng.range(8, 40);
                let s: Vec<u8> = (0..l).map(|_| *rng.pick(b"ab\0")).collect();
                for i in 0..=l {
                    set.insert(s[..i].to_vec());
                }
            }
        }
        "mixed" => {
            while set.len() < n && tries < n * 30 {
                tries += 1;
                let l = rng.range(0, 26);
                let k: Vec<u8> = (0..l).map(|_| *rng.pick(b"ab\0\xFFc")).collect();
                set.insert(k);
            }
        }
        "long" => {
            let stem: Vec<u8> = (0..256).map(|i| (i / 8) as u8).collect();
            while set.len() < n && tries < n * 30 {
                tries += 1;
                let cut = *rng.pick(&[0usize, 8, 64, 120, 200, 247, 248, 249, 255, 256]);
                let mut k = stem[..cut].to_vec();
                let l = rng.range(0, 256 - cut);
                for _ in 0..l {
                    k.push(rng.next() as u8 & 3);
                }
                set.insert(k);
            }
        }
        "twigs" => {
            // pairs diverging after several equal slices
            while set.len() < n && tries < n * 30 {
                tries += 1;
                let h = rng.below(n / 4 + 1) as u64;
                let mut k = h.to_be_bytes().to_vec();
                let d = rng.range(0, 5);
                k.extend(vec![b't'; d * 8]);
                k.extend((rng.below(4) as u64).to_le_bytes().iter().take(rng.range(0, 8)));
                set.insert(k);
            }
        }
        "groups" => {
            // full leaves of equal-slice groups: 1..10 keys per slice
            let mut h = 0u64;
            while set.len() < n && tries < n * 4 {
                tries += 1;
                h += 1;
                let b = [(h >> 8) as u8 | 0x40, h as u8 | 1];
                let g = rng.range(1, 10);
                let mut opts: Vec<usize> = (2..=8).collect();
                rng.shuffle(&mut opts);
                for &l in opts.iter().take(g.min(7)) {
                    let mut k = b.to_vec();
                    k.resize(l, 0);
                    set.insert(k);
                }
                if g > 7 {
                    let mut k = b.to_vec();
                    k.resize(8, 0);
                    k.extend(b"suffix-part");
                    set.insert(k);
                }
            }
        }
        _ => panic!("unknown family {name}"),
    }
    let v: Vec<Vec<u8>> = set.into_iter().filter(|k| k.len() <= 256).collect();
    arrange(v, order, rng)
}
