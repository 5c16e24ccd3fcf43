//! Shared pieces of the component engines: the iteration loop and small schedules.
use crate::report::{self, Args, violation};
use crate::rng::Rng;
use crate::sched::{self, Class, Strategy};
use crate::watch::tick;

/// A schedule for `n` short jobs of about `est` accesses altogether.
pub fn strategy(rng: &mut Rng, n: usize, est: u64) -> Strategy {
    if !sched::HOOKED || rng.chance(1, 20) {
        return Strategy::Free { den: *rng.pick(&[3usize, 10, 50]), spins: *rng.pick(&[20usize, 200, 1000]) };
    }
    let est = est.max(10);
    match rng.below(8) {
        0 | 1 => Strategy::Walk { den: *rng.pick(&[2usize, 3, 5, 10, 30]) },
        2 | 3 => Strategy::Pct { changes: (0..rng.range(1, 4)).map(|_| 1 + rng.below(est as usize) as u64).collect() },
        4 => Strategy::Stall { den: *rng.pick(&[3usize, 10]), victim: rng.below(n), at: 1 + rng.below(est as usize) as u64 },
        _ => {
            let mut segs = vec![];
            let mut t = rng.below(n);
            for _ in 0..rng.range(1, 6) {
                segs.push((t, 1 + rng.below(est as usize / n + 8) as u64, *rng.pick(&[Class::Any, Class::Any, Class::W])));
                t = (t + 1 + rng.below(n.max(2) - 1)) % n;
            }
            let mut tail: Vec<usize> = (0..n).collect();
            rng.shuffle(&mut tail);
            Strategy::Segments { segs, tail }
        }
    }
}

/// Run `f` for iteration after iteration until the time is up.
pub fn drive(args: &Args, salt: u64, mut f: impl FnMut(&mut Rng, u64)) -> ! {
    crate::alloc::set_poison(args.get("poison", 1) == 1);
    let seed = args.get("seed", 1);
    let ms = args.get("ms", 10_000);
    let iters = args.get("iters", u64::MAX);
    let only = args.map.get("only").and_then(|s| s.parse::<u64>().ok());
    if args.get("watch", 1) == 1 {
        crate::watch::start();
    }
    let weak = args.get("weak", 0) == 1;
    crate::weak::ALL.store(weak, std::sync::atomic::Ordering::Relaxed);
    let mut i = only.unwrap_or(args.get("from", 0));
    let end = only.map_or(iters, |o| o + 1);
    while i < end && (only.is_some() || report::elapsed_ms() <= ms) {
        report::begin_iter(i);
        let mut rng = Rng::derive(seed, salt, i);
        if let Err(m) = report::catch(|| f(&mut rng, i)) {
            violation("panic", &format!("a valid operation panicked: {m}"));
        }
        report::count("runs", 1);
        tick();
        i += 1;
    }
    if weak {
        crate::weak::count();
    }
    report::finish();
}
