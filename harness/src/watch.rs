//! Wall-clock watchdog for engines that run on plain threads: reports a hang when
//! nothing has been completed for a long time.
use crate::report;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::Duration;

static TICKS: AtomicU64 = AtomicU64::new(0);

/// Something was completed.
pub fn tick() {
    TICKS.fetch_add(1, Relaxed);
}

pub fn start() {
    std::thread::spawn(|| {
        let mut last = u64::MAX;
        let mut same = 0;
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let t = TICKS.load(Relaxed);
            if t == last {
                same += 1;
            } else {
                same = 0;
                last = t;
            }
            if same > 2 * report::run_timeout() {
                report::hang(&format!("an operation has not returned for {} s", same / 2));
            }
        }
    });
}
