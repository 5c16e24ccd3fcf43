//! What the hostile clients store: values that spoil themselves when dropped.
#![allow(clippy::all)]
use masstree::MassTree;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

pub static DROPS: AtomicU64 = AtomicU64::new(0);

pub struct Val(pub u64, pub Box<u64>);
impl Val {
    pub fn new(x: u64) -> Self {
        Val(x, Box::new(!x))
    }
    pub fn get(&self) -> u64 {
        let (a, b) = unsafe { (std::ptr::read_volatile(&self.0), std::ptr::read_volatile(&*self.1)) };
        if a != !b {
            fail("a reference shows a value that has been dropped");
        }
        a
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        DROPS.fetch_add(1, SeqCst);
        unsafe {
            std::ptr::write_volatile(&mut *self.1, 0xDEAD);
            std::ptr::write_volatile(&mut self.0, 0xDEAD);
        }
    }
}

pub fn fail(what: &str) -> ! {
    println!("FAULT: {what}");
    std::process::exit(3)
}

/// Displace whatever `key` holds, and have everything reclaimed that may be.
pub fn displace(t: &MassTree<Val>, key: &[u8]) {
    for i in 0..300 {
        let _ = t.insert(key, Val::new(1000 + i));
        let g = t.guard();
        seize::Guard::flush(&g);
    }
}
