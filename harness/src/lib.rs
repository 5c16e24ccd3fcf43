#![allow(clippy::all)]
pub mod alloc;
pub mod comp;
pub mod conc;
pub mod grow;
pub mod hist;
pub mod keys;
pub mod mem;
pub mod multi;
pub mod report;
pub mod rng;
pub mod sched;
pub mod seq;
pub mod store;
pub mod val;
pub mod watch;
pub mod weak;
#[cfg(masstree_verif)]
pub mod walk;
