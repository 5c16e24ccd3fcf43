//! A value slot whose value may not be shared, shared by two threads.
use masstree::LeafValue;
use std::cell::Cell;
use std::sync::Arc;
fn main() {
    let slot: LeafValue<Cell<u64>> = LeafValue::Value(Arc::new(Cell::new(0)));
    let work = |s: &LeafValue<Cell<u64>>| {
        for _ in 0..3_000_000 {
            let c = s.as_value();
            c.set(std::hint::black_box(c.get() + 1));
        }
    };
    std::thread::scope(|s| {
        s.spawn(|| work(&slot));
        s.spawn(|| work(&slot));
    });
    if slot.as_value().get() != 6_000_000 {
        clients::fail("a value was changed by two threads at once");
    }
}
