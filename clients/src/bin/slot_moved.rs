//! A value slot whose value is shared but may not be, moved to another thread.
use masstree::LeafValue;
use std::cell::Cell;
use std::sync::Arc;
fn main() {
    let slot: LeafValue<Cell<u64>> = LeafValue::Value(Arc::new(Cell::new(0)));
    let mine = slot.clone_arc();
    let work = |c: &Cell<u64>| {
        for _ in 0..3_000_000 {
            c.set(std::hint::black_box(c.get() + 1));
        }
    };
    let h = std::thread::spawn(move || {
        let slot = slot;
        work(slot.as_value())
    });
    work(&mine);
    h.join().unwrap();
    if mine.get() != 6_000_000 {
        clients::fail("a value was changed by two threads at once");
    }
}
