//! A by-value slot that refers to something that may not be shared, moved to another thread.
use masstree::LeafValueIndex;
use std::cell::Cell;
fn main() {
    let cell: &'static Cell<u64> = Box::leak(Box::new(Cell::new(0)));
    let slot: LeafValueIndex<&'static Cell<u64>> = LeafValueIndex::Value(cell);
    let work = |c: &Cell<u64>| {
        for _ in 0..3_000_000 {
            c.set(std::hint::black_box(c.get() + 1));
        }
    };
    let h = std::thread::spawn(move || {
        let slot = slot;
        if let LeafValueIndex::Value(c) = slot {
            work(c);
        }
    });
    work(cell);
    h.join().unwrap();
    if cell.get() != 6_000_000 {
        clients::fail("a value was changed by two threads at once");
    }
}
