//! The same through the index flavour.
use masstree::MassTreeIndex;
use std::cell::Cell;
fn main() {
    let mut t: MassTreeIndex<&'static Cell<u64>> = MassTreeIndex::new();
    let c: &'static Cell<u64> = Box::leak(Box::new(Cell::new(0)));
    let _ = t.insert(b"key", c);
    let work = |t: &MassTreeIndex<&'static Cell<u64>>| {
        let c = t.get(b"key").unwrap();
        for _ in 0..3_000_000 {
            c.set(std::hint::black_box(c.get() + 1));
        }
    };
    std::thread::scope(|s| {
        s.spawn(|| work(&t));
        s.spawn(|| work(&t));
    });
    if c.get() != 6_000_000 {
        clients::fail("a value was changed by two threads at once");
    }
}
