//! Values that may not be shared, shared by two threads.
use masstree::MassTree;
use std::cell::Cell;
fn main() {
    let t: MassTree<Cell<u64>> = MassTree::new();
    let _ = t.insert(b"key", Cell::new(0));
    let work = |t: &MassTree<Cell<u64>>| {
        let g = t.guard();
        let c = t.get_ref(b"key", &g).unwrap();
        for _ in 0..3_000_000 {
            c.set(std::hint::black_box(c.get() + 1));
        }
    };
    std::thread::scope(|s| {
        s.spawn(|| work(&t));
        s.spawn(|| work(&t));
    });
    if t.get(b"key").unwrap().get() != 6_000_000 {
        clients::fail("a value was changed by two threads at once");
    }
}
