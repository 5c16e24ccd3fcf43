//! Copyable values that refer to something that may not be shared.
use masstree::MassTree24Inline;
use std::cell::Cell;
fn main() {
    let t: MassTree24Inline<&'static Cell<u64>> = MassTree24Inline::new();
    let c: &'static Cell<u64> = Box::leak(Box::new(Cell::new(0)));
    let _ = t.insert(b"key", c);
    let work = |t: &MassTree24Inline<&'static Cell<u64>>| {
        let c = t.get(b"key").unwrap();
        for _ in 0..3_000_000 {
            c.set(std::hint::black_box(c.get() + 1));
        }
    };
    std::thread::scope(|s| {
        s.spawn(|| work(&t));
        s.spawn(|| work(&t));
    });
    if c.get() != 6_000_000 {
        clients::fail("a value was changed by two threads at once");
    }
}
