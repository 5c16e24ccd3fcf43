//! A reference into inline storage kept after its guard is gone.
use masstree::MassTree24Inline;
fn main() {
    let t = MassTree24Inline::<u64>::new();
    let _ = t.insert(b"key", 7);
    let r = {
        let g = t.guard();
        t.get_ref(b"key", &g).unwrap()
    };
    for i in 0..300 {
        let _ = t.insert(b"key", 1000 + i);
        let g = t.guard();
        seize::Guard::flush(&g);
    }
    if unsafe { std::ptr::read_volatile(r) } != 7 {
        clients::fail("the value behind a reference changed");
    }
}
