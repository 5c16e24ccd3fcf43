//! A reference kept after its guard is gone.
use clients::{Val, displace};
use masstree::MassTree;
fn main() {
    let t = MassTree::new();
    let _ = t.insert(b"key", Val::new(7));
    let r = {
        let g = t.guard();
        t.get_ref(b"key", &g).unwrap()
    };
    displace(&t, b"key");
    if r.get() != 7 {
        clients::fail("the value behind a reference changed");
    }
}
