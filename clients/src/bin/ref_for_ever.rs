//! A reference asked for as if it lived for ever.
use clients::{Val, displace};
use masstree::MassTree;
fn keep(t: &MassTree<Val>) -> &'static Val {
    let g = t.guard();
    t.get_ref(b"key", &g).unwrap()
}
fn main() {
    let t = MassTree::new();
    let _ = t.insert(b"key", Val::new(7));
    let r = keep(&t);
    displace(&t, b"key");
    drop(t);
    if r.get() != 7 {
        clients::fail("the value behind a reference changed");
    }
}
