//! A reference asked for as if it lived as long as the tree.
use clients::{Val, displace};
use masstree::MassTree;
fn keep(t: &MassTree<Val>) -> &Val {
    let g = t.guard();
    t.get_ref(b"key", &g).unwrap()
}
fn main() {
    let t = MassTree::new();
    let _ = t.insert(b"key", Val::new(7));
    let r = keep(&t);
    displace(&t, b"key");
    if r.get() != 7 {
        clients::fail("the value behind a reference changed");
    }
}
