//! A reference kept after its tree is gone.
use clients::Val;
use masstree::MassTree;
fn main() {
    let t = MassTree::new();
    let _ = t.insert(b"key", Val::new(7));
    let g = t.guard();
    let r = t.get_ref(b"key", &g).unwrap();
    drop(t);
    if r.get() != 7 {
        clients::fail("the value behind a reference changed");
    }
}
