//! A reference kept while its guard is refreshed.
use clients::{Val, displace};
use masstree::MassTree;
use seize::Guard;
fn main() {
    let t = MassTree::new();
    let _ = t.insert(b"key", Val::new(7));
    let mut g = t.guard();
    let r = t.get_ref(b"key", &g).unwrap();
    g.refresh();
    displace(&t, b"key");
    g.refresh();
    if r.get() != 7 {
        clients::fail("the value behind a reference changed");
    }
}
