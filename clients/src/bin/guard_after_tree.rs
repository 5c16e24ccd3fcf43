//! A guard kept after its tree is gone.
use clients::Val;
use masstree::MassTree;
fn main() {
    let g;
    {
        let t = MassTree::new();
        let _ = t.insert(b"key", Val::new(7));
        g = t.guard();
        let _ = t.insert_with_guard(b"key", Val::new(8), &g);
    }
    seize::Guard::flush(&g);
    drop(g);
}
