//! A reference written through.
use clients::Val;
use masstree::MassTree;
fn main() {
    let t = MassTree::new();
    let _ = t.insert(b"key", Val::new(7));
    let g = t.guard();
    let a: &mut Val = t.get_ref(b"key", &g).unwrap();
    let b: &mut Val = t.get_ref(b"key", &g).unwrap();
    std::mem::swap(&mut a.1, &mut b.1);
    a.0 = 3;
    b.get();
}
