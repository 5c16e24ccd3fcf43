//! Values with a count that is not atomic, shared by two threads.
use masstree::MassTree;
use std::rc::Rc;
fn main() {
    let t: MassTree<Rc<u64>> = MassTree::new();
    let mine = Rc::new(1);
    let _ = t.insert(b"key", Rc::clone(&mine));
    let work = |t: &MassTree<Rc<u64>>| {
        for _ in 0..3_000_000 {
            let r = Rc::clone(&*t.get(b"key").unwrap());
            drop(r);
        }
    };
    std::thread::scope(|s| {
        s.spawn(|| work(&t));
        s.spawn(|| work(&t));
    });
    if Rc::strong_count(&mine) != 2 {
        clients::fail("a count was updated by two threads at once");
    }
}
