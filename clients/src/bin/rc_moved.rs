//! A tree of values that must stay on their thread, moved to another.
use masstree::MassTree;
use std::rc::Rc;
fn main() {
    let t: MassTree<Rc<u64>> = MassTree::new();
    let mine = Rc::new(1);
    let _ = t.insert(b"key", Rc::clone(&mine));
    let h = std::thread::spawn(move || {
        for _ in 0..3_000_000 {
            let r = Rc::clone(&*t.get(b"key").unwrap());
            drop(r);
        }
    });
    for _ in 0..3_000_000 {
        drop(Rc::clone(&mine));
    }
    h.join().unwrap();
    if Rc::strong_count(&mine) != 1 {
        clients::fail("a count was updated by two threads at once");
    }
}
