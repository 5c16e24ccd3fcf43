//! A correct client: must be accepted and run without a fault.
use clients::{Val, displace};
use masstree::{MassTree, MassTree24Inline};
fn main() {
    let t = MassTree::new();
    let _ = t.insert(b"key", Val::new(7));
    let h = t.get(b"key").unwrap();
    {
        let g = t.guard();
        let r = t.get_ref(b"key", &g).unwrap();
        displace(&t, b"key");
        assert_eq!(r.get(), 7);
    }
    assert_eq!(h.get(), 7);
    drop(t);
    assert_eq!(h.get(), 7);
    let t = MassTree24Inline::<u64>::new();
    std::thread::scope(|s| {
        s.spawn(|| t.insert(b"a", 1));
        s.spawn(|| t.insert(b"b", 2));
    });
    assert_eq!(t.len(), 2);
}
