//! Values that borrow from something that goes before the tree does.
use masstree::MassTree;
struct Holder<'a>(&'a str);
impl Drop for Holder<'_> {
    fn drop(&mut self) {
        if self.0 != "still here" {
            clients::fail("a value was dropped after what it borrows");
        }
    }
}
fn main() {
    let t: MassTree<Holder<'_>> = MassTree::new();
    {
        let s = String::from("still here");
        let _ = t.insert(b"key", Holder(&s));
        let _ = t.insert(b"key", Holder(&s));
    }
    drop(t);
}
