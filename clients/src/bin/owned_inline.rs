//! Values with a destructor in the storage mode that copies them.
use clients::Val;
use masstree::MassTree24Inline;
fn main() {
    let t: MassTree24Inline<Val> = MassTree24Inline::new();
    let _ = t.insert(b"key", Val::new(7));
    let a = t.get(b"key").unwrap();
    let b = t.get(b"key").unwrap();
    drop(a);
    b.get();
}
