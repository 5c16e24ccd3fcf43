//! A suffix kept while the bag it comes from is changed.
use masstree::SuffixBag;
fn main() {
    let mut b = SuffixBag::<24>::new();
    b.assign(0, b"a suffix of some length");
    let s = b.get(0).unwrap();
    for i in 1..24 {
        b.assign(i, &[i as u8; 200]);
    }
    b.clear(0);
    b.compact(1..24);
    if s != b"a suffix of some length" {
        clients::fail("a suffix changed while it was borrowed");
    }
}
