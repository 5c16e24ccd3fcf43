//! A lock guard copied: its copy claims a lock that has been released.
use masstree::nodeversion::NodeVersion;
fn main() {
    let v = NodeVersion::new(true);
    let a = v.lock();
    let b = a.clone();
    drop(a);
    if !v.is_locked() {
        clients::fail("a lock guard exists, and the version is not locked");
    }
    drop(b);
}
