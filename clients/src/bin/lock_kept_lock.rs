//! A lock guard (from lock) kept after the version it locks is gone.
use masstree::nodeversion::NodeVersion;
fn main() {
    let g;
    {
        let v = Box::new(NodeVersion::new(true));
        g = v.lock();
    }
    drop(g);
}
