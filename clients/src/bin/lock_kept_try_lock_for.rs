//! A lock guard (from try_lock_for) kept after the version it locks is gone.
use masstree::nodeversion::NodeVersion;
fn main() {
    let g;
    {
        let v = Box::new(NodeVersion::new(true));
        g = v.try_lock_for(std::time::Duration::from_secs(1)).unwrap();
    }
    drop(g);
}
