//! A lock guard (from try_lock) kept after the version it locks is gone.
use masstree::nodeversion::NodeVersion;
fn main() {
    let g;
    {
        let v = Box::new(NodeVersion::new(true));
        g = v.try_lock().unwrap();
    }
    drop(g);
}
