//! The library's storage modes behind one interface. Values are identified by
//! ids; every value handed back is checked to be intact.
use crate::report::violation;
use crate::val::{Cv, Val};
use masstree::{MassTree, MassTree24Inline};
use seize::LocalGuard;
use std::sync::Arc;

pub trait Store: Send + Sync + Sized {
    type Out: Send + Clone;
    type Ref: Sync + Send;
    const NAME: &'static str;
    const DROPS: bool;
    fn new() -> Self;
    fn guard(&self) -> LocalGuard<'_>;
    fn insert(&self, k: &[u8], id: u64) -> Result<Option<Self::Out>, String>;
    fn insert_g(&self, k: &[u8], id: u64, g: &LocalGuard<'_>) -> Result<Option<Self::Out>, String>;
    fn get(&self, k: &[u8]) -> Option<Self::Out>;
    fn get_g(&self, k: &[u8], g: &LocalGuard<'_>) -> Option<Self::Out>;
    fn get_ref<'g>(&self, k: &[u8], g: &'g LocalGuard<'_>) -> Option<&'g Self::Ref>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    /// Bytes of a leaf, an internode, a stored value.
    fn sizes() -> (usize, usize, usize);
    /// Identity of an owned result; must be live.
    fn id(o: &Self::Out) -> u64;
    /// Identity behind a reference; must be live.
    fn rid(r: &Self::Ref) -> u64;
    /// Identity of the value stored behind a slot pointer.
    unsafe fn raw_id(p: *const u8) -> Result<u64, String>;
    #[cfg(masstree_verif)]
    fn walk(&self) -> Result<crate::walk::Walked, String>;
}

fn bad(e: String) -> ! {
    violation("damaged-value", &e)
}

macro_rules! common {
    ($t:ty, $slot:ty, $mk:expr, $vsize:expr) => {
        fn sizes() -> (usize, usize, usize) {
            (
                size_of::<masstree::LeafNode24<$slot>>(),
                size_of::<masstree::internode::InternodeNode<$slot>>(),
                $vsize,
            )
        }
        fn new() -> Self {
            <$t>::new()
        }
        fn guard(&self) -> LocalGuard<'_> {
            self.guard()
        }
        fn insert(&self, k: &[u8], id: u64) -> Result<Option<Self::Out>, String> {
            self.insert(k, ($mk)(id)).map_err(|e| format!("{e:?}"))
        }
        fn insert_g(&self, k: &[u8], id: u64, g: &LocalGuard<'_>) -> Result<Option<Self::Out>, String> {
            self.insert_with_guard(k, ($mk)(id), g).map_err(|e| format!("{e:?}"))
        }
        fn get(&self, k: &[u8]) -> Option<Self::Out> {
            self.get(k)
        }
        fn get_g(&self, k: &[u8], g: &LocalGuard<'_>) -> Option<Self::Out> {
            self.get_with_guard(k, g)
        }
        fn get_ref<'g>(&self, k: &[u8], g: &'g LocalGuard<'_>) -> Option<&'g Self::Ref> {
            self.get_ref(k, g)
        }
        fn len(&self) -> usize {
            self.len()
        }
        fn is_empty(&self) -> bool {
            self.is_empty()
        }
        #[cfg(masstree_verif)]
        fn walk(&self) -> Result<crate::walk::Walked, String> {
            let root = self.verif_root();
            unsafe { crate::walk::walk_tree::<$slot, masstree::LeafNode24<$slot>>(root, &|p| <Self as Store>::raw_id(p)) }
        }
    };
}

impl Store for MassTree<Val> {
    type Out = Arc<Val>;
    type Ref = Val;
    const NAME: &'static str = "arc";
    const DROPS: bool = true;
    common!(MassTree<Val>, masstree::LeafValue<Val>, Val::new, size_of::<Val>() + 16);
    fn id(o: &Arc<Val>) -> u64 {
        crate::weak::touch(Arc::as_ptr(o).addr());
        o.live().unwrap_or_else(|e| bad(e))
    }
    fn rid(r: &Val) -> u64 {
        crate::weak::touch(std::ptr::from_ref(r).addr());
        r.live().unwrap_or_else(|e| bad(e))
    }
    unsafe fn raw_id(p: *const u8) -> Result<u64, String> {
        unsafe { &*p.cast::<Val>() }.live()
    }
}

impl Store for MassTree24Inline<Cv> {
    type Out = Cv;
    type Ref = Cv;
    const NAME: &'static str = "inline";
    const DROPS: bool = false;
    common!(MassTree24Inline<Cv>, masstree::LeafValueIndex<Cv>, Cv::new, size_of::<Cv>());
    fn id(o: &Cv) -> u64 {
        o.intact().unwrap_or_else(|e| bad(e))
    }
    fn rid(r: &Cv) -> u64 {
        crate::weak::touch(std::ptr::from_ref(r).addr());
        r.intact().unwrap_or_else(|e| bad(e))
    }
    unsafe fn raw_id(p: *const u8) -> Result<u64, String> {
        unsafe { &*p.cast::<Cv>() }.intact()
    }
}
