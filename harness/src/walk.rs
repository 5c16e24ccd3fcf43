//! Structural walker: visits every node of a tree at rest and checks that it is a
//! well-formed B-link trie. Runs only when no operation is in progress.
use masstree::leaf_trait::{LayerCapableLeaf, TreeInternode, TreePermutation};
use masstree::nodeversion::NodeVersion;
use masstree::slot::ValueSlot;
use std::collections::{BTreeMap, HashSet};

const LAYER: u8 = 128;
const KSUF: u8 = 64;

#[derive(Clone, Debug, Default)]
pub struct Walked {
    /// Full key -> value id.
    pub entries: BTreeMap<Vec<u8>, u64>,
    pub leaves: usize,
    pub internodes: usize,
    pub layers: usize,
    pub max_height: usize,
    pub max_depth: usize,
    /// What the suffix bags may hold in buffers, from the suffixes in use.
    pub bag_bytes: usize,
    /// Bytes of all keys.
    pub key_bytes: usize,
    pub full_leaves: usize,
    pub full_internodes: usize,
    /// Hash of the shape (fill of every node, in order).
    pub shape: u64,
}

struct W<'a> {
    out: Walked,
    seen: HashSet<usize>,
    raw_id: &'a dyn Fn(*const u8) -> Result<u64, String>,
}

fn mix(h: u64, x: u64) -> u64 {
    (h ^ x).wrapping_mul(0x100_0000_01b3).rotate_left(17)
}

unsafe fn version<'a>(p: *const u8) -> &'a NodeVersion {
    unsafe { &*p.cast::<NodeVersion>() }
}

fn quiet(v: &NodeVersion, what: &str) -> Result<(), String> {
    if v.is_locked() || v.is_dirty() || v.is_deleted() {
        return Err(format!("{what}: version word {:#x} is locked, dirty or deleted at rest", v.value()));
    }
    Ok(())
}

pub unsafe fn walk_tree<S, L>(root: *const u8, raw_id: &dyn Fn(*const u8) -> Result<u64, String>) -> Result<Walked, String>
where
    S: ValueSlot,
    S::Value: Send + Sync + 'static,
    S::Output: Send + Sync,
    L: LayerCapableLeaf<S>,
{
    let mut w = W { out: Walked::default(), seen: HashSet::new(), raw_id };
    unsafe { w.layer::<S, L>(root, &[], 0, true)? };
    Ok(w.out)
}

impl W<'_> {
    /// One layer, given its topmost node.
    unsafe fn layer<S, L>(&mut self, root: *const u8, prefix: &[u8], depth: usize, main: bool) -> Result<(), String>
    where
        S: ValueSlot,
        S::Value: Send + Sync + 'static,
        S::Output: Send + Sync,
        L: LayerCapableLeaf<S>,
    {
        self.out.layers += 1;
        self.out.max_depth = self.out.max_depth.max(depth);
        if depth > 40 {
            return Err("layers nested deeper than any key allows".into());
        }
        if root.is_null() {
            return Err(format!("layer {:?} has a null root", crate::keys::hex(prefix)));
        }
        let v = unsafe { version(root) };
        let parent = if v.is_leaf() {
            unsafe { &*root.cast::<L>() }.parent()
        } else {
            unsafe { &*root.cast::<L::Internode>() }.parent()
        };
        if !parent.is_null() {
            return Err(format!("root of layer {} has a parent", crate::keys::hex(prefix)));
        }
        if !v.is_root() {
            return Err(format!("root of layer {} lacks the root flag (version {:#x})", crate::keys::hex(prefix), v.value()));
        }
        let mut leaves: Vec<(*const L, Option<u64>)> = vec![];
        let h = unsafe { self.node::<S, L>(root, std::ptr::null(), None, None, true, &mut leaves)? };
        self.out.max_height = self.out.max_height.max(h);
        // leaf chain
        for (i, (l, sep)) in leaves.iter().enumerate() {
            let leaf = unsafe { &**l };
            if leaf.next_is_marked() {
                return Err("a next pointer is still marked at rest".into());
            }
            let next: *const L = leaf.safe_next();
            let want = leaves.get(i + 1).map_or(std::ptr::null(), |x| x.0);
            if next != want {
                return Err(format!("leaf chain: leaf {i} of {} links to the wrong next leaf", leaves.len()));
            }
            let prev: *const L = leaf.prev();
            let want = if i == 0 { std::ptr::null() } else { leaves[i - 1].0 };
            if prev != want {
                return Err(format!("leaf chain: leaf {i} of {} links to the wrong previous leaf", leaves.len()));
            }
            if let Some(s) = sep
                && leaf.ikey_bound() != *s
            {
                return Err(format!("leaf {i}: its bound {:#x} differs from its separator {s:#x}", leaf.ikey_bound()));
            }
        }
        // entries
        let total = leaves.len();
        for (i, (l, _)) in leaves.iter().enumerate() {
            unsafe { self.leaf_entries::<S, L>(*l, prefix, depth, main && total == 1)? };
            let _ = i;
        }
        Ok(())
    }

    #[allow(clippy::too_many_arguments)]
    unsafe fn node<S, L>(
        &mut self,
        p: *const u8,
        parent: *const u8,
        lo: Option<u64>,
        hi: Option<u64>,
        is_root: bool,
        leaves: &mut Vec<(*const L, Option<u64>)>,
    ) -> Result<usize, String>
    where
        S: ValueSlot,
        S::Value: Send + Sync + 'static,
        S::Output: Send + Sync,
        L: LayerCapableLeaf<S>,
    {
        if !self.seen.insert(p as usize) {
            return Err("a node is reachable twice".into());
        }
        let v = unsafe { version(p) };
        if v.is_leaf() {
            let leaf = unsafe { &*p.cast::<L>() };
            quiet(v, "leaf")?;
            if !std::ptr::eq(leaf.parent(), parent) {
                return Err("a leaf's parent link does not name its parent".into());
            }
            if !is_root && v.is_root() {
                return Err("a non-root leaf carries the root flag".into());
            }
            if leaf.is_perm_frozen() {
                return Err("a leaf's slot order is still frozen at rest".into());
            }
            let perm = leaf.permutation();
            let n = perm.size();
            if n > L::WIDTH {
                return Err(format!("leaf of {n} entries"));
            }
            if n == 0 && !is_root {
                return Err("an empty leaf below a root".into());
            }
            self.out.leaves += 1;
            if n == L::WIDTH {
                self.out.full_leaves += 1;
            }
            self.out.shape = mix(self.out.shape, n as u64);
            let mut used = 0u32;
            for i in 0..n {
                let s = perm.get(i);
                if s >= L::WIDTH || used & (1 << s) != 0 {
                    return Err(format!("slot order repeats or exceeds slots: position {i} -> slot {s}"));
                }
                used |= 1 << s;
                let k = leaf.ikey(s);
                if lo.is_some_and(|lo| k < lo) || hi.is_some_and(|hi| k >= hi) {
                    return Err(format!("entry {k:#x} outside its leaf's range {lo:x?}..{hi:x?}"));
                }
            }
            leaves.push((leaf, lo));
            return Ok(0);
        }
        let node = unsafe { &*p.cast::<L::Internode>() };
        quiet(v, "internode")?;
        if !std::ptr::eq(node.parent(), parent) {
            return Err("an internode's parent link does not name its parent".into());
        }
        if is_root != v.is_root() {
            return Err(format!("internode root flag is {} but should be {is_root}", v.is_root()));
        }
        let n = node.nkeys();
        if n == 0 || n > 15 {
            return Err(format!("internode of {n} keys"));
        }
        self.out.internodes += 1;
        if n == 15 {
            self.out.full_internodes += 1;
        }
        self.out.shape = mix(self.out.shape, 100 + n as u64);
        let mut prev = lo;
        for i in 0..n {
            let k = node.ikey(i);
            let inorder = if i == 0 { prev.is_none_or(|p| k >= p) } else { prev.is_none_or(|p| k > p) };
            if !inorder || hi.is_some_and(|h| k >= h) || (i == 0 && lo == Some(k)) {
                return Err(format!("separator {k:#x} out of order or range {lo:x?}..{hi:x?}"));
            }
            prev = Some(k);
        }
        let mut height = None;
        for i in 0..=n {
            let c = node.child(i);
            if c.is_null() {
                return Err(format!("internode child {i} of {n} is null"));
            }
            let clo = if i == 0 { lo } else { Some(node.ikey(i - 1)) };
            let chi = if i == n { hi } else { Some(node.ikey(i)) };
            let cleaf = unsafe { version(c) }.is_leaf();
            if cleaf != (node.height() == 0) {
                return Err(format!("internode of height {} has a child of the wrong kind", node.height()));
            }
            let h = unsafe { self.node::<S, L>(c, p, clo, chi, false, leaves)? };
            if *height.get_or_insert(h) != h {
                return Err("leaves of one layer hang at different depths".into());
            }
        }
        let h = height.unwrap_or(0) + 1;
        if node.height() as usize + 1 != h {
            return Err(format!("internode of height {} lies {h} levels above its leaves", node.height()));
        }
        Ok(h)
    }

    unsafe fn leaf_entries<S, L>(&mut self, l: *const L, prefix: &[u8], depth: usize, may_be_empty: bool) -> Result<(), String>
    where
        S: ValueSlot,
        S::Value: Send + Sync + 'static,
        S::Output: Send + Sync,
        L: LayerCapableLeaf<S>,
    {
        let leaf = unsafe { &*l };
        let perm = leaf.permutation();
        let n = perm.size();
        if n == 0 && !may_be_empty {
            return Err("an empty layer".into());
        }
        let mut suffix = 0;
        let mut last: Option<u64> = None;
        let mut lens: HashSet<u8> = HashSet::new();
        for i in 0..n {
            let s = perm.get(i);
            let k = leaf.ikey(s);
            if last.is_some_and(|p| p > k) {
                return Err(format!("leaf entries out of order at position {i}"));
            }
            if last != Some(k) {
                lens.clear();
            }
            last = Some(k);
            let kl = leaf.keylenx(s);
            let class = if kl >= KSUF { KSUF } else { kl };
            if !lens.insert(class) {
                return Err(format!("two entries for slice {k:#x} of length class {kl}"));
            }
            let ptr = leaf.leaf_value_ptr(s);
            if ptr.is_null() {
                return Err(format!("entry {k:#x} (length class {kl}) has a null value"));
            }
            let b = k.to_be_bytes();
            let mut key = prefix.to_vec();
            if kl >= LAYER {
                if kl != LAYER {
                    return Err(format!("length class {kl} is none of the defined ones"));
                }
                key.extend(b);
                let mut root: *const u8 = ptr;
                // the entry may name a former root of the layer
                for hop in 0.. {
                    let v = unsafe { version(root) };
                    let parent: *const u8 = if v.is_leaf() {
                        unsafe { &*root.cast::<L>() }.parent()
                    } else {
                        unsafe { &*root.cast::<L::Internode>() }.parent()
                    };
                    if parent.is_null() {
                        break;
                    }
                    if hop > 60 {
                        return Err("parent links of a layer form a cycle".into());
                    }
                    root = parent;
                }
                unsafe { self.layer::<S, L>(root, &key, depth + 1, false)? };
                continue;
            }
            if kl == KSUF {
                key.extend(b);
                let Some(suf) = leaf.ksuf(s) else {
                    return Err(format!("entry {k:#x} is marked as having a suffix but has none"));
                };
                if suf.is_empty() {
                    return Err(format!("entry {k:#x} has an empty suffix"));
                }
                suffix += suf.len();
                key.extend(suf);
            } else if kl <= 8 {
                if b[kl as usize..].iter().any(|&x| x != 0) {
                    return Err(format!("entry {k:#x} of length {kl} has bytes beyond its length"));
                }
                key.extend(&b[..kl as usize]);
            } else {
                return Err(format!("length class {kl} is none of the defined ones"));
            }
            let id = (self.raw_id)(ptr)?;
            if self.out.entries.insert(key.clone(), id).is_some() {
                return Err(format!("key {} stored twice", crate::keys::hex(&key)));
            }
            self.out.key_bytes += key.len();
        }
        self.out.bag_bytes += 256.max(suffix * 4);
        Ok(())
    }
}
