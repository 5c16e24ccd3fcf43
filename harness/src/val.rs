//! Tracked values: every value has a unique id, a check word, and a life-cycle
//! record (live, dropped n times) kept outside the heap block it occupies.
use std::sync::atomic::{AtomicU64, AtomicU8, Ordering::{Relaxed, SeqCst}};

pub const SLOTS: usize = 1 << 22;
static STATE: [AtomicU8; SLOTS] = [const { AtomicU8::new(0) }; SLOTS];
static NEXT: AtomicU64 = AtomicU64::new(1);
pub static CREATED: AtomicU64 = AtomicU64::new(0);
pub static DROPPED: AtomicU64 = AtomicU64::new(0);
/// Ids dropped more than once, or dropped with a damaged body (first one kept).
pub static BAD_DROP: AtomicU64 = AtomicU64::new(0);

const KEY: u64 = 0x5AFE_C0DE_1234_9876;

/// Start a new batch of ids; all earlier values must be gone.
pub fn reset() {
    let n = NEXT.swap(1, SeqCst).min(SLOTS as u64);
    for s in &STATE[..n as usize] {
        s.store(0, Relaxed);
    }
    CREATED.store(0, SeqCst);
    DROPPED.store(0, SeqCst);
    BAD_DROP.store(0, SeqCst);
}
pub fn fresh() -> u64 {
    let id = NEXT.fetch_add(1, Relaxed);
    assert!((id as usize) < SLOTS, "harness: too many values");
    id
}
pub fn is_live(id: u64) -> bool {
    (id as usize) < SLOTS && STATE[id as usize].load(SeqCst) == 1
}
pub fn drops(id: u64) -> u8 {
    STATE[id as usize].load(SeqCst).saturating_sub(1)
}
pub fn last_id() -> u64 {
    NEXT.load(SeqCst)
}

/// A heap value with identity.
#[derive(Debug)]
pub struct Val {
    pub id: u64,
    pub check: u64,
    pad: [u64; 2],
}
impl Val {
    pub fn new(id: u64) -> Self {
        STATE[id as usize].store(1, SeqCst);
        CREATED.fetch_add(1, Relaxed);
        Val { id, check: id ^ KEY, pad: [id; 2] }
    }
    /// The id, if the body is intact.
    pub fn intact(&self) -> Result<u64, String> {
        let (id, check, pad) = unsafe {
            (
                std::ptr::read_volatile(&self.id),
                std::ptr::read_volatile(&self.check),
                std::ptr::read_volatile(&self.pad),
            )
        };
        if id ^ KEY != check || pad != [id; 2] {
            return Err(format!("value body damaged: id={id:#x} check={check:#x} pad={pad:x?}"));
        }
        Ok(id)
    }
    /// As `intact`, and not dropped.
    pub fn live(&self) -> Result<u64, String> {
        let id = self.intact()?;
        if !is_live(id) {
            return Err(format!("value {id} was already dropped"));
        }
        Ok(id)
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        DROPPED.fetch_add(1, Relaxed);
        match self.intact() {
            Ok(id) if (id as usize) < SLOTS => {
                let prev = STATE[id as usize].fetch_add(1, SeqCst);
                if prev != 1 {
                    let _ = BAD_DROP.compare_exchange(0, id, SeqCst, SeqCst);
                }
            }
            _ => {
                let _ = BAD_DROP.compare_exchange(0, u64::MAX, SeqCst, SeqCst);
            }
        }
    }
}

/// A plain copyable value with a check word.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Cv {
    pub id: u64,
    pub check: u64,
    pad: u64,
}
impl Cv {
    pub fn new(id: u64) -> Self {
        Cv { id, check: !id ^ KEY, pad: id }
    }
    pub fn intact(&self) -> Result<u64, String> {
        let (id, check, pad) = unsafe {
            (
                std::ptr::read_volatile(&self.id),
                std::ptr::read_volatile(&self.check),
                std::ptr::read_volatile(&self.pad),
            )
        };
        if !id ^ KEY != check || pad != id {
            return Err(format!("inline value damaged: id={id:#x} check={check:#x} pad={pad:#x}"));
        }
        Ok(id)
    }
}
