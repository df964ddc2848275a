//! Per-case context, verdicts, panic attribution, memory accounting.
use crate::prng::{mix, Rng};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub enum Stop {
    Violation(String),
    /// a listed finding was met, the case ends here
    Known(&'static str, String),
    /// the case cannot be judged (not counted)
    Skip(&'static str),
    /// the harness itself failed
    Harness(String),
}

pub type R<T = ()> = Result<T, Stop>;

#[macro_export]
macro_rules! viol {
    ($($a:tt)*) => { return Err($crate::ctx::Stop::Violation(format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::ctx::Stop::Violation(format!($($a)*))); } };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub prop: &'static str,
    pub tier: Tier,
    pub index: u64,
    pub rng: Rng,
    pub trace: Vec<String>,
    pub digest: u64,
    pub nontrivial: bool,
    pub counts: BTreeMap<&'static str, u64>,
    pub verbose: bool,
    /// ids of the listed findings of this property
    pub listed: Vec<String>,
    /// GUIDs generated by the library in this case
    pub generated: Vec<[u8; 16]>,
}

impl Ctx {
    pub fn new(prop: &'static str, tier: Tier, seed: u64, index: u64, listed: Vec<String>) -> Self {
        let p = prop.bytes().fold(0u64, |a, b| a * 256 + u64::from(b));
        Ctx {
            prop,
            tier,
            index,
            rng: Rng::new(mix(seed) ^ mix(p.wrapping_mul(0x1234_5678_9abc_def1)) ^ mix(index.wrapping_add(77))),
            trace: vec![],
            digest: 0xcbf2_9ce4_8422_2325,
            nontrivial: false,
            counts: BTreeMap::new(),
            verbose: false,
            listed,
            generated: vec![],
        }
    }
    pub fn note(&mut self, s: String) {
        for b in s.bytes() {
            self.digest = (self.digest ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
        }
        if self.verbose {
            eprintln!("  {s}");
        }
        self.trace.push(s);
    }
    pub fn count(&mut self, what: &'static str, n: u64) {
        *self.counts.entry(what).or_insert(0) += n;
    }
    /// Report a violation unless it is exactly the listed finding.
    pub fn finding(&self, id: &'static str, what: String) -> Stop {
        if self.listed.iter().any(|l| l == id) {
            Stop::Known(id, what)
        } else {
            Stop::Violation(what)
        }
    }
}

thread_local! {
    static IN_LIB: Cell<u32> = const { Cell::new(0) };
    pub static LAST_PANIC: RefCell<Option<(String, bool)>> = const { RefCell::new(None) };
}

struct Leave;
impl Drop for Leave {
    fn drop(&mut self) {
        let left = IN_LIB.with(|d| {
            d.set(d.get() - 1);
            d.get()
        });
        LIB_BUSY.store(left > 0, std::sync::atomic::Ordering::Relaxed);
        LIB_CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    }
}

/// Ends and starts of calls into the library, for the watchdog.
pub static LIB_CALLS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// Whether a call is being made (workers have one thread that makes calls).
pub static LIB_BUSY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Every call into the crate under test goes through this.
pub fn lib<T>(f: impl FnOnce() -> T) -> T {
    IN_LIB.with(|d| d.set(d.get() + 1));
    LIB_BUSY.store(true, std::sync::atomic::Ordering::Relaxed);
    let _l = Leave;
    f()
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.chars().take(300).collect()
        } else {
            "?".into()
        };
        // such a panic aborts, this is all that will be known of it
        if msg.contains("unsafe precondition") {
            eprintln!("{msg} (at {loc})");
        }
        // harness sources are compiled with relative paths
        let in_lib = IN_LIB.with(|d| d.get()) > 0 && !loc.starts_with("src/");
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((format!("{msg} (at {loc})"), in_lib)));
    }));
}

// ---- memory accounting

pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
/// a single request above this inside the library fails
pub static HARD: AtomicUsize = AtomicUsize::new(2 << 30);

pub struct Counting;

impl Counting {
    fn add(n: usize) {
        let now = LIVE.fetch_add(n, Relaxed) + n;
        if now > PEAK.load(Relaxed) {
            PEAK.store(now, Relaxed);
        }
    }
}

// SAFETY: forwards to the system allocator, only counting.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > HARD.load(Relaxed) {
            return std::ptr::null_mut();
        }
        Self::add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > HARD.load(Relaxed) {
            return std::ptr::null_mut();
        }
        Self::add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > HARD.load(Relaxed) {
            return std::ptr::null_mut();
        }
        let r = System.realloc(p, l, n);
        if !r.is_null() {
            LIVE.fetch_sub(l.size(), Relaxed);
            Self::add(n);
        }
        r
    }
}

/// Bytes by which the heap grew at most since `mem_mark`.
pub fn mem_mark() -> usize {
    let l = LIVE.load(Relaxed);
    PEAK.store(l, Relaxed);
    l
}
pub fn mem_peak_since(mark: usize) -> usize {
    PEAK.load(Relaxed).saturating_sub(mark)
}
