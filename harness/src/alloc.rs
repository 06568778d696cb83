//! Checking global allocator: the memory monitor.
//!
//! Every block carries a header (magic, size, alignment) and a tail canary.
//! Freed blocks are poisoned and kept in a quarantine for a while. A free or
//! realloc whose layout differs from the allocation's, of a block that is not
//! live, or of a block whose canary is damaged, is recorded as a fault.
//! Per-thread counters give live bytes, peak, largest request and balance.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
    sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*},
};

pub struct CheckAlloc;

const LIVE: u64 = 0x4c49_5645_b10c_a110;
const DEAD: u64 = 0xdead_dead_b10c_dead;
const CANARY: u64 = 0xC0DE_CAFE_F00D_D00D;
const TAIL: usize = 16;

#[repr(C)]
struct Head {
    magic: u64,
    size: usize,
    align: usize,
    serial: u64,
}

thread_local! {
    static LIVE_BYTES: Cell<isize> = const { Cell::new(0) };
    static LIVE_BLOCKS: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static TOTAL: Cell<usize> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
    static EVENTS: Cell<u64> = const { Cell::new(0) };
}

static FAULTS: AtomicUsize = AtomicUsize::new(0);
/// 1 layout mismatch, 2 not live (double free / wild), 3 canary
static FIRST_FAULT: AtomicU64 = AtomicU64::new(0);
static SERIAL: AtomicU64 = AtomicU64::new(0);
static ACTIVE: AtomicBool = AtomicBool::new(false);

/// Requests above this many bytes are refused (allocation failure).
pub const MAX_REQUEST: usize = 3 << 30;

const QN: usize = 256;
struct Quarantine(std::cell::UnsafeCell<[(usize, usize, usize); QN]>);
unsafe impl Sync for Quarantine {}
static QUAR: Quarantine = Quarantine(std::cell::UnsafeCell::new([(0, 0, 0); QN]));
static QPOS: AtomicUsize = AtomicUsize::new(0);
static QLOCK: AtomicBool = AtomicBool::new(false);

fn fault(code: u64) {
    FAULTS.fetch_add(1, SeqCst);
    let _ = FIRST_FAULT.compare_exchange(0, code, SeqCst, SeqCst);
}

fn pre(align: usize) -> usize {
    let h = std::mem::size_of::<Head>();
    (h + align - 1) / align * align
}

unsafe fn outer(size: usize, align: usize) -> Option<Layout> {
    let a = align.max(16);
    Layout::from_size_align(pre(a).checked_add(size)?.checked_add(TAIL)?, a).ok()
}

fn count(delta: isize) {
    let _ = LIVE_BYTES.try_with(|l| {
        let n = l.get() + delta;
        l.set(n);
        let _ = PEAK.try_with(|p| {
            if n > p.get() {
                p.set(n)
            }
        });
    });
    let _ = EVENTS.try_with(|e| e.set(e.get() + 1));
    if delta > 0 {
        let _ = TOTAL.try_with(|t| t.set(t.get() + delta as usize));
        let _ = LARGEST.try_with(|t| t.set(t.get().max(delta as usize)));
    }
}

unsafe impl GlobalAlloc for CheckAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ACTIVE.store(true, Relaxed);
        if l.size() > MAX_REQUEST {
            return std::ptr::null_mut();
        }
        let ol = match outer(l.size(), l.align()) {
            Some(x) => x,
            None => return std::ptr::null_mut(),
        };
        let p = System.alloc(ol);
        if p.is_null() {
            return p;
        }
        let user = p.add(pre(ol.align()));
        let h = user.sub(std::mem::size_of::<Head>()) as *mut Head;
        h.write_unaligned(Head {
            magic: LIVE,
            size: l.size(),
            align: l.align(),
            serial: SERIAL.fetch_add(1, Relaxed),
        });
        if l.size() <= 1 << 16 {
            std::ptr::write_bytes(user, 0xA5, l.size());
        }
        (user.add(l.size()) as *mut u64).write_unaligned(CANARY);
        count(l.size() as isize);
        let _ = LIVE_BLOCKS.try_with(|b| b.set(b.get() + 1));
        user
    }

    unsafe fn dealloc(&self, user: *mut u8, l: Layout) {
        let h = user.sub(std::mem::size_of::<Head>()) as *mut Head;
        let head = h.read_unaligned();
        if head.magic != LIVE {
            fault(2);
            return; // leak rather than corrupt
        }
        if head.size != l.size() || head.align != l.align() {
            fault(1);
        }
        if (user.add(head.size) as *mut u64).read_unaligned() != CANARY {
            fault(3);
        }
        (*h).magic = DEAD;
        if head.size <= 1 << 16 {
            std::ptr::write_bytes(user, 0xDE, head.size);
        }
        count(-(head.size as isize));
        let _ = LIVE_BLOCKS.try_with(|b| b.set(b.get() - 1));
        let ol = outer(head.size, head.align).unwrap();
        let base = user.sub(pre(ol.align())) as usize;
        if head.size > 1 << 14 {
            System.dealloc(base as *mut u8, ol);
            return;
        }
        // quarantine
        while QLOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
            std::hint::spin_loop();
        }
        let i = QPOS.fetch_add(1, Relaxed) % QN;
        let slot = &mut (*QUAR.0.get())[i];
        let old = *slot;
        *slot = (base, ol.size(), ol.align());
        QLOCK.store(false, Release);
        if old.0 != 0 {
            System.dealloc(old.0 as *mut u8, Layout::from_size_align_unchecked(old.1, old.2));
        }
    }

    unsafe fn realloc(&self, user: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let h = user.sub(std::mem::size_of::<Head>()) as *mut Head;
        let head = h.read_unaligned();
        if head.magic != LIVE {
            fault(2);
            return std::ptr::null_mut();
        }
        if head.size != l.size() || head.align != l.align() {
            fault(1);
        }
        let n = self.alloc(Layout::from_size_align_unchecked(new, head.align));
        if n.is_null() {
            return n;
        }
        std::ptr::copy_nonoverlapping(user, n, head.size.min(new));
        self.dealloc(user, Layout::from_size_align_unchecked(head.size, head.align));
        n
    }
}

#[derive(Debug, Clone, Copy)]
pub struct Snap {
    pub live_bytes: isize,
    pub live_blocks: isize,
    pub total: usize,
    pub events: u64,
}

/// Counters of this thread.
pub fn snap() -> Snap {
    Snap {
        live_bytes: LIVE_BYTES.with(|x| x.get()),
        live_blocks: LIVE_BLOCKS.with(|x| x.get()),
        total: TOTAL.with(|x| x.get()),
        events: EVENTS.with(|x| x.get()),
    }
}

/// Start measuring peak and largest request on this thread.
pub fn reset_peak() {
    PEAK.with(|p| p.set(LIVE_BYTES.with(|l| l.get())));
    LARGEST.with(|p| p.set(0));
}

/// (peak above the given level, largest single request) since `reset_peak`.
pub fn peak_over(s: &Snap) -> (isize, usize) {
    (PEAK.with(|p| p.get()) - s.live_bytes, LARGEST.with(|p| p.get()))
}

pub fn faults() -> (usize, &'static str) {
    (
        FAULTS.load(SeqCst),
        match FIRST_FAULT.load(SeqCst) {
            0 => "none",
            1 => "freed or grown with a layout other than it was allocated with",
            2 => "free or realloc of a block that is not live",
            _ => "write beyond the end of a block",
        },
    )
}

pub fn active() -> bool {
    ACTIVE.load(Relaxed)
}
