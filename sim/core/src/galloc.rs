//! Checking global allocator.
//!
//! Wraps the system allocator: red zones, layout checks, poisoned fresh and
//! freed memory, a quarantine that detects writes after free, exact alignment
//! (never better than requested), counters for leak and amplification oracles,
//! and injected allocation failure.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct Checking;

const MAGIC: u64 = 0x51AC_C0DE_A110_CA7E;
const FREED: u64 = 0xDEAD_DEAD_F4EE_F4EE;
const RED: usize = 16;
const REDB: u8 = 0xC5;

#[repr(C)]
struct Head {
    magic: u64,
    base: *mut u8,
    raw_size: usize,
    raw_align: usize,
    size: usize,
    align: usize,
    tracked: u64,
    serial: u64,
    red: [u8; RED],
}
const HEAD: usize = core::mem::size_of::<Head>();

static TRACK: AtomicBool = AtomicBool::new(false);
pub static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static PEAK_BYTES: AtomicI64 = AtomicI64::new(0);
pub static TOTAL_BYTES: AtomicU64 = AtomicU64::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
static SERIAL: AtomicU64 = AtomicU64::new(0);
/// 0 = no failure; otherwise the n-th tracked request from now fails.
static FAIL_AT: AtomicU64 = AtomicU64::new(0);
/// Number of following requests that fail once FAIL_AT fired.
static FAIL_RUN: AtomicU64 = AtomicU64::new(0);
pub static FAILS_FIRED: AtomicU64 = AtomicU64::new(0);
static FAULT: AtomicUsize = AtomicUsize::new(0);

pub const FAULTS: [&str; 8] = [
    "",
    "heap-underrun",
    "heap-overrun",
    "double-free",
    "bad-free",
    "free-layout-mismatch",
    "write-after-free",
    "huge-request",
];

/// First heap fault seen since the last call, if any.
pub fn take_fault() -> Option<&'static str> {
    match FAULT.swap(0, Relaxed) {
        0 => None,
        n => Some(FAULTS[n]),
    }
}
fn fault(n: usize) {
    let _ = FAULT.compare_exchange(0, n, Relaxed, Relaxed);
}

/// Run `f` with allocation tracking switched to `on`.
pub struct TrackGuard(bool);
impl Drop for TrackGuard {
    fn drop(&mut self) {
        TRACK.store(self.0, Relaxed);
    }
}
pub fn track(on: bool) -> TrackGuard {
    TrackGuard(TRACK.swap(on, Relaxed))
}
/// Switch tracking without a guard, where control comes from another thread.
pub fn track_set(on: bool) {
    TRACK.store(on, Relaxed);
}
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    let _g = track(false);
    f()
}
pub fn tracked<R>(f: impl FnOnce() -> R) -> R {
    let _g = track(true);
    f()
}
/// Whether a request above 256 MiB is just refused, or noted as a fault too.
pub fn huge_ok(on: bool) {
    HUGE_OK.store(on, Relaxed);
}
static HUGE_OK: AtomicBool = AtomicBool::new(false);
pub fn reset() {
    HUGE_OK.store(false, Relaxed);
    TRACK.store(false, Relaxed);
    FAIL_AT.store(0, Relaxed);
    FAIL_RUN.store(0, Relaxed);
    FAULT.store(0, Relaxed);
    LIVE_BLOCKS.store(0, Relaxed);
    LIVE_BYTES.store(0, Relaxed);
    PEAK_BYTES.store(0, Relaxed);
    TOTAL_BYTES.store(0, Relaxed);
    SERIAL.store(0, Relaxed);
}
pub fn live() -> (i64, i64) {
    (LIVE_BLOCKS.load(Relaxed), LIVE_BYTES.load(Relaxed))
}
/// Restart peak and total measurement; returns the current live byte count.
pub fn begin_measure() -> i64 {
    let l = LIVE_BYTES.load(Relaxed);
    PEAK_BYTES.store(l, Relaxed);
    TOTAL_BYTES.store(0, Relaxed);
    l
}
pub fn peak_since(base: i64) -> i64 {
    PEAK_BYTES.load(Relaxed) - base
}
/// Make the `n`-th (1-based) tracked request from now, and `run` after it, fail.
pub fn fail_at(n: u64, run: u64) {
    FAIL_AT.store(n, Relaxed);
    FAIL_RUN.store(run, Relaxed);
}
pub fn fail_off() {
    FAIL_AT.store(0, Relaxed);
    FAIL_RUN.store(0, Relaxed);
}

fn should_fail() -> bool {
    let n = FAIL_AT.load(Relaxed);
    if n == 0 {
        return false;
    }
    if n > 1 {
        FAIL_AT.store(n - 1, Relaxed);
        return false;
    }
    // n == 1: failing now
    let r = FAIL_RUN.load(Relaxed);
    if r == 0 {
        FAIL_AT.store(0, Relaxed);
    } else {
        FAIL_RUN.store(r - 1, Relaxed);
    }
    FAILS_FIRED.fetch_add(1, Relaxed);
    true
}

// Quarantine ring of freed blocks (single mutator: the simulator runs one thread at a time).
const QN: usize = 64;
static mut Q: [*mut Head; QN] = [core::ptr::null_mut(); QN];
static mut QPOS: usize = 0;
static QLOCK: AtomicBool = AtomicBool::new(false);

unsafe fn user_of(h: *mut Head) -> *mut u8 {
    (h as *mut u8).add(HEAD)
}

unsafe fn evict(h: *mut Head) {
    let u = user_of(h);
    let h = h.read_unaligned();
    let n = h.size.min(4096);
    for i in 0..n {
        if *u.add(i) != 0xDD {
            fault(6);
            break;
        }
    }
    let l = Layout::from_size_align_unchecked(h.raw_size, h.raw_align);
    System.dealloc(h.base, l);
}

unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let tr = TRACK.load(Relaxed);
        if tr {
            if should_fail() {
                return core::ptr::null_mut();
            }
            if l.size() > (1 << 28) {
                if !HUGE_OK.load(Relaxed) {
                    fault(7);
                }
                return core::ptr::null_mut();
            }
        }
        let align = l.align();
        let raw_align = (align * 2).max(16);
        // base | pad | Head | user | red  with user % (2*align) == align
        let off = HEAD.div_ceil(raw_align) * raw_align + align;
        let Some(raw_size) = (off + RED).checked_add(l.size()) else { return core::ptr::null_mut() };
        let base = System.alloc(Layout::from_size_align_unchecked(raw_size, raw_align));
        if base.is_null() {
            return base;
        }
        let user = base.add(off);
        let h = user.sub(HEAD) as *mut Head;
        let serial = SERIAL.fetch_add(1, Relaxed);
        h.write_unaligned(Head {
            magic: MAGIC,
            base,
            raw_size,
            raw_align,
            size: l.size(),
            align: l.align(),
            tracked: tr as u64,
            serial,
            red: [REDB; RED],
        });
        user.write_bytes(0xA5 ^ (serial as u8), l.size());
        user.add(l.size()).write_bytes(REDB, RED);
        if tr {
            ALLOCS.fetch_add(1, Relaxed);
            LIVE_BLOCKS.fetch_add(1, Relaxed);
            let b = LIVE_BYTES.fetch_add(l.size() as i64, Relaxed) + l.size() as i64;
            if b > PEAK_BYTES.load(Relaxed) {
                PEAK_BYTES.store(b, Relaxed);
            }
            TOTAL_BYTES.fetch_add(l.size() as u64, Relaxed);
        }
        user
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let hp = p.sub(HEAD) as *mut Head;
        let mut h = hp.read_unaligned();
        if h.magic == FREED {
            fault(3);
            return;
        }
        if h.magic != MAGIC {
            fault(4);
            return;
        }
        if h.size != l.size() || h.align != l.align() {
            fault(5);
        }
        for i in 0..RED {
            if h.red[i] != REDB {
                fault(1);
            }
            if *p.add(h.size + i) != REDB {
                fault(2);
            }
        }
        if h.tracked != 0 {
            LIVE_BLOCKS.fetch_sub(1, Relaxed);
            LIVE_BYTES.fetch_sub(h.size as i64, Relaxed);
        }
        h.magic = FREED;
        let size = h.size;
        hp.write_unaligned(h);
        p.write_bytes(0xDD, size);
        while QLOCK.swap(true, std::sync::atomic::Ordering::Acquire) {}
        let slot = core::ptr::addr_of_mut!(Q).cast::<*mut Head>().add(QPOS);
        let old = slot.replace(hp);
        QPOS = (QPOS + 1) % QN;
        QLOCK.store(false, std::sync::atomic::Ordering::Release);
        if !old.is_null() {
            evict(old);
        }
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            p.write_bytes(0, l.size());
        }
        p
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            core::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}
