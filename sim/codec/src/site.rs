//! A node's memory and context.
use crate::dynx::*;
use musli::alloc::Slice;
use simcore::*;

thread_local! {
    static LARGE: core::cell::Cell<bool> = const { core::cell::Cell::new(false) };
}
/// A new message is being made.
pub fn fresh() {
    LARGE.set(false);
}
pub fn large(yes: bool) {
    LARGE.set(yes);
}
const ARENA: usize = 8 << 20;
static mut ARENA_BASE: *mut u8 = core::ptr::null_mut();
static mut ARENA_USED: [bool; ARENAS] = [false; ARENAS];
const ARENAS: usize = 4;

/// A node's memory and context.
pub struct Site {
    pub own: Option<OwnCx>,
    pub da: Da,
    fa: Option<*mut Fa>,
    sl: Option<*mut Slice<'static>>,
    mem: Option<sys::Guarded>,
    arena: Option<usize>,
}

impl Drop for Site {
    fn drop(&mut self) {
        if let Some(n) = self.arena {
            unsafe { ARENA_USED[n] = false };
        }
    }
}

impl Site {
    pub fn cx(&self) -> Cx {
        self.own.as_ref().unwrap().cx
    }
    pub fn fa(&self) -> &'static Fa {
        match self.da {
            Da::F(f) => f,
            _ => panic!("not a fault allocator"),
        }
    }
    pub fn with(da: Da, traced: bool) -> Site {
        Site { own: Some(OwnCx::new(da, traced, true)), da, fa: None, sl: None, mem: None, arena: None }
    }
    /// A node with the given kind of allocator: 0 fault-injecting, 1 arena, 2 system.
    pub fn kind(kind: u64, traced: bool, types: bool) -> Site {
        // An arena takes memory back in stack order, so what a large message
        // needs of one in the worst case is out of proportion.
        let kind = if kind == 1 && LARGE.get() { 2 } else { kind };
        let mut fa = None;
        let mut sl = None;
        let mut arena = None;
        let da = match kind {
            1 => unsafe {
                // one large region, shared out to the arenas of the run
                if ARENA_BASE.is_null() {
                    ARENA_BASE = sys::shared_map(ARENA * ARENAS);
                }
                let n = (0..ARENAS).find(|n| !ARENA_USED[*n]).expect("too many arenas");
                ARENA_USED[n] = true;
                arena = Some(n);
                let p = ARENA_BASE.add(n * ARENA);
                let b = Box::into_raw(Box::new(Slice::new(core::slice::from_raw_parts_mut(p, ARENA))));
                sl = Some(b);
                Da::S(&*b)
            },
            2 => Da::Sys,
            _ => unsafe {
                let b = Box::into_raw(Box::new(Fa::new()));
                (*b).slack.set(choose(2) == 1);
                fa = Some(b);
                Da::F(&*b)
            },
        };
        Site { own: Some(OwnCx::new(da, traced, types)), da, fa, sl, mem: None, arena }
    }
    /// A node whose memory is one small arena at the end of mapped memory.
    pub fn small(len: usize, traced: bool) -> Site {
        let _g = galloc::track(false);
        let mut g = sys::Guarded::new(len + 64);
        unsafe {
            let off = g.len() - len - below(16);
            let p = g.slice(off, len) as *mut [u8];
            let b = Box::into_raw(Box::new(Slice::new(&mut *p)));
            let da = Da::S(&*b);
            Site { own: Some(OwnCx::new(da, traced, true)), da, fa: None, sl: Some(b), mem: Some(g), arena: None }
        }
    }
    pub fn any() -> Site {
        let _g = galloc::track(false);
        Site::kind(choose(3), choose(2) == 1, choose(2) == 1)
    }
    pub fn fault(traced: bool) -> Site {
        let _g = galloc::track(false);
        Site::kind(0, traced, choose(2) == 1)
    }
    pub fn close(mut self, ctx: &str) {
        let _g = galloc::track(false);
        self.own = None;
        if let Some(f) = self.fa.take() {
            unsafe {
                let (l, b) = ((*f).live.get(), (*f).live_bytes.get());
                ensure!(l == 0, "allocator-leak", "{ctx}: {l} allocations ({b} bytes) were not returned");
            }
            drop(unsafe { Box::from_raw(f) });
        }
        if let Some(s) = self.sl.take() {
            drop(unsafe { Box::from_raw(s) });
        }
    }
}

