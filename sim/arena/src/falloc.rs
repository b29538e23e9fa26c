//! Fault-injecting implementation of the public `Allocator` trait.
//!
//! Every request may be refused by the policy in force; memory comes from the
//! checking global allocator with exact sizes (nothing beyond what was asked
//! for is usable) and buffers move on every growth unless the policy says otherwise.
#![allow(dead_code)]
use core::cell::Cell;
use core::mem::{align_of, size_of};
use core::ptr::NonNull;
use musli::alloc::{Alloc, AllocError, Allocator};
use std::alloc::{alloc, dealloc, Layout};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Policy {
    /// Never refuse.
    Never,
    /// Refuse the n-th request (0-based) and the `run - 1` following ones.
    At(u64, u64),
    /// Refuse everything from the n-th request on.
    From(u64),
    /// Refuse each request with probability 1/n, decided by the simulator.
    OneIn(u64),
    /// Refuse whatever would bring the live bytes above this.
    Budget(usize),
}

pub struct FaultAlloc<const SYS: bool> {
    pub policy: Cell<Policy>,
    pub requests: Cell<u64>,
    pub fired: Cell<u64>,
    pub live: Cell<i64>,
    pub live_bytes: Cell<i64>,
    pub peak_bytes: Cell<i64>,
    pub slack: Cell<bool>,
    pub yields: Cell<Option<fn()>>,
    /// Largest single request, in bytes.
    pub largest: Cell<usize>,
}

impl<const SYS: bool> FaultAlloc<SYS> {
    pub fn new() -> Self {
        FaultAlloc {
            policy: Cell::new(Policy::Never),
            requests: Cell::new(0),
            fired: Cell::new(0),
            live: Cell::new(0),
            live_bytes: Cell::new(0),
            peak_bytes: Cell::new(0),
            slack: Cell::new(false),
            yields: Cell::new(None),
            largest: Cell::new(0),
        }
    }
    pub fn set(&self, p: Policy) {
        self.policy.set(p);
        self.requests.set(0);
        self.fired.set(0);
        self.largest.set(0);
        self.peak_bytes.set(self.live_bytes.get());
    }
    fn ask(&self, bytes: usize) -> Result<(), AllocError> {
        if let Some(y) = self.yields.get() {
            y();
        }
        let n = self.requests.get();
        self.requests.set(n + 1);
        self.largest.set(self.largest.get().max(bytes));
        let fail = match self.policy.get() {
            Policy::Never => false,
            Policy::At(k, run) => n >= k && n - k < run,
            Policy::From(k) => n >= k,
            Policy::OneIn(d) => simcore::chance(1, d),
            Policy::Budget(b) => self.live_bytes.get() as usize + bytes > b,
        };
        if fail || bytes > (1 << 28) {
            self.fired.set(self.fired.get() + 1);
            simcore::fault("allocation refused");
            return Err(AllocError);
        }
        Ok(())
    }
    fn add(&self, bytes: usize) {
        self.live.set(self.live.get() + 1);
        self.live_bytes.set(self.live_bytes.get() + bytes as i64);
        self.peak_bytes.set(self.peak_bytes.get().max(self.live_bytes.get()));
    }
    fn sub(&self, bytes: usize) {
        self.live.set(self.live.get() - 1);
        self.live_bytes.set(self.live_bytes.get() - bytes as i64);
    }
}

pub struct Buf<'a, T, const SYS: bool> {
    a: &'a FaultAlloc<SYS>,
    p: NonNull<T>,
    cap: usize,
}

unsafe impl<'a, const SYS: bool> Allocator for &'a FaultAlloc<SYS> {
    const IS_SYSTEM: bool = SYS;
    type Alloc<T> = Buf<'a, T, SYS>;

    fn alloc_empty<T>(self) -> Self::Alloc<T> {
        Buf { a: self, p: NonNull::dangling(), cap: 0 }
    }

    fn alloc<T>(self, value: T) -> Result<Self::Alloc<T>, AllocError> {
        let mut b = self.alloc_empty::<T>();
        if size_of::<T>() == 0 {
            core::mem::forget(value);
            return Ok(b);
        }
        self.ask(size_of::<T>())?;
        b.grow(0, 1)?;
        unsafe { b.p.as_ptr().write(value) };
        Ok(b)
    }
}

impl<T, const SYS: bool> Buf<'_, T, SYS> {
    fn grow(&mut self, len: usize, cap: usize) -> Result<(), AllocError> {
        let l = Layout::array::<T>(cap).map_err(|_| AllocError)?;
        unsafe {
            let p = alloc(l).cast::<T>();
            let Some(p) = NonNull::new(p) else { return Err(AllocError) };
            p.as_ptr().copy_from_nonoverlapping(self.p.as_ptr(), len);
            self.release();
            self.p = p;
            self.cap = cap;
        }
        self.a.add(l.size());
        Ok(())
    }
    fn release(&mut self) {
        if self.cap != 0 && size_of::<T>() != 0 {
            let l = Layout::array::<T>(self.cap).unwrap();
            unsafe { dealloc(self.p.as_ptr().cast(), l) };
            self.a.sub(l.size());
        }
        self.cap = 0;
        self.p = NonNull::dangling();
    }
}

impl<T, const SYS: bool> Drop for Buf<'_, T, SYS> {
    fn drop(&mut self) {
        self.release();
    }
}

impl<T, const SYS: bool> Alloc<T> for Buf<'_, T, SYS> {
    fn as_ptr(&self) -> *const T {
        self.p.as_ptr()
    }
    fn as_mut_ptr(&mut self) -> *mut T {
        self.p.as_ptr()
    }
    fn capacity(&self) -> usize {
        if size_of::<T>() == 0 {
            usize::MAX
        } else {
            self.cap
        }
    }
    fn resize(&mut self, len: usize, additional: usize) -> Result<(), AllocError> {
        let _ = align_of::<T>();
        if size_of::<T>() == 0 {
            return Ok(());
        }
        let need = len.checked_add(additional).ok_or(AllocError)?;
        if need <= self.cap {
            return Ok(());
        }
        // exact sizes while small, so that nothing beyond what was asked for is usable
        let want = if self.a.slack.get() || need > 2048 { need.saturating_add(need / 2) } else { need };
        self.a.ask(want.checked_mul(size_of::<T>()).ok_or(AllocError)?)?;
        self.grow(len, want)
    }
    fn try_merge<B: Alloc<T>>(&mut self, _: usize, other: B, _: usize) -> Result<(), B> {
        if size_of::<T>() == 0 {
            return Ok(());
        }
        Err(other)
    }
}
