//! Run-time choice of allocator, context and writer, so that one compiled copy
//! of the codec serves every combination. Everything here only delegates to
//! the library's real implementations.
use crate::falloc::{self, FaultAlloc};
use core::fmt;
use musli::alloc::{Alloc, AllocError, Allocator, Slice, System};
use musli::context::{self, Capture, DefaultContext, ErrorMarker, NoTrace, Trace};
use musli::writer::{BufWriter, SliceMutWriter};
use musli::{Context, FixedBytes, IntoWriter, Writer};
use simcore::*;

pub type Fa = FaultAlloc<false>;

#[derive(Clone, Copy)]
pub enum Da {
    F(&'static Fa),
    S(&'static Slice<'static>),
    Sys,
}

type SBuf<T> = <&'static Slice<'static> as Allocator>::Alloc<T>;
type YBuf<T> = <System as Allocator>::Alloc<T>;

pub enum DBuf<T> {
    F(falloc::Buf<'static, T, false>),
    S(SBuf<T>),
    Y(YBuf<T>),
}

unsafe impl Allocator for Da {
    const IS_SYSTEM: bool = false;
    type Alloc<T> = DBuf<T>;
    fn alloc_empty<T>(self) -> DBuf<T> {
        match self {
            Da::F(a) => DBuf::F(a.alloc_empty()),
            Da::S(a) => DBuf::S(a.alloc_empty()),
            Da::Sys => DBuf::Y(System::new().alloc_empty()),
        }
    }
    fn alloc<T>(self, value: T) -> Result<DBuf<T>, AllocError> {
        Ok(match self {
            Da::F(a) => DBuf::F(a.alloc(value)?),
            Da::S(a) => DBuf::S(a.alloc(value)?),
            Da::Sys => DBuf::Y(System::new().alloc(value)?),
        })
    }
}

impl<T> Alloc<T> for DBuf<T> {
    fn as_ptr(&self) -> *const T {
        match self {
            DBuf::F(b) => b.as_ptr(),
            DBuf::S(b) => b.as_ptr(),
            DBuf::Y(b) => b.as_ptr(),
        }
    }
    fn as_mut_ptr(&mut self) -> *mut T {
        match self {
            DBuf::F(b) => b.as_mut_ptr(),
            DBuf::S(b) => b.as_mut_ptr(),
            DBuf::Y(b) => b.as_mut_ptr(),
        }
    }
    fn capacity(&self) -> usize {
        match self {
            DBuf::F(b) => b.capacity(),
            DBuf::S(b) => b.capacity(),
            DBuf::Y(b) => b.capacity(),
        }
    }
    fn resize(&mut self, len: usize, additional: usize) -> Result<(), AllocError> {
        match self {
            DBuf::F(b) => b.resize(len, additional),
            DBuf::S(b) => b.resize(len, additional),
            DBuf::Y(b) => b.resize(len, additional),
        }
    }
    fn try_merge<B: Alloc<T>>(&mut self, this_len: usize, other: B, other_len: usize) -> Result<(), B> {
        match self {
            DBuf::F(b) => b.try_merge(this_len, other, other_len),
            DBuf::S(b) => b.try_merge(this_len, other, other_len),
            DBuf::Y(b) => b.try_merge(this_len, other, other_len),
        }
    }
}

pub type TraceCx = DefaultContext<Da, Trace, Capture<String>>;
pub type PlainCx = DefaultContext<Da, NoTrace, Capture<String>>;

/// A context: the library's default context, traced or not.
#[derive(Clone, Copy)]
pub enum Cx {
    T(&'static TraceCx),
    P(&'static PlainCx),
    /// A context that hands control to the scheduler at every step.
    Y(&'static TraceCx),
}

/// Owner of a context and everything in it.
pub struct OwnCx {
    pub cx: Cx,
}

impl OwnCx {
    pub fn new(a: Da, traced: bool, types: bool) -> OwnCx {
        let cx = if traced {
            let c = context::new_in(a).with_trace().with_capture::<String>();
            let c = if types { c.with_type() } else { c };
            Cx::T(Box::leak(Box::new(c)))
        } else {
            Cx::P(Box::leak(Box::new(context::new_in(a).with_capture::<String>())))
        };
        OwnCx { cx }
    }
    pub fn yielding(a: Da) -> OwnCx {
        let c = context::new_in(a).with_trace().with_capture::<String>().with_type();
        OwnCx { cx: Cx::Y(Box::leak(Box::new(c))) }
    }
}

impl Drop for OwnCx {
    fn drop(&mut self) {
        unsafe {
            match self.cx {
                Cx::T(c) | Cx::Y(c) => drop(Box::from_raw(c as *const TraceCx as *mut TraceCx)),
                Cx::P(c) => drop(Box::from_raw(c as *const PlainCx as *mut PlainCx)),
            }
        }
    }
}

impl Cx {
    /// Captured error text, if an error was reported since the last clear.
    pub fn error(self) -> Option<String> {
        match self {
            Cx::T(c) | Cx::Y(c) => c.result().err(),
            Cx::P(c) => c.result().err(),
        }
    }
    pub fn report(self) -> String {
        match self {
            Cx::T(c) | Cx::Y(c) => c.report().to_string(),
            Cx::P(_) => String::new(),
        }
    }
    pub fn traced(self) -> bool {
        !matches!(self, Cx::P(_))
    }
}

pub enum Mark {
    T(<&'static TraceCx as Context>::Mark),
    P(<&'static PlainCx as Context>::Mark),
}

thread_local! {
    pub static YIELD: core::cell::Cell<Option<fn()>> = const { core::cell::Cell::new(None) };
}

macro_rules! del {
    ($s:expr, $c:ident => $e:expr) => {
        match $s {
            Cx::T($c) => $e,
            Cx::Y($c) => {
                if let Some(y) = YIELD.get() {
                    y();
                }
                $e
            }
            Cx::P($c) => $e,
        }
    };
}

impl Context for Cx {
    type Error = ErrorMarker;
    type Mark = Mark;
    type Allocator = Da;
    fn clear(self) {
        del!(self, c => c.clear())
    }
    fn advance(self, n: usize) {
        del!(self, c => c.advance(n))
    }
    fn mark(self) -> Mark {
        match self {
            Cx::T(c) | Cx::Y(c) => Mark::T(c.mark()),
            Cx::P(c) => Mark::P(c.mark()),
        }
    }
    #[allow(clippy::unit_arg)]
    fn restore(self, m: &Mark) {
        match (self, m) {
            (Cx::T(c) | Cx::Y(c), Mark::T(m)) => c.restore(m),
            (Cx::P(c), Mark::P(m)) => c.restore(m),
            _ => panic!("mark of another context"),
        }
    }
    fn alloc(self) -> Da {
        del!(self, c => c.alloc())
    }
    fn custom<E>(self, e: E) -> ErrorMarker
    where
        E: 'static + Send + Sync + core::error::Error,
    {
        del!(self, c => c.custom(e))
    }
    fn message<M: fmt::Display>(self, m: M) -> ErrorMarker {
        del!(self, c => c.message(m))
    }
    fn message_at<M: fmt::Display>(self, at: &Mark, m: M) -> ErrorMarker {
        match (self, at) {
            (Cx::T(c) | Cx::Y(c), Mark::T(at)) => c.message_at(at, m),
            (Cx::P(c), Mark::P(at)) => c.message_at(at, m),
            _ => panic!("mark of another context"),
        }
    }
    fn custom_at<E>(self, at: &Mark, e: E) -> ErrorMarker
    where
        E: 'static + Send + Sync + core::error::Error,
    {
        match (self, at) {
            (Cx::T(c) | Cx::Y(c), Mark::T(at)) => c.custom_at(at, e),
            (Cx::P(c), Mark::P(at)) => c.custom_at(at, e),
            _ => panic!("mark of another context"),
        }
    }
    fn enter_struct(self, n: &'static str) {
        del!(self, c => c.enter_struct(n))
    }
    fn leave_struct(self) {
        del!(self, c => c.leave_struct())
    }
    fn enter_enum(self, n: &'static str) {
        del!(self, c => c.enter_enum(n))
    }
    fn leave_enum(self) {
        del!(self, c => c.leave_enum())
    }
    fn enter_named_field<F: fmt::Display>(self, n: &'static str, f: F) {
        del!(self, c => c.enter_named_field(n, f))
    }
    fn enter_unnamed_field<F: fmt::Display>(self, i: u32, f: F) {
        del!(self, c => c.enter_unnamed_field(i, f))
    }
    fn leave_field(self) {
        del!(self, c => c.leave_field())
    }
    fn enter_variant<V: fmt::Display>(self, n: &'static str, v: V) {
        del!(self, c => c.enter_variant(n, v))
    }
    fn leave_variant(self) {
        del!(self, c => c.leave_variant())
    }
    fn enter_map_key<K: fmt::Display>(self, k: K) {
        del!(self, c => c.enter_map_key(k))
    }
    fn leave_map_key(self) {
        del!(self, c => c.leave_map_key())
    }
    fn enter_sequence_index(self, i: usize) {
        del!(self, c => c.enter_sequence_index(i))
    }
    fn leave_sequence_index(self) {
        del!(self, c => c.leave_sequence_index())
    }
}

/// What a simulated device does with the bytes written to it.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum IoPlan {
    Good,
    /// Each write takes only part of the bytes; some report interruption first.
    Short,
    /// Fails with an error once this many bytes were taken.
    FailAt(usize, std::io::ErrorKind),
    /// Accepts nothing more once this many bytes were taken (disk full).
    FullAt(usize),
    /// One refused write at this offset; later writes would work again.
    GlitchAt(usize, std::io::ErrorKind),
}

/// Simulated device behind `std::io::Write`.
pub struct SimIo {
    pub data: Vec<u8>,
    pub plan: IoPlan,
    pub failed: bool,
    pub calls_after_failure: u64,
    pub writes: u64,
    pub interrupts: u32,
}

impl SimIo {
    pub fn new(plan: IoPlan) -> SimIo {
        SimIo { data: Vec::new(), plan, failed: false, calls_after_failure: 0, writes: 0, interrupts: 0 }
    }
}

impl std::io::Write for SimIo {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        use std::io::{Error, ErrorKind};
        let _g = galloc::track(false);
        if let Some(y) = YIELD.get() {
            y();
        }
        self.writes += 1;
        advance_time(1);
        if b.is_empty() {
            return Ok(0);
        }
        if self.failed {
            self.calls_after_failure += 1;
            if !matches!(self.plan, IoPlan::GlitchAt(..)) {
                return Err(ErrorKind::Other.into());
            }
        }
        match self.plan {
            IoPlan::Good => {
                self.data.extend_from_slice(b);
                Ok(b.len())
            }
            IoPlan::Short => {
                if self.interrupts < 8 && chance(1, 8) {
                    self.interrupts += 1;
                    fault("write interrupted");
                    return Err(ErrorKind::Interrupted.into());
                }
                let n = if chance(1, 3) { 1 + below(b.len()) } else { b.len() };
                if n < b.len() {
                    fault("short write");
                }
                self.data.extend_from_slice(&b[..n]);
                Ok(n)
            }
            IoPlan::FailAt(at, kind) => {
                let n = (at - self.data.len()).min(b.len());
                if n == 0 {
                    self.failed = true;
                    fault("write error");
                    return Err(Error::new(kind, "simulated device error"));
                }
                self.data.extend_from_slice(&b[..n]);
                Ok(n)
            }
            IoPlan::FullAt(at) => {
                let n = (at - self.data.len()).min(b.len());
                if n == 0 {
                    self.failed = true;
                    fault("disk full");
                    return Ok(0);
                }
                self.data.extend_from_slice(&b[..n]);
                Ok(n)
            }
            IoPlan::GlitchAt(at, kind) => {
                let n = if self.failed { b.len() } else { (at - self.data.len()).min(b.len()) };
                if n == 0 {
                    self.failed = true;
                    fault("write refused once");
                    return Err(kind.into());
                }
                self.data.extend_from_slice(&b[..n]);
                Ok(n)
            }
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub const FIXED: usize = 1024;

/// Run-time choice among the library's writers.
pub enum W<'a> {
    Io(musli::wrap::Wrap<&'a mut SimIo>),
    Slice(SliceMutWriter<'a>),
    Vec(&'a mut Vec<u8>),
    Buf(&'a mut BufWriter<Da>),
    Fixed(&'a mut FixedBytes<FIXED>),
}

impl<'a> W<'a> {
    pub fn io(io: &'a mut SimIo) -> Self {
        W::Io(musli::wrap::wrap(io))
    }
    pub fn slice(s: &'a mut [u8]) -> Self {
        W::Slice(s.into_writer())
    }
}

macro_rules! wdel {
    ($s:expr, $w:ident => $e:expr) => {
        match $s {
            W::Io($w) => $e,
            W::Slice($w) => $e,
            W::Vec($w) => $e,
            W::Buf($w) => $e,
            W::Fixed($w) => $e,
        }
    };
}

impl Writer for W<'_> {
    /// Space reported as left over, for writers that report it.
    type Ok = Option<usize>;
    type Mut<'this>
        = &'this mut Self
    where
        Self: 'this;
    fn finish<C: Context>(&mut self, cx: C) -> Result<Option<usize>, C::Error> {
        Ok(match self {
            W::Io(w) => {
                w.finish(cx)?;
                None
            }
            W::Slice(w) => Some(w.finish(cx)?),
            W::Vec(w) => {
                w.finish(cx)?;
                None
            }
            W::Buf(w) => {
                w.finish(cx)?;
                None
            }
            W::Fixed(w) => {
                w.finish(cx)?;
                None
            }
        })
    }
    fn borrow_mut(&mut self) -> &mut Self {
        self
    }
    fn extend<C: Context>(&mut self, cx: C, buffer: musli::alloc::Vec<u8, C::Allocator>) -> Result<(), C::Error> {
        wdel!(self, w => w.extend(cx, buffer))
    }
    fn write_bytes<C: Context>(&mut self, cx: C, bytes: &[u8]) -> Result<(), C::Error> {
        wdel!(self, w => w.write_bytes(cx, bytes))
    }
    fn write_byte<C: Context>(&mut self, cx: C, b: u8) -> Result<(), C::Error> {
        wdel!(self, w => w.write_byte(cx, b))
    }
}
