//! C12: building archives of mixed values and reading them back anywhere.
use crate::types::*;
use musli_zerocopy::buf::{StoreBuf, Visit};
use musli_zerocopy::swiss;
use std::hash::Hash;
use musli_zerocopy::endian::{Big, Little};
use musli_zerocopy::mem::MaybeUninit;
use musli_zerocopy::{Buf, OwnedBuf, Ref, Size, SliceMut, ZeroCopy};
use simcore::sys::Guarded;
use simcore::*;

/// A buffer under construction.
pub trait ZB: StoreBuf<ByteOrder = Self::E, Size = Self::O> + Sized + 'static {
    type E: Order;
    type O: Size + D;
    const OWNED: bool;
    fn z_uninit<T: ZeroCopy>(&mut self) -> Ref<MaybeUninit<T>, Self::E, Self::O>;
    fn z_write<T: ZeroCopy>(&mut self, r: Ref<MaybeUninit<T>, Self::E, Self::O>, v: &T);
    fn z_request_align<T: ZeroCopy>(&mut self);
    fn z_reserve(&mut self, n: usize);
    fn z_extend(&mut self, b: &[u8]);
    fn z_next<T: ZeroCopy>(&mut self) -> usize;
    fn z_slice<T: ZeroCopy>(&mut self, v: &[T]) -> Ref<[T], Self::E, Self::O>;
    fn z_capacity(&self) -> usize;
    fn z_requested(&self) -> usize;
    fn z_clear(&mut self);
    fn z_bytes(&self) -> &[u8];
    fn z_replace_with_copy(&mut self) -> bool;
    fn z_align(&mut self);
    fn z_swiss_map<K, V>(&mut self, _e: Vec<(K, V)>) -> Option<Result<swiss::MapRef<K, V, Self::E, Self::O>, musli_zerocopy::Error>>
    where
        K: ZeroCopy + Visit<Target: Hash>,
        V: ZeroCopy,
    {
        None
    }
}
macro_rules! zb {
    ($t:ident, $l:ty, $E:ty, $O:ty, $owned:literal, $copy:expr, {$($more:tt)*}) => {
        impl ZB for $l {
            type E = $E;
            type O = $O;
            const OWNED: bool = $owned;
            fn z_uninit<T: ZeroCopy>(&mut self) -> Ref<MaybeUninit<T>, $E, $O> {
                $t::store_uninit(self)
            }
            fn z_write<T: ZeroCopy>(&mut self, r: Ref<MaybeUninit<T>, $E, $O>, v: &T) {
                self.load_uninit_mut(r).write(v);
            }
            fn z_request_align<T: ZeroCopy>(&mut self) {
                self.request_align::<T>()
            }
            fn z_reserve(&mut self, n: usize) {
                self.reserve(n)
            }
            fn z_extend(&mut self, b: &[u8]) {
                self.extend_from_slice(b)
            }
            fn z_next<T: ZeroCopy>(&mut self) -> usize {
                $t::next_offset::<T>(self)
            }
            fn z_slice<T: ZeroCopy>(&mut self, v: &[T]) -> Ref<[T], $E, $O> {
                self.store_slice(v)
            }
            fn z_capacity(&self) -> usize {
                self.capacity()
            }
            fn z_requested(&self) -> usize {
                self.requested()
            }
            fn z_clear(&mut self) {
                self.clear()
            }
            fn z_bytes(&self) -> &[u8] {
                self.as_slice()
            }
            fn z_replace_with_copy(&mut self) -> bool {
                #[allow(clippy::redundant_closure_call)]
                ($copy)(self)
            }
            fn z_align(&mut self) {
                StoreBuf::align_in_place(self)
            }
            $($more)*
        }
    };
    (owned $E:ty, $O:ty) => {
        zb!(OwnedBuf, OwnedBuf<$E, $O>, $E, $O, true, |me: &mut Self| {
            let c = me.clone();
            *me = c;
            true
        }, {
            fn z_swiss_map<K, V>(&mut self, e: Vec<(K, V)>) -> Option<Result<swiss::MapRef<K, V, Self::E, Self::O>, musli_zerocopy::Error>>
            where
                K: ZeroCopy + Visit<Target: Hash>,
                V: ZeroCopy,
            {
                Some(swiss::store_map(self, e))
            }
        });
    };
    (fixed $E:ty, $O:ty) => {
        zb!(SliceMut, SliceMut<'static, $E, $O>, $E, $O, false, |_: &mut Self| false, {});
    };
}
zb!(owned Little, u32);
zb!(owned Big, u32);
zb!(owned Little, usize);
zb!(owned Big, usize);
zb!(owned Big, u16);
zb!(owned Little, u8);
zb!(fixed Little, u32);
zb!(fixed Big, u16);

/// Memory for values under full control: any alignment, garbage in padding.
pub struct Val(Vec<Block>);
#[derive(Clone, Copy)]
#[repr(C, align(64))]
struct Block([u8; 64]);
impl Val {
    pub fn new(b: &[u8]) -> Self {
        let mut v = vec![Block([0; 64]); b.len().div_ceil(64).max(1)];
        for (c, x) in b.chunks(64).zip(v.iter_mut()) {
            x.0[..c.len()].copy_from_slice(c);
        }
        Val(v)
    }
    /// The bytes are those of a valid `T`.
    pub unsafe fn get<T>(&self) -> &T {
        &*self.0.as_ptr().cast()
    }
    pub unsafe fn slice<T>(&self, n: usize) -> &[T] {
        core::slice::from_raw_parts(self.0.as_ptr().cast(), n)
    }
}

pub fn raw<T: ?Sized>(v: &T) -> &[u8] {
    unsafe { core::slice::from_raw_parts(v as *const T as *const u8, size_of_val(v)) }
}

/// A reference handed out by a store, with the type it belongs to.
pub trait Handle<B: ZB> {
    fn off(&self) -> usize;
    fn ty(&self) -> String;
    /// The bytes of the reference itself and of its model.
    fn ref_bytes(&self) -> (Vec<u8>, Vec<u8>);
    fn check(&self, buf: &Buf, b: &[u8], mask: &[bool], what: &str);
    fn check_unaligned(&self, buf: &Buf, b: &[u8], mask: &[bool]);
    /// Overwrite through a mutable load.
    fn overwrite(&self, buf: &mut Buf, b: &[u8], mask: &[bool]);
    /// Store the reference itself; a reference to a reference is as deep as it gets.
    fn store_ref(&self, _buf: &mut B) -> Option<Box<dyn Handle<B>>> {
        None
    }
    fn follow(&self, buf: &Buf, h: &dyn Handle<B>, b: &[u8], mask: &[bool]);
    fn swap(&self, _buf: &mut B, _other: &dyn Handle<B>) -> bool {
        false
    }
}

pub fn same(got: &[u8], want: &[u8], mask: &[bool]) -> bool {
    got.len() == want.len() && got.iter().zip(want).zip(mask).all(|((a, b), m)| !m || a == b)
}
fn inside(buf: &Buf, got: *const u8, off: usize, what: &str, ty: &str) {
    let base = buf.get(..).unwrap().as_ptr();
    ensure!(
        got as usize == base as usize + off,
        "wrong-address",
        "{what}: {ty} at {off} was loaded from {} instead",
        (got as usize).wrapping_sub(base as usize)
    );
}
pub fn off_max<O>() -> usize {
    if size_of::<O>() >= 8 {
        usize::MAX
    } else {
        (1usize << (8 * size_of::<O>())) - 1
    }
}
pub fn be_bytes(v: usize, size: usize, be: bool) -> Vec<u8> {
    let mut b = v.to_le_bytes()[..size].to_vec();
    if be {
        b.reverse();
    }
    b
}

struct HOne<T: ?Sized + musli_zerocopy::pointer::Pointee, B: ZB>(Ref<T, B::E, B::O>);
impl<T: D, B: ZB> HOne<T, B> {
    fn overwrite_value(&self, buf: &mut Buf, b: &[u8], mask: &[bool]) {
        let base = buf.get(..).unwrap().as_ptr() as usize;
        match buf.load_mut(self.0) {
            Ok(v) => {
                let p = v as *mut T as *mut u8;
                ensure!(p as usize == base + self.0.offset(), "wrong-address", "mutable load of {}", self.ty());
                for i in 0..size_of::<T>() {
                    if mask[i] {
                        unsafe { p.add(i).write(b[i]) };
                    }
                }
            }
            Err(e) => violate("lost-value", format!("mutable load of {} at {} failed: {e}", self.ty(), self.0.offset())),
        }
    }
}
impl<T: D, B: ZB> HOne<T, B>
where
    Ref<T, B::E, B::O>: D,
{
    fn ty(&self) -> String {
        std::any::type_name::<T>().replace("sim_zc::types::", "").replace("musli_zerocopy::", "")
    }
}
impl<T: D, B: ZB> Handle<B> for HOne<T, B> {
    fn off(&self) -> usize {
        self.0.offset()
    }
    fn ty(&self) -> String {
        self.ty()
    }
    fn ref_bytes(&self) -> (Vec<u8>, Vec<u8>) {
        (raw(&self.0).to_vec(), be_bytes(self.0.offset(), size_of::<B::O>(), B::E::BE))
    }
    fn check(&self, buf: &Buf, b: &[u8], mask: &[bool], what: &str) {
        let off = self.0.offset();
        let one = |r: Result<&T, musli_zerocopy::Error>, how: &str| match r {
            Ok(v) => {
                inside(buf, v as *const T as *const u8, off, what, &self.ty());
                ensure!(
                    same(raw(v), b, mask),
                    "wrong-value",
                    "{what}: {how} of {} at {off} gave {}, stored {}",
                    self.ty(),
                    hex(raw(v)),
                    hex(b)
                );
            }
            Err(e) => violate("lost-value", format!("{what}: {how} of {} at {off} failed: {e}", self.ty())),
        };
        one(buf.load(self.0), "load");
        one(buf.load_at::<T>(off), "load_at");
        one(buf.load(Ref::<T>::new(off as u32)), "load through a rebuilt reference");
    }
    fn check_unaligned(&self, buf: &Buf, b: &[u8], mask: &[bool]) {
        let off = self.0.offset();
        match buf.load_at_unaligned::<T>(off) {
            Ok(v) => ensure!(
                same(raw(&v), b, mask),
                "wrong-value",
                "load_at_unaligned of {} at {off} gave {}, stored {}",
                self.ty(),
                hex(raw(&v)),
                hex(b)
            ),
            Err(e) => violate("lost-value", format!("load_at_unaligned of {} at {off} failed: {e}", self.ty())),
        }
    }
    fn overwrite(&self, buf: &mut Buf, b: &[u8], mask: &[bool]) {
        self.overwrite_value(buf, b, mask)
    }
    fn store_ref(&self, buf: &mut B) -> Option<Box<dyn Handle<B>>> {
        let r = buf.store(&self.0);
        Some(Box::new(HRef::<T, B>(r)))
    }
    fn follow(&self, _: &Buf, _: &dyn Handle<B>, _: &[u8], _: &[bool]) {}
    fn swap(&self, buf: &mut B, other: &dyn Handle<B>) -> bool {
        match buf.swap::<T>(self.0, Ref::new(other.off())) {
            Ok(()) => true,
            Err(e) => violate("refused", format!("swap of two stored {} failed: {e}", self.ty())),
        }
    }
}

/// A stored reference to a value.
struct HRef<T: D, B: ZB>(Ref<Ref<T, B::E, B::O>, B::E, B::O>);
impl<T: D, B: ZB> Handle<B> for HRef<T, B> {
    fn off(&self) -> usize {
        self.0.offset()
    }
    fn ty(&self) -> String {
        format!("Ref<{}>", std::any::type_name::<T>())
    }
    fn ref_bytes(&self) -> (Vec<u8>, Vec<u8>) {
        (raw(&self.0).to_vec(), be_bytes(self.0.offset(), size_of::<B::O>(), B::E::BE))
    }
    fn check(&self, buf: &Buf, b: &[u8], mask: &[bool], what: &str) {
        HOne::<Ref<T, B::E, B::O>, B>(self.0).check(buf, b, mask, what)
    }
    fn check_unaligned(&self, buf: &Buf, b: &[u8], mask: &[bool]) {
        HOne::<Ref<T, B::E, B::O>, B>(self.0).check_unaligned(buf, b, mask)
    }
    fn overwrite(&self, _: &mut Buf, _: &[u8], _: &[bool]) {}
    fn follow(&self, buf: &Buf, h: &dyn Handle<B>, b: &[u8], mask: &[bool]) {
        match buf.load(self.0) {
            Ok(r) => {
                ensure!(r.offset() == h.off(), "wrong-value", "stored reference leads to {} instead of {}", r.offset(), h.off());
                HOne::<T, B>(*r).check(buf, b, mask, "through a stored reference");
            }
            Err(e) => violate("lost-value", format!("stored reference at {} failed: {e}", self.0.offset())),
        }
    }
}

struct HMany<T: D, B: ZB>(Ref<[T], B::E, B::O>, usize);
fn many_check<T: D, B: ZB>(r: Ref<[T], B::E, B::O>, n: usize, buf: &Buf, b: &[u8], mask: &[bool], what: &str) {
    let ty = std::any::type_name::<T>();
    let off = r.offset();
    let s = size_of::<T>();
    ensure!(r.len() == n, "wrong-value", "{what}: [{ty}] of {n} at {off} claims {} elements", r.len());
    ensure!(r.is_empty() == (n == 0), "wrong-value", "{what}: is_empty of [{ty}] of {n}");
    match buf.load(r) {
        Ok(v) => {
            ensure!(v.len() == n, "wrong-value", "{what}: [{ty}] of {n} at {off} loaded as {} elements", v.len());
            inside(buf, v.as_ptr().cast(), off, what, ty);
            ensure!(same(raw(v), b, mask), "wrong-value", "{what}: [{ty}] at {off} gave {}, stored {}", hex(raw(v)), hex(b));
        }
        Err(e) => violate("lost-value", format!("{what}: load of [{ty}] of {n} at {off} failed: {e}")),
    }
    let each = |i: usize, r: Ref<T, B::E, B::O>, how: &str| {
        HOne::<T, B>(r).check(buf, &b[i * s..(i + 1) * s], &mask[i * s..(i + 1) * s], how);
        ensure!(r.offset() == off + i * s, "wrong-value", "{how}: element {i} of [{ty}] at {off} is said to be at {}", r.offset());
    };
    ensure!(r.get(n).is_none() && r.get(n + 1 + below(3)).is_none(), "wrong-value", "element past the end of [{ty}] of {n}");
    let reach = off_max::<B::O>();
    if n > 0 && off + (n - 1) * s > reach {
        // The offset type cannot say where the last elements are.
        let i = below(n);
        match r.get(i) {
            Some(e) => each(i, e, "get"),
            None => ensure!(off + i * s > reach, "lost-value", "{what}: [{ty}] of {n} has no element {i}"),
        }
        return;
    }
    if n > 0 {
        let i = below(n);
        match r.get(i) {
            Some(e) => each(i, e, "get"),
            None => violate("lost-value", format!("{what}: [{ty}] of {n} has no element {i}")),
        }
        each(i, r.get_unchecked(i), "get_unchecked");
    }
    // Both ends in a random order.
    let (mut lo, mut hi) = (0, n);
    let mut it = r.iter();
    while lo < hi {
        if choose(2) == 0 {
            match it.next() {
                Some(e) => each(lo, e, "iter"),
                None => violate("lost-value", format!("{what}: iter over [{ty}] of {n} ended at {lo}..{hi}")),
            }
            lo += 1;
        } else {
            hi -= 1;
            match it.next_back() {
                Some(e) => each(hi, e, "iter back"),
                None => violate("lost-value", format!("{what}: iter over [{ty}] of {n} ended at {lo}..{hi}")),
            }
        }
    }
    ensure!(it.next().is_none() && it.next_back().is_none(), "wrong-value", "{what}: iter over [{ty}] of {n} goes on");
    let at = below(n + 1);
    if off + at * s > reach {
        return;
    }
    let (x, y) = r.split_at(at);
    for (part, from, to) in [(x, 0, at), (y, at, n)] {
        ensure!(part.len() == to - from, "wrong-value", "split of [{ty}] of {n} at {at}");
        match buf.load(part) {
            Ok(v) => ensure!(same(raw(v), &b[from * s..to * s], &mask[from * s..to * s]), "wrong-value", "split of [{ty}] of {n} at {at}"),
            Err(e) => violate("lost-value", format!("{what}: split of [{ty}] of {n} at {at} failed: {e}")),
        }
    }
}
impl<T: D, B: ZB> Handle<B> for HMany<T, B> {
    fn off(&self) -> usize {
        self.0.offset()
    }
    fn ty(&self) -> String {
        format!("[{}]", std::any::type_name::<T>())
    }
    fn ref_bytes(&self) -> (Vec<u8>, Vec<u8>) {
        let mut m = be_bytes(self.0.offset(), size_of::<B::O>(), B::E::BE);
        m.extend(be_bytes(self.1, size_of::<B::O>(), B::E::BE));
        (raw(&self.0).to_vec(), m)
    }
    fn check(&self, buf: &Buf, b: &[u8], mask: &[bool], what: &str) {
        many_check::<T, B>(self.0, self.1, buf, b, mask, what)
    }
    fn check_unaligned(&self, buf: &Buf, b: &[u8], mask: &[bool]) {
        let s = size_of::<T>();
        for i in 0..self.1.min(4) {
            let Some(r) = self.0.get(i) else { break };
            HOne::<T, B>(r).check_unaligned(buf, &b[i * s..(i + 1) * s], &mask[i * s..(i + 1) * s]);
        }
    }
    fn overwrite(&self, buf: &mut Buf, b: &[u8], mask: &[bool]) {
        match buf.load_mut(self.0) {
            Ok(v) => {
                ensure!(v.len() == self.1, "wrong-value", "mutable load of {} gave {} of {}", self.ty(), v.len(), self.1);
                let p = v.as_mut_ptr().cast::<u8>();
                for i in 0..b.len() {
                    if mask[i] {
                        unsafe { p.add(i).write(b[i]) };
                    }
                }
            }
            Err(e) => violate("lost-value", format!("mutable load of {} at {} failed: {e}", self.ty(), self.0.offset())),
        }
    }
    fn store_ref(&self, buf: &mut B) -> Option<Box<dyn Handle<B>>> {
        let r = buf.store(&self.0);
        Some(Box::new(HManyRef::<T, B>(r, self.1)))
    }
    fn follow(&self, _: &Buf, _: &dyn Handle<B>, _: &[u8], _: &[bool]) {}
}
struct HManyRef<T: D, B: ZB>(Ref<Ref<[T], B::E, B::O>, B::E, B::O>, usize);
impl<T: D, B: ZB> Handle<B> for HManyRef<T, B> {
    fn off(&self) -> usize {
        self.0.offset()
    }
    fn ty(&self) -> String {
        format!("Ref<[{}]>", std::any::type_name::<T>())
    }
    fn ref_bytes(&self) -> (Vec<u8>, Vec<u8>) {
        (raw(&self.0).to_vec(), be_bytes(self.0.offset(), size_of::<B::O>(), B::E::BE))
    }
    fn check(&self, buf: &Buf, b: &[u8], mask: &[bool], what: &str) {
        HOne::<Ref<[T], B::E, B::O>, B>(self.0).check(buf, b, mask, what)
    }
    fn check_unaligned(&self, buf: &Buf, b: &[u8], mask: &[bool]) {
        HOne::<Ref<[T], B::E, B::O>, B>(self.0).check_unaligned(buf, b, mask)
    }
    fn overwrite(&self, _: &mut Buf, _: &[u8], _: &[bool]) {}
    fn follow(&self, buf: &Buf, _: &dyn Handle<B>, b: &[u8], mask: &[bool]) {
        match buf.load(self.0) {
            Ok(r) => many_check::<T, B>(*r, self.1, buf, b, mask, "through a stored reference"),
            Err(e) => violate("lost-value", format!("stored reference at {} failed: {e}", self.0.offset())),
        }
    }
}

struct HStr<B: ZB>(Ref<str, B::E, B::O>, usize);
fn str_check<B: ZB>(r: Ref<str, B::E, B::O>, n: usize, buf: &Buf, b: &[u8], what: &str) {
    ensure!(r.len() == n && r.is_empty() == (n == 0), "wrong-value", "{what}: text of {n} bytes claims {}", r.len());
    match buf.load(r) {
        Ok(v) => {
            inside(buf, v.as_ptr(), r.offset(), what, "str");
            ensure!(v.as_bytes() == b, "wrong-value", "{what}: text at {} gave {v:?}, stored {}", r.offset(), hex(b));
        }
        Err(e) => violate("lost-value", format!("{what}: load of text of {n} bytes at {} failed: {e}", r.offset())),
    }
}
impl<B: ZB> Handle<B> for HStr<B> {
    fn off(&self) -> usize {
        self.0.offset()
    }
    fn ty(&self) -> String {
        "str".into()
    }
    fn ref_bytes(&self) -> (Vec<u8>, Vec<u8>) {
        let mut m = be_bytes(self.0.offset(), size_of::<B::O>(), B::E::BE);
        m.extend(be_bytes(self.1, size_of::<B::O>(), B::E::BE));
        (raw(&self.0).to_vec(), m)
    }
    fn check(&self, buf: &Buf, b: &[u8], _: &[bool], what: &str) {
        str_check::<B>(self.0, self.1, buf, b, what)
    }
    fn check_unaligned(&self, buf: &Buf, b: &[u8], _: &[bool]) {
        str_check::<B>(self.0, self.1, buf, b, "misaligned archive")
    }
    fn overwrite(&self, buf: &mut Buf, b: &[u8], _: &[bool]) {
        match buf.load_mut(self.0) {
            Ok(v) => {
                ensure!(v.len() == self.1, "wrong-value", "mutable load of text");
                unsafe { v.as_bytes_mut().copy_from_slice(b) }
            }
            Err(e) => violate("lost-value", format!("mutable load of text at {} failed: {e}", self.0.offset())),
        }
    }
    fn store_ref(&self, buf: &mut B) -> Option<Box<dyn Handle<B>>> {
        Some(Box::new(HStrRef(buf.store(&self.0), self.1)))
    }
    fn follow(&self, _: &Buf, _: &dyn Handle<B>, _: &[u8], _: &[bool]) {}
}
struct HStrRef<B: ZB>(Ref<Ref<str, B::E, B::O>, B::E, B::O>, usize);
impl<B: ZB> Handle<B> for HStrRef<B> {
    fn off(&self) -> usize {
        self.0.offset()
    }
    fn ty(&self) -> String {
        "Ref<str>".into()
    }
    fn ref_bytes(&self) -> (Vec<u8>, Vec<u8>) {
        (raw(&self.0).to_vec(), be_bytes(self.0.offset(), size_of::<B::O>(), B::E::BE))
    }
    fn check(&self, buf: &Buf, b: &[u8], mask: &[bool], what: &str) {
        HOne::<Ref<str, B::E, B::O>, B>(self.0).check(buf, b, mask, what)
    }
    fn check_unaligned(&self, buf: &Buf, b: &[u8], mask: &[bool]) {
        HOne::<Ref<str, B::E, B::O>, B>(self.0).check_unaligned(buf, b, mask)
    }
    fn overwrite(&self, _: &mut Buf, _: &[u8], _: &[bool]) {}
    fn follow(&self, buf: &Buf, _: &dyn Handle<B>, b: &[u8], _: &[bool]) {
        match buf.load(self.0) {
            Ok(r) => str_check::<B>(*r, self.1, buf, b, "through a stored reference"),
            Err(e) => violate("lost-value", format!("stored reference at {} failed: {e}", self.0.offset())),
        }
    }
}

/// A place reserved for a value that is written later.
trait Pending<B: ZB> {
    fn off(&self) -> usize;
    fn write(&self, buf: &mut B, b: &[u8]);
    fn done(&self) -> Box<dyn Handle<B>>;
}
struct POne<T: D, B: ZB>(Ref<MaybeUninit<T>, B::E, B::O>);
impl<T: D, B: ZB> Pending<B> for POne<T, B> {
    fn off(&self) -> usize {
        self.0.offset()
    }
    fn write(&self, buf: &mut B, b: &[u8]) {
        let v = Val::new(b);
        buf.z_write(self.0, unsafe { v.get::<T>() })
    }
    fn done(&self) -> Box<dyn Handle<B>> {
        Box::new(HOne::<T, B>(self.0.assume_init()))
    }
}

pub struct TypeOps<B: ZB> {
    pub name: &'static str,
    pub desc: fn() -> Desc,
    pub store: fn(&mut B, &[u8]) -> Box<dyn Handle<B>>,
    pub slice: fn(&mut B, &[u8], usize) -> Box<dyn Handle<B>>,
    uninit: fn(&mut B) -> Box<dyn Pending<B>>,
    align: fn(&mut B),
    next: fn(&mut B) -> usize,
}
fn type_ops<T: D, B: ZB>(name: &'static str) -> TypeOps<B> {
    TypeOps {
        name,
        desc: T::desc,
        store: |buf, b| {
            let v = Val::new(b);
            Box::new(HOne::<T, B>(buf.store(unsafe { v.get::<T>() })))
        },
        slice: |buf, b, n| {
            let v = Val::new(b);
            let v = unsafe { v.slice::<T>(n) };
            let r = if choose(2) == 0 { buf.z_slice(v) } else { buf.store_unsized(v) };
            Box::new(HMany::<T, B>(r, n))
        },
        uninit: |buf| Box::new(POne::<T, B>(buf.z_uninit::<T>())),
        align: |buf| buf.z_request_align::<T>(),
        next: |buf| buf.z_next::<T>(),
    }
}
#[macro_export]
macro_rules! all_types {
    ($m:ident) => {
        $m!(
            u8, u16, u32, u64, u128, i32, f64, bool, char, NonZeroU8, NonZeroI16, NonZeroU32, NonZeroU64, NonZeroU128, Option<NonZeroU16>, Option<NonZeroU64>, (),
            [u16; 3], [bool; 5], [char; 2], [u64; 0], [Pair; 2], Pair, Mixed, Flags, Wide, Nest, Pack1, Pack2, Pack4, Al16, Al32, Trans, Unit, Floats, Orders,
            Enums, Refs, Marked, Unit8, E8, E16, E32, EI8, E64, E128, ESwap, Wrapping<i16>, Endian<u32, Big>, Endian<u16, Little>
        )
    };
}
pub fn ops<B: ZB>() -> Vec<TypeOps<B>> {
    use musli_zerocopy::Endian;
    use std::num::*;
    macro_rules! table { ($($t:ty),*) => { vec![$(type_ops::<$t, B>(stringify!($t))),*] } }
    all_types!(table)
}

pub fn text() -> String {
    match choose(5) {
        0 => String::new(),
        1 => "\0".into(),
        2 => "\u{10FFFF}é".into(),
        _ => (0..below(20)).map(|_| *pick(&['a', 'b', 'ß', '水', '🦀', '\u{7f}', '/'])).collect(),
    }
}

#[derive(Clone, Debug)]
enum Op {
    Store(usize, Vec<u8>, Vec<bool>),
    Slice(usize, usize, Vec<u8>, Vec<bool>),
    Str(String),
    Reserve(usize),
    Write(usize, Vec<u8>, Vec<bool>),
    Align(usize),
    Next(usize),
    Extend(Vec<u8>),
    More(usize),
    AlignInPlace,
    Copy,
    StoreRef(usize),
    Overwrite(usize, u64),
    Swap(usize, usize),
    Check(usize),
    Clear,
}

struct Item<B: ZB> {
    h: Box<dyn Handle<B>>,
    off: usize,
    bytes: Vec<u8>,
    mask: Vec<bool>,
    align: usize,
    /// The type stored, to swap with another of the same.
    ty: Option<usize>,
    /// What it refers to.
    to: Option<usize>,
    /// Still to be written.
    pending: Option<Box<dyn Pending<B>>>,
    text: bool,
}

fn plan() -> Vec<Op> {
    use crate::build::ops;
    let tab = ops::<OwnedBuf<Little, u32>>();
    let max = if st().thorough { 60 } else { 25 };
    let n = 1 + size(max - 1);
    // A few types recur in one archive.
    let few: Vec<usize> = (0..1 + below(6)).map(|_| below(tab.len())).collect();
    let fill = |t: usize, n: usize| {
        let d = (tab[t].desc)();
        let s = d.size();
        let mut b = vec![0; s * n];
        let mut m = vec![false; s * n];
        for i in 0..n {
            d.fill(&mut b[i * s..(i + 1) * s], &mut m[i * s..(i + 1) * s]);
        }
        (b, m)
    };
    let mut out = vec![];
    for _ in 0..n {
        let t = if choose(4) == 0 { below(tab.len()) } else { *pick(&few) };
        out.push(match choose(30) {
            0..=7 => {
                let (b, m) = fill(t, 1);
                Op::Store(t, b, m)
            }
            8..=11 => {
                let n = match choose(8) {
                    0 => 0,
                    1 => 1 + below(60),
                    2 if chance(1, 4) => 255 + below(3),
                    _ => 1 + below(5),
                };
                let (b, m) = fill(t, n);
                Op::Slice(t, n, b, m)
            }
            12..=13 => Op::Str(text()),
            14..=15 => Op::Reserve(t),
            16..=17 => {
                let (b, m) = fill(t, 1);
                Op::Write(t, b, m)
            }
            18 => Op::Align(t),
            19 => Op::Next(t),
            20 => {
                let mut b = vec![0; size(40)];
                rand_bytes(&mut b);
                Op::Extend(b)
            }
            21 => Op::More(size(300)),
            22 => Op::AlignInPlace,
            23 => Op::Copy,
            24..=25 => Op::StoreRef(below(100)),
            26 => Op::Overwrite(below(100), choose(u64::MAX)),
            27 => Op::Swap(below(100), below(100)),
            28 if chance(1, 6) => Op::Clear,
            _ => Op::Check(below(100)),
        });
    }
    out
}

/// Fill the bytes no value owns with something else.
fn garbage(b: &[u8], mask: &[bool], salt: u64) -> Vec<u8> {
    let mut x = salt;
    b.iter()
        .zip(mask)
        .map(|(b, m)| {
            x = mix(x, 7);
            if *m {
                *b
            } else {
                (x >> 16) as u8
            }
        })
        .collect()
}

struct Built<B: ZB> {
    items: Vec<Item<B>>,
    bytes: Vec<u8>,
    align: usize,
}

/// Run an operation that may be refused by a panic.
pub fn try_op<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    runner::EXPECT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    runner::EXPECT.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
    match r {
        Ok(r) => Ok(r),
        Err(p) => {
            if p.is::<Violation>() || p.is::<Discard>() {
                std::panic::resume_unwind(p);
            }
            let (loc, msg) = runner::last_panic();
            Err(format!("{loc}: {msg}"))
        }
    }
}

fn intact<B: ZB>(buf: &B, upto: &[u8], what: &str) {
    let got = buf.z_bytes();
    ensure!(
        got.len() >= upto.len() && got[..upto.len()] == *upto,
        "disturbed",
        "{what} changed what was stored before: {} became {}",
        hex(upto),
        hex(&got[..upto.len().min(got.len())])
    );
}

fn execute<B: ZB>(plan: &[Op], buf: &mut B, salt: u64, checks: bool) -> Built<B> {
    let tab = ops::<B>();
    let mut items: Vec<Item<B>> = vec![];
    let mut model: Vec<u8> = buf.z_bytes().to_vec();
    let mut align = 1usize;
    let off_max = off_max::<B::O>();
    for op in plan {
        step();
        let before = model.len();
        // What it needs, and whether refusing it is in order.
        let (a, size, count) = match op {
            Op::Store(t, b, _) => ((tab[*t].desc)().align(), b.len(), 0),
            Op::Slice(t, n, b, _) => ((tab[*t].desc)().align(), b.len(), *n),
            Op::Str(s) => (1, s.len(), s.len()),
            Op::Reserve(t) | Op::Align(t) | Op::Next(t) => {
                let d = (tab[*t].desc)();
                (d.align(), d.size(), 0)
            }
            Op::Extend(b) => (1, b.len(), 0),
            Op::More(n) => (1, *n, 0),
            Op::StoreRef(_) => (align_of::<B::O>(), 2 * size_of::<B::O>(), 0),
            _ => (1, 0, 0),
        };
        let old_align = align;
        align = align.max(a);
        let end = before.div_ceil(align) * align + size;
        let fits = (B::OWNED || (end <= buf.z_capacity() && align.max(buf.z_requested()) <= buf.z_capacity())) && end <= off_max && count <= off_max;
        let live = |i: usize, items: &[Item<B>]| {
            let l: Vec<usize> = (0..items.len()).filter(|k| items[*k].pending.is_none()).collect();
            if l.is_empty() {
                None
            } else {
                Some(l[i % l.len()])
            }
        };
        let mut put: Option<Result<Item<B>, String>> = None;
        let mut other: Result<(), String> = Ok(());
        let item = |h: Box<dyn Handle<B>>, bytes: &[u8], mask: &[bool], ty: Option<usize>, text: bool| Item {
            off: h.off(),
            h,
            bytes: bytes.to_vec(),
            mask: mask.to_vec(),
            align: a,
            ty,
            to: None,
            pending: None,
            text,
        };
        match op {
            Op::Store(t, b, m) => {
                let g = garbage(b, m, salt);
                put = Some(try_op(|| (tab[*t].store)(buf, &g)).map(|h| item(h, b, m, Some(*t), false)));
            }
            Op::Slice(t, n, b, m) => {
                let g = garbage(b, m, salt);
                put = Some(try_op(|| (tab[*t].slice)(buf, &g, *n)).map(|h| item(h, b, m, None, false)));
            }
            Op::Str(s) => {
                put = Some(
                    try_op(|| buf.store_unsized(s.as_str()))
                        .map(|r| item(Box::new(HStr::<B>(r, s.len())), s.as_bytes(), &vec![true; s.len()], None, true)),
                );
            }
            Op::Reserve(t) => {
                put = Some(try_op(|| (tab[*t].uninit)(buf)).map(|p| Item {
                    off: p.off(),
                    h: p.done(),
                    bytes: vec![0; size],
                    mask: vec![false; size],
                    align: a,
                    ty: Some(*t),
                    to: None,
                    pending: Some(p),
                    text: false,
                }));
            }
            Op::Write(t, b, m) => {
                if let Some(i) = items.iter().position(|i| i.pending.is_some() && i.ty == Some(*t)) {
                    let g = garbage(b, m, salt);
                    let p = items[i].pending.take().unwrap();
                    if let Err(e) = try_op(|| p.write(buf, &g)) {
                        violate("refused", format!("writing a reserved {} failed: {e}", tab[*t].name));
                    }
                    items[i].bytes = b.clone();
                    items[i].mask = m.clone();
                    let off = items[i].off;
                    ev!("write the reserved {} at {off}", tab[*t].name);
                    intact(buf, &model[..off], "writing a reserved value");
                    let now = buf.z_bytes();
                    ensure!(now.len() == model.len(), "disturbed", "writing a reserved value changed the length");
                    ensure!(now[off + size_of_t(&tab, *t)..] == model[off + size_of_t(&tab, *t)..], "disturbed", "writing a reserved {} changed bytes after it", tab[*t].name);
                    model = now.to_vec();
                    probe("reserved value written");
                }
            }
            Op::Align(t) => other = try_op(|| (tab[*t].align)(buf)),
            Op::Next(t) => {
                other = try_op(|| (tab[*t].next)(buf)).map(|o| {
                    ensure!(o % a == 0 && o == buf.z_bytes().len(), "wrong-value", "next_offset of {} gave {o} at length {}", tab[*t].name, buf.z_bytes().len());
                });
            }
            Op::Extend(b) => {
                other = try_op(|| buf.z_extend(b)).map(|()| {
                    let now = buf.z_bytes();
                    ensure!(now.len() == before + b.len() && now[before..] == b[..], "wrong-value", "extend by {} bytes at {before}", b.len());
                });
            }
            Op::More(n) => other = try_op(|| buf.z_reserve(*n)),
            Op::AlignInPlace => {
                if B::OWNED {
                    buf.z_align();
                    let p = buf.z_bytes().as_ptr() as usize;
                    ensure!(p % align == 0, "misplaced", "align_in_place left the buffer at {p:#x} for alignment {align}");
                }
            }
            Op::Copy => {
                if buf.z_replace_with_copy() {
                    probe("buffer cloned");
                }
            }
            Op::StoreRef(i) => {
                if let Some(i) = live(*i, &items) {
                    let (got, want) = items[i].h.ref_bytes();
                    ensure!(got == want, "wrong-value", "reference to {} at {} is {}, not {}", items[i].h.ty(), items[i].off, hex(&got), hex(&want));
                    put = match try_op(|| items[i].h.store_ref(buf)) {
                        Ok(None) => None,
                        Ok(Some(h)) => {
                            let mut it = item(h, &want, &vec![true; want.len()], None, false);
                            it.to = Some(i);
                            Some(Ok(it))
                        }
                        Err(e) => Some(Err(e)),
                    };
                }
            }
            Op::Overwrite(i, x) => {
                if let Some(i) = live(*i, &items) {
                    if B::OWNED {
                        buf.z_align();
                    }
                    let it = &items[i];
                    let base = buf.z_bytes().as_ptr() as usize;
                    if base % align == 0 && it.to.is_none() {
                        let (b, m) = match it.ty {
                            Some(t) => {
                                // A permutation of the same value is not always valid: take a fresh one.
                                let d = (tab[t].desc)();
                                let mut b = vec![0; d.size()];
                                let mut m = vec![false; d.size()];
                                seeded_fill(&d, &mut b, &mut m, *x);
                                (b, m)
                            }
                            None if it.text => ((0..it.bytes.len()).map(|k| b'a' + (mix(*x, k as u64) % 26) as u8).collect(), it.mask.clone()),
                            None => (it.bytes.clone(), it.mask.clone()),
                        };
                        ev!("overwrite {} at {}", it.h.ty(), it.off);
                        it.h.overwrite(buf.as_mut_buf(), &b, &m);
                        let (off, len) = (it.off, it.bytes.len());
                        items[i].bytes = b;
                        items[i].mask = m;
                        let now = buf.z_bytes();
                        ensure!(now.len() == model.len() && now[..off] == model[..off] && now[off + len..] == model[off + len..], "disturbed", "overwriting one value");
                        model = now.to_vec();
                        probe("value overwritten in place");
                    }
                }
            }
            Op::Swap(i, j) => {
                if let (Some(i), Some(j)) = (live(*i, &items), live(*j, &items)) {
                    if items[i].ty.is_some() && items[i].ty == items[j].ty {
                        let (a, b) = (&items[i], &items[j]);
                        let s = a.bytes.len();
                        if a.h.swap(buf, &*b.h) {
                            let (oa, ob) = (a.off, b.off);
                            ev!("swap {} at {oa} and {ob}", a.h.ty());
                            for k in 0..s {
                                model.swap(oa + k, ob + k);
                            }
                            intact(buf, &model, "swap");
                            let t = (items[i].bytes.clone(), items[i].mask.clone());
                            items[i].bytes = items[j].bytes.clone();
                            items[i].mask = items[j].mask.clone();
                            (items[j].bytes, items[j].mask) = t;
                            probe("values swapped");
                        }
                    }
                }
            }
            Op::Check(i) => {
                if let (Some(i), true) = (live(*i, &items), checks) {
                    if buf.z_bytes().as_ptr() as usize % align == 0 {
                        let it = &items[i];
                        it.h.check(buf.as_buf(), &it.bytes, &it.mask, "while building");
                        probe("loaded while building");
                    }
                }
            }
            Op::Clear => {
                buf.z_clear();
                ensure!(buf.z_bytes().is_empty(), "wrong-value", "clear left bytes");
                items.clear();
                model.clear();
            }
        }
        if matches!(op, Op::StoreRef(_)) && put.is_none() {
            align = old_align;
        }
        let refused = match (&put, &other) {
            (Some(Err(e)), _) | (_, Err(e)) => Some(e.clone()),
            _ => None,
        };
        if let Some(e) = refused {
            ev!("{} refused: {e}", show(op));
            ensure!(!fits, "refused", "{} at {before} with capacity {} failed although there is room: {e}", show(op), buf.z_capacity());
            fault("store refused by a full buffer");
            note(1);
        } else {
            note(2);
        }
        intact(buf, &model, "an operation");
        model = buf.z_bytes().to_vec();
        if let Some(Ok(it)) = put {
            ev!("{} -> {} at {}", show(op), it.h.ty(), it.off);
            ensure!(it.off >= before && it.off % it.align == 0 && it.off + it.bytes.len() == model.len(), "misplaced", "{} was put at {} of {before}..{}", it.h.ty(), it.off, model.len());
            let s = &model[it.off..];
            ensure!(same(s, &it.bytes, &it.mask), "wrong-value", "{} was stored as {}, not {}", it.h.ty(), hex(s), hex(&it.bytes));
            items.push(it);
        }
        ensure!(buf.z_requested() >= align || !fits, "misplaced", "requested alignment {} below that of a stored value {align}", buf.z_requested());
        check_heap("a buffer operation");
        state(mix(mix(op_code(op), (before % 64) as u64), mix(align as u64, items.len() as u64)));
    }
    Built { items, bytes: model, align }
}
fn show(op: &Op) -> String {
    match op {
        Op::Store(t, b, _) => format!("store type {t} {}", hex(b)),
        Op::Slice(t, n, b, _) => format!("store slice of {n} of type {t} {}", hex(b)),
        Op::Write(t, b, _) => format!("write type {t} {}", hex(b)),
        o => format!("{o:?}"),
    }
}
fn op_code(op: &Op) -> u64 {
    match op {
        Op::Store(t, ..) => 100 + *t as u64,
        Op::Slice(t, n, ..) => 200 + *t as u64 + 1000 * (*n).min(3) as u64,
        Op::Reserve(t) => 300 + *t as u64,
        Op::Write(t, ..) => 400 + *t as u64,
        Op::Align(t) => 500 + *t as u64,
        Op::Next(t) => 600 + *t as u64,
        Op::Str(s) => 700 + s.len().min(5) as u64,
        Op::Extend(_) => 1,
        Op::More(_) => 2,
        Op::AlignInPlace => 3,
        Op::Copy => 4,
        Op::StoreRef(_) => 5,
        Op::Overwrite(..) => 6,
        Op::Swap(..) => 7,
        Op::Check(_) => 8,
        Op::Clear => 9,
    }
}
fn size_of_t<B: ZB>(tab: &[TypeOps<B>], t: usize) -> usize {
    (tab[t].desc)().size()
}
/// A value made without drawing from the tape, so that both builds agree.
fn seeded_fill(d: &Desc, b: &mut [u8], m: &mut [bool], x: u64) {
    for k in 0..200u64 {
        let mut y = mix(x, k);
        for v in b.iter_mut() {
            y = mix(y, 3);
            *v = match y % 4 {
                0 => 0,
                1 => 1,
                2 => 2,
                _ => (y >> 24) as u8,
            };
        }
        m.fill(false);
        if d.valid(b, m) {
            return;
        }
    }
    // The tag of an enum is rarely hit by chance: the first variant, zeros or ones.
    for fillv in [0u8, 1] {
        b.fill(fillv);
        m.fill(false);
        if d.valid(b, m) {
            return;
        }
    }
    let mut s = x;
    d.fill_with(b, m, &mut |n| {
        s = mix(s, 11);
        if n == 0 {
            s
        } else {
            s % n
        }
    });
}

/// Check every item wherever the archive is.
fn read_back<B: ZB>(built: &Built<B>, bytes_at: &Buf, what: &str) {
    let mut order: Vec<usize> = (0..built.items.len()).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, below(i + 1));
    }
    for i in order {
        let it = &built.items[i];
        if it.pending.is_some() {
            continue;
        }
        it.h.check(bytes_at, &it.bytes, &it.mask, what);
        if let Some(to) = it.to {
            let t = &built.items[to];
            if t.pending.is_none() {
                it.h.follow(bytes_at, &*t.h, &t.bytes, &t.mask);
            }
        }
        step();
    }
}

fn everywhere<B: ZB>(built: &Built<B>, keep: &Buf) {
    let bytes = &built.bytes;
    let al = built.align;
    for round in 0..1 + below(2) {
        let mut g = Guarded::new(bytes.len() + 4 * al + 64);
        let total = g.len();
        // As close to either guard page as the alignment allows.
        let at = match choose(3) {
            0 => (total - bytes.len()) / al * al,
            1 => 0,
            _ => below((total - bytes.len()) / al + 1) * al,
        };
        g.slice(0, total).fill(0xEE ^ round as u8);
        let dst = g.slice(at, bytes.len());
        dst.copy_from_slice(bytes);
        read_back(built, Buf::new(dst), "moved archive");
        fault("archive copied to another address");
    }
    // Misaligned: values can still be read one by one, and the archive realigned.
    let mut g = Guarded::new(bytes.len() + 64);
    let by = 1 + below(al.max(8) - 1);
    let at = (g.len() - bytes.len()).saturating_sub(64) / 64 * 64 + by;
    let room = g.len() - at;
    if room >= bytes.len() {
        let dst = g.slice(at, bytes.len());
        dst.copy_from_slice(bytes);
        let b = Buf::new(dst);
        for it in &built.items {
            if it.pending.is_none() {
                it.h.check_unaligned(b, &it.bytes, &it.mask);
            }
        }
        fault("archive placed at a misaligned address");
        let c = b.to_aligned_with(al);
        ensure!(c.get(..).unwrap() == &bytes[..], "wrong-value", "to_aligned_with changed the bytes");
        read_back(built, &c, "realigned archive");
    }
    if choose(3) == 0 {
        let o = keep.to_owned();
        ensure!(o.as_slice() == &bytes[..], "wrong-value", "to_owned changed the bytes");
        if o.as_slice().as_ptr() as usize % al == 0 {
            read_back(built, &o, "owned archive");
        }
    }
    check_heap("reading back");
}

fn owned<E: Order, O: Size + D>()
where
    OwnedBuf<E, O>: ZB<E = E, O = O>,
{
    let p = plan();
    ev!("OwnedBuf<{}, {}>", E::NAME, std::any::type_name::<O>());
    note(size_of::<O>() as u64 + 100 * E::BE as u64);
    let make = || {
        let b = match choose(4) {
            0 => OwnedBuf::new(),
            1 => OwnedBuf::with_capacity(size(200)),
            2 => OwnedBuf::with_capacity_and_alignment::<Al32>(size(100)),
            _ => OwnedBuf::with_capacity_and_alignment::<u8>(size(3000)),
        };
        b.with_byte_order::<E>().with_size::<O>()
    };
    let mut buf = make();
    let built = execute(&p, &mut buf, choose(u64::MAX), true);
    if !built.items.is_empty() {
        nontrivial();
    }
    buf.align_in_place();
    let al = built.align;
    ensure!(buf.as_slice().as_ptr() as usize % al == 0, "misplaced", "align_in_place left {:p} for alignment {al}", buf.as_slice());
    ensure!(buf.as_slice() == &built.bytes[..], "disturbed", "align_in_place changed the bytes");
    read_back(&built, &buf, "in place");
    let mut again = make();
    let second = execute(&p, &mut again, choose(u64::MAX), false);
    ensure!(
        again.as_slice() == buf.as_slice(),
        "not-reproducible",
        "the same archive built twice: {} and {}",
        hex(buf.as_slice()),
        hex(again.as_slice())
    );
    drop(second);
    everywhere(&built, &buf);
    drop((buf, again));
    check_heap("dropping the buffers");
}

fn fixed<E: Order, O: Size + D>()
where
    SliceMut<'static, E, O>: ZB<E = E, O = O>,
{
    let p = plan();
    let cap = match choose(3) {
        0 => size(200),
        1 => size(2000),
        _ => 4000,
    };
    let shift = if choose(2) == 0 { 0 } else { below(64) };
    ev!("SliceMut<{}, {}> of {cap} bytes, {shift} off", E::NAME, std::any::type_name::<O>());
    note(cap as u64);
    let how = choose(2);
    let make = |g: &mut Guarded, prefill: u8| {
        let total = g.len();
        g.slice(0, total).fill(prefill);
        // Ends at the guard page unless it has to be shifted.
        let at = if shift == 0 { (total - cap) / 64 * 64 } else { (total - cap).saturating_sub(shift) };
        let m: &'static mut [u8] = unsafe { core::mem::transmute(g.slice(at, cap)) };
        let b = if how == 0 { SliceMut::new(m) } else { SliceMut::with_alignment::<u32>(m) };
        b.with_byte_order::<E>().with_size::<O>()
    };
    let mut g = Guarded::new(cap + 64);
    let mut buf = make(&mut g, 0x5A);
    let built = execute(&p, &mut buf, choose(u64::MAX), true);
    if !built.items.is_empty() {
        nontrivial();
    }
    if buf.as_slice().as_ptr() as usize % built.align == 0 {
        read_back(&built, &buf, "in place");
    }
    let mut g2 = Guarded::new(cap + 64);
    let mut again = make(&mut g2, 0xC3);
    execute(&p, &mut again, choose(u64::MAX), false);
    ensure!(
        again.as_slice() == buf.as_slice(),
        "not-reproducible",
        "the same archive built twice: {} and {}",
        hex(buf.as_slice()),
        hex(again.as_slice())
    );
    // Nothing outside the slice was touched.
    let base = buf.as_slice().as_ptr() as usize - g.start() as usize;
    let len = g.len();
    ensure!(
        g.slice(0, base).iter().all(|b| *b == 0x5A) && g.slice(base + cap, len - base - cap).iter().all(|b| *b == 0x5A),
        "out-of-bounds",
        "bytes outside the fixed buffer were written"
    );
    everywhere(&built, &buf);
}

pub fn c12() {
    let f: &[fn()] = &[
        owned::<Little, u32>,
        owned::<Big, u32>,
        owned::<Little, usize>,
        owned::<Big, usize>,
        owned::<Big, u16>,
        owned::<Little, u8>,
        fixed::<Little, u32>,
        fixed::<Big, u16>,
    ];
    let f = pick(f);
    let _ = guard("building and reading an archive", f);
}
