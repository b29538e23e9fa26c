//! Seeded generation of values from the choice tape.
use simcore::*;
use std::cell::Cell;

pub struct Env {
    /// No NaN or infinities (formats whose text cannot carry them).
    pub finite: Cell<bool>,
    /// Addresses travel as their text, which omits flow labels.
    pub text: Cell<bool>,
    /// Remaining number of collection elements.
    pub fuel: Cell<usize>,
    pub long: Cell<bool>,
}
unsafe impl Sync for Env {}
pub static ENV: Env = Env { finite: Cell::new(false), text: Cell::new(false), fuel: Cell::new(200), long: Cell::new(false) };

pub fn reset(f: crate::fmt::Fmt) {
    crate::site::fresh();
    ENV.finite.set(f.is_json());
    ENV.text.set(f.text());
    ENV.fuel.set(*pick(&[12, 40, 200]));
    ENV.long.set(chance(1, 12));
}

/// The message will pass through JSON, whatever it starts as.
pub fn reset_for(f: crate::fmt::Fmt, json: bool) {
    reset(f);
    ENV.finite.set(json || f.is_json());
}

pub fn take_len(max: usize) -> usize {
    let n = size(max).min(ENV.fuel.get());
    ENV.fuel.set(ENV.fuel.get() - n);
    n
}

pub trait Gen: Sized {
    fn gen() -> Self;
    /// The value is a valid one of its type (asked of values decoded from damage).
    fn chk(&self) {}
}

fn raw<T>(v: &T, want: usize) -> u64 {
    assert_eq!(size_of::<T>(), want);
    let mut b = [0u8; 8];
    // looked at as bytes: the value itself may be invalid
    unsafe { core::ptr::copy_nonoverlapping(v as *const T as *const u8, b.as_mut_ptr(), want) };
    u64::from_le_bytes(std::hint::black_box(b))
}
pub fn chk_text(b: &[u8]) {
    let b = std::hint::black_box(b);
    ensure!(std::str::from_utf8(b).is_ok(), "invalid-text", "decoded text is not valid UTF-8: {}", hex(b));
}

macro_rules! ints {
    ($($t:ty),*) => {$(impl Gen for $t { fn gen() -> Self {
        let bits = <$t>::BITS as u64;
        match choose(8) {
            0 => choose(4) as $t,
            1 => choose(256) as $t,
            2 => <$t>::MAX.wrapping_sub(choose(3) as $t),
            3 => <$t>::MIN.wrapping_add(choose(3) as $t),
            4 | 5 => {
                let b = (1 as $t).wrapping_shl(choose(bits) as u32);
                let v = b.wrapping_add(choose(3) as $t).wrapping_sub(1);
                if choose(2) == 1 { (0 as $t).wrapping_sub(v) } else { v }
            }
            6 => (choose(0) as $t) ^ ((choose(0) as u128) << 64) as $t,
            _ => {
                let v = choose(0) as $t;
                v >> choose(bits) as u32
            }
        }
    }})*};
}
ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);

impl Gen for bool {
    fn gen() -> Self {
        choose(2) == 1
    }
    fn chk(&self) {
        let r = raw(self, 1);
        ensure!(r < 2, "invalid-bool", "decoded a bool of value {r}");
    }
}
impl Gen for () {
    fn gen() -> Self {}
}
impl Gen for char {
    fn chk(&self) {
        let r = raw(self, 4) as u32;
        ensure!(std::hint::black_box(char::from_u32(r)).is_some(), "invalid-char", "decoded a char of value {r:#x}");
    }
    fn gen() -> Self {
        match choose(8) {
            0..=2 => (b'a' + choose(26) as u8) as char,
            3 => *pick(&['"', '\\', '/', '\n', '\u{0}', '\u{1f}', '\u{7f}', '\t', '\u{8}', '\u{c}', '\r', ' ', '{', '\u{1b}']),
            4 => *pick(&['\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}']),
            5 => char::from_u32(choose(0x800) as u32).unwrap_or('x'),
            6 => char::from_u32(choose(0xd800) as u32).unwrap_or('y'),
            _ => char::from_u32(0x10000 + choose(0x100000) as u32).unwrap_or('z'),
        }
    }
}
impl Gen for String {
    fn chk(&self) {
        chk_text(self.as_bytes());
    }
    fn gen() -> Self {
        let n = if ENV.long.get() && chance(1, 6) { range(0, 20_000) } else { size(140) };
        let mut s = String::new();
        if n > 40 || chance(1, 3) {
            // one repeated pattern: cheap on the tape
            let c = char::gen();
            while s.len() < n {
                s.push(c);
            }
        } else {
            for _ in 0..n {
                s.push(char::gen());
            }
        }
        s
    }
}
pub fn bytes(max: usize) -> Vec<u8> {
    let n = if ENV.long.get() && chance(1, 6) { range(0, 20_000) } else { size(max) };
    let base = choose(256) as u8;
    let mul = choose(256) as u8;
    (0..n).map(|i| base.wrapping_add((i as u8).wrapping_mul(mul))).collect()
}

/// Floats compared by bits.
#[derive(Clone, Copy, Default, musli::Encode, musli::Decode)]
#[musli(transparent)]
pub struct F32(pub f32);
#[derive(Clone, Copy, Default, musli::Encode, musli::Decode)]
#[musli(transparent)]
pub struct F64(pub f64);
macro_rules! float {
    ($w:ident, $t:ident, $b:ident) => {
        impl PartialEq for $w {
            fn eq(&self, o: &Self) -> bool {
                // The payload of a NaN is not promised.
                self.0.to_bits() == o.0.to_bits() || (self.0.is_nan() && o.0.is_nan())
            }
        }
        impl Eq for $w {}
        impl std::fmt::Debug for $w {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{:?}", self.0)
            }
        }
        impl Gen for $w {
            fn gen() -> Self {
                let v = match choose(7) {
                    0 => choose(10) as $t,
                    1 => -(choose(1000) as $t) / 8.0,
                    2 => *pick(&[0.0, -0.0, 1.0, -1.0, 0.1, $t::MAX, $t::MIN, $t::MIN_POSITIVE, $t::EPSILON, 1e21, 1e-7, 123456789.0]),
                    3 => $t::from_bits(choose(1000) as $b),
                    4 => $t::from_bits($b::gen()),
                    5 => (choose(0) as i64) as $t,
                    _ => $t::from_bits(choose(0) as $b),
                };
                if !v.is_finite() && ENV.finite.get() {
                    $w(0.5)
                } else {
                    $w(v)
                }
            }
        }
    };
}
float!(F32, f32, u32);
float!(F64, f64, u64);

impl<T: Gen> Gen for Option<T> {
    fn chk(&self) {
        self.iter().for_each(T::chk)
    }
    fn gen() -> Self {
        if choose(3) == 0 {
            None
        } else {
            Some(T::gen())
        }
    }
}
impl<T: Gen, U: Gen> Gen for Result<T, U> {
    fn chk(&self) {
        match self {
            Ok(v) => v.chk(),
            Err(v) => v.chk(),
        }
    }
    fn gen() -> Self {
        if choose(2) == 0 {
            Ok(T::gen())
        } else {
            Err(U::gen())
        }
    }
}
impl<T: Gen> Gen for Box<T> {
    fn chk(&self) {
        (**self).chk()
    }
    fn gen() -> Self {
        Box::new(T::gen())
    }
}
impl<T: Gen> Gen for std::sync::Arc<T> {
    fn chk(&self) {
        (**self).chk()
    }
    fn gen() -> Self {
        std::sync::Arc::new(T::gen())
    }
}
impl<T: Gen> Gen for std::rc::Rc<T> {
    fn chk(&self) {
        (**self).chk()
    }
    fn gen() -> Self {
        std::rc::Rc::new(T::gen())
    }
}
impl<T: Gen> Gen for std::num::Wrapping<T> {
    fn chk(&self) {
        self.0.chk()
    }
    fn gen() -> Self {
        std::num::Wrapping(T::gen())
    }
}
impl Gen for Box<str> {
    fn chk(&self) {
        chk_text(self.as_bytes());
    }
    fn gen() -> Self {
        String::gen().into()
    }
}
impl Gen for std::sync::Arc<str> {
    fn chk(&self) {
        chk_text(self.as_bytes());
    }
    fn gen() -> Self {
        String::gen().into()
    }
}
impl<T: Gen> Gen for Vec<T> {
    fn chk(&self) {
        self.iter().for_each(|v| v.chk())
    }
    fn gen() -> Self {
        let n = take_len(70);
        (0..n).map(|_| T::gen()).collect()
    }
}
impl<T: Gen> Gen for Box<[T]> {
    fn chk(&self) {
        self.iter().for_each(|v| v.chk())
    }
    fn gen() -> Self {
        Vec::<T>::gen().into()
    }
}
impl<T: Gen> Gen for std::collections::VecDeque<T> {
    fn chk(&self) {
        self.iter().for_each(|v| v.chk())
    }
    fn gen() -> Self {
        // wrapped around, so that the two halves matter
        let v = Vec::<T>::gen();
        let k = below(v.len() + 1);
        let mut d = std::collections::VecDeque::with_capacity(v.len());
        let mut it = v.into_iter();
        let mut front = Vec::new();
        for _ in 0..k {
            front.push(it.next().unwrap());
        }
        for x in it {
            d.push_back(x);
        }
        for x in front {
            d.push_front(x);
        }
        d
    }
}
impl<T: Gen + Ord> Gen for std::collections::BTreeSet<T> {
    fn chk(&self) {
        self.iter().for_each(|v| v.chk())
    }
    fn gen() -> Self {
        Vec::gen().into_iter().collect()
    }
}
impl<K: Gen + Ord, V: Gen> Gen for std::collections::BTreeMap<K, V> {
    fn chk(&self) {
        self.iter().for_each(|(k, v)| {
            k.chk();
            v.chk()
        })
    }
    fn gen() -> Self {
        let n = take_len(40);
        (0..n).map(|_| (K::gen(), V::gen())).collect()
    }
}
/// Deterministic hasher state.
#[derive(Clone, Default, Debug, PartialEq, Eq)]
pub struct Fixed;
impl std::hash::BuildHasher for Fixed {
    type Hasher = std::collections::hash_map::DefaultHasher;
    fn build_hasher(&self) -> Self::Hasher {
        std::collections::hash_map::DefaultHasher::new()
    }
}
impl<K: Gen + std::hash::Hash + Eq, V: Gen> Gen for std::collections::HashMap<K, V, Fixed> {
    fn chk(&self) {
        self.iter().for_each(|(k, v)| {
            k.chk();
            v.chk()
        })
    }
    fn gen() -> Self {
        let n = take_len(40);
        (0..n).map(|_| (K::gen(), V::gen())).collect()
    }
}
impl<K: Gen + std::hash::Hash + Eq> Gen for std::collections::HashSet<K, Fixed> {
    fn chk(&self) {
        self.iter().for_each(|v| v.chk())
    }
    fn gen() -> Self {
        Vec::gen().into_iter().collect()
    }
}
impl<T: Gen, const N: usize> Gen for [T; N] {
    fn chk(&self) {
        self.iter().for_each(|v| v.chk())
    }
    fn gen() -> Self {
        std::array::from_fn(|_| T::gen())
    }
}
macro_rules! tuples {
    ($(($($t:ident)*))*) => {$(impl<$($t: Gen),*> Gen for ($($t,)*) { fn gen() -> Self { ($($t::gen(),)*) }
    #[allow(non_snake_case)]
    fn chk(&self) { let ($($t,)*) = self; $($t.chk();)* } })*};
}
tuples!((A)(A B)(A B C)(A B C D)(A B C D E)(A B C D E F G));
impl<T> Gen for std::marker::PhantomData<T> {
    fn gen() -> Self {
        std::marker::PhantomData
    }
}
macro_rules! nonzero {
    ($($t:ident $n:ident),*) => {$(impl Gen for std::num::$n { fn gen() -> Self { std::num::$n::new($t::gen()).unwrap_or(std::num::$n::MAX) }
    fn chk(&self) {
        let b = unsafe { core::slice::from_raw_parts(self as *const Self as *const u8, size_of::<Self>()) };
        ensure!(std::hint::black_box(b).iter().any(|b| *b != 0), "invalid-nonzero", "decoded a zero as {}", stringify!($n));
    } })*};
}
nonzero!(u8 NonZeroU8, u16 NonZeroU16, u32 NonZeroU32, u64 NonZeroU64, u128 NonZeroU128, usize NonZeroUsize, i8 NonZeroI8, i16 NonZeroI16, i32 NonZeroI32, i64 NonZeroI64, i128 NonZeroI128, isize NonZeroIsize);
impl<T: Gen> Gen for std::ops::Range<T> {
    fn gen() -> Self {
        T::gen()..T::gen()
    }
}
impl<T: Gen> Gen for std::ops::RangeInclusive<T> {
    fn gen() -> Self {
        T::gen()..=T::gen()
    }
}
impl<T: Gen> Gen for std::ops::RangeFrom<T> {
    fn gen() -> Self {
        T::gen()..
    }
}
impl<T: Gen> Gen for std::ops::RangeTo<T> {
    fn gen() -> Self {
        ..T::gen()
    }
}
impl<T: Gen> Gen for std::ops::RangeToInclusive<T> {
    fn gen() -> Self {
        ..=T::gen()
    }
}
use std::net::*;
impl Gen for Ipv4Addr {
    fn gen() -> Self {
        u32::gen().into()
    }
}
impl Gen for Ipv6Addr {
    fn gen() -> Self {
        match choose(3) {
            // addresses whose text form is special
            0 => Ipv4Addr::gen().to_ipv6_mapped(),
            1 => u128::gen().into(),
            _ => ((choose(0) as u128) << (choose(3) * 32)).into(),
        }
    }
}
impl Gen for IpAddr {
    fn gen() -> Self {
        if choose(2) == 0 {
            Ipv4Addr::gen().into()
        } else {
            Ipv6Addr::gen().into()
        }
    }
}
impl Gen for SocketAddrV4 {
    fn gen() -> Self {
        SocketAddrV4::new(Gen::gen(), Gen::gen())
    }
}
impl Gen for SocketAddrV6 {
    fn gen() -> Self {
        SocketAddrV6::new(Gen::gen(), Gen::gen(), if ENV.text.get() { 0 } else { u32::gen() }, u32::gen())
    }
}
impl Gen for SocketAddr {
    fn gen() -> Self {
        if choose(2) == 0 {
            SocketAddrV4::gen().into()
        } else {
            SocketAddrV6::gen().into()
        }
    }
}
impl Gen for std::ffi::CString {
    fn gen() -> Self {
        let b: Vec<u8> = bytes(60).into_iter().map(|b| if b == 0 { 7 } else { b }).collect();
        std::ffi::CString::new(b).unwrap()
    }
}
impl Gen for std::path::PathBuf {
    fn gen() -> Self {
        use std::os::unix::ffi::OsStringExt;
        if choose(2) == 0 {
            String::gen().into()
        } else {
            std::ffi::OsString::from_vec(bytes(50)).into()
        }
    }
}
impl Gen for std::ffi::OsString {
    fn gen() -> Self {
        std::path::PathBuf::gen().into()
    }
}

#[macro_export]
macro_rules! gen_struct {
    ($n:ident { $($f:ident),* $(,)? }) => {
        impl $crate::gen::Gen for $n { fn gen() -> Self { $n { $($f: $crate::gen::Gen::gen()),* } }
            fn chk(&self) { $($crate::gen::Gen::chk(&self.$f);)* } }
    };
}
