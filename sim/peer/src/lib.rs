//! Messages: encode what a plan describes, and decode what others have sent.
#[path = "../../node/src/plan.rs"]
mod plan;
pub use plan::{pack, unpack, Plan};
use musli::mode::{Binary, Text};
use musli::options::{self, ByteOrder, Float, Integer, Width};
use musli::{descriptive, json, packed, storage, wire, Decode, Encode, Options};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::net::*;
use std::num::*;

/// How values are drawn.
struct Draw<'a> {
    p: Plan<'a>,
    /// Text cannot carry NaN.
    finite: bool,
    /// Numbers as wide as a pointer may need 64 bits.
    wide: bool,
    fuel: usize,
}
trait Make: Sized {
    fn make(d: &mut Draw<'_>) -> Self;
}
macro_rules! ints {
    ($($t:ty),*) => {$(impl Make for $t { fn make(d: &mut Draw<'_>) -> Self { let n = d.p.num() as $t; if d.p.below(3) == 0 { (0 as $t).wrapping_sub(n) } else { n } } })*};
}
ints!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);
impl Make for usize {
    fn make(d: &mut Draw<'_>) -> Self {
        let n = d.p.num() as u64;
        (if d.wide { n } else { n & 0x7fff_ffff }) as usize
    }
}
impl Make for isize {
    fn make(d: &mut Draw<'_>) -> Self {
        let n = d.p.num() as u64 as i64 & i64::MAX;
        (if d.wide { n } else { n & 0x7fff_ffff }) as isize
    }
}
impl Make for bool {
    fn make(d: &mut Draw<'_>) -> Self {
        d.p.below(2) == 1
    }
}
impl Make for () {
    fn make(_: &mut Draw<'_>) -> Self {}
}
impl Make for char {
    fn make(d: &mut Draw<'_>) -> Self {
        match d.p.below(4) {
            0 => ['\0', '"', '\\', '\u{7f}', '\u{80}', '\u{d7ff}', '\u{e000}', '\u{10ffff}'][d.p.below(8)],
            1 => char::from_u32(d.p.num() as u32 % 0xd800).unwrap(),
            _ => (b'a' + d.p.below(26) as u8) as char,
        }
    }
}
impl Make for String {
    fn make(d: &mut Draw<'_>) -> Self {
        let n = if d.p.below(24) == 0 { 140 } else { d.p.below(9) };
        (0..n).map(|_| char::make(d)).collect()
    }
}
impl Make for f32 {
    fn make(d: &mut Draw<'_>) -> Self {
        let f = match d.p.below(3) {
            0 => d.p.num() as i16 as f32 / 8.0,
            _ => f32::from_bits(d.p.num() as u32),
        };
        if f.is_nan() || d.finite && !f.is_finite() { 0.5 } else { f }
    }
}
impl Make for f64 {
    fn make(d: &mut Draw<'_>) -> Self {
        let f = match d.p.below(3) {
            0 => d.p.num() as i16 as f64 / 8.0,
            _ => f64::from_bits(d.p.num() as u64),
        };
        if f.is_nan() || d.finite && !f.is_finite() { -0.5 } else { f }
    }
}
impl<T: Make> Make for Option<T> {
    fn make(d: &mut Draw<'_>) -> Self {
        if d.p.below(3) == 0 { None } else { Some(T::make(d)) }
    }
}
impl<T: Make, U: Make> Make for Result<T, U> {
    fn make(d: &mut Draw<'_>) -> Self {
        if d.p.below(2) == 0 { Ok(T::make(d)) } else { Err(U::make(d)) }
    }
}
impl<T: Make> Make for Box<T> {
    fn make(d: &mut Draw<'_>) -> Self {
        Box::new(T::make(d))
    }
}
fn many<T: Make>(d: &mut Draw<'_>) -> Vec<T> {
    let n = d.p.below(5).min(d.fuel);
    d.fuel -= n;
    (0..n).map(|_| T::make(d)).collect()
}
impl<T: Make> Make for Vec<T> {
    fn make(d: &mut Draw<'_>) -> Self {
        many(d)
    }
}
impl<T: Make> Make for VecDeque<T> {
    fn make(d: &mut Draw<'_>) -> Self {
        let (a, b) = (many(d), many::<T>(d));
        let mut q: VecDeque<T> = a.into();
        for v in b {
            q.push_front(v);
        }
        q
    }
}
impl<T: Make + Ord> Make for BTreeSet<T> {
    fn make(d: &mut Draw<'_>) -> Self {
        many(d).into_iter().collect()
    }
}
impl<K: Make + Ord, V: Make> Make for BTreeMap<K, V> {
    fn make(d: &mut Draw<'_>) -> Self {
        many::<(K, V)>(d).into_iter().collect()
    }
}
impl<T: Make, const N: usize> Make for [T; N] {
    fn make(d: &mut Draw<'_>) -> Self {
        core::array::from_fn(|_| T::make(d))
    }
}
macro_rules! tuples {
    ($(($($t:ident)*))*) => {$(impl<$($t: Make),*> Make for ($($t,)*) { fn make(d: &mut Draw<'_>) -> Self { ($($t::make(d),)*) } })*};
}
tuples!((A)(A B)(A B C)(A B C D));
macro_rules! nonzero {
    ($($t:ident $n:ident),*) => {$(impl Make for $n { fn make(d: &mut Draw<'_>) -> Self { $n::new($t::make(d)).unwrap_or($n::MAX) } })*};
}
nonzero!(u8 NonZeroU8, u32 NonZeroU32, u64 NonZeroU64, u128 NonZeroU128, i16 NonZeroI16, i64 NonZeroI64);
impl<T: Make> Make for Wrapping<T> {
    fn make(d: &mut Draw<'_>) -> Self {
        Wrapping(T::make(d))
    }
}
impl Make for Ipv4Addr {
    fn make(d: &mut Draw<'_>) -> Self {
        u32::make(d).into()
    }
}
impl Make for Ipv6Addr {
    fn make(d: &mut Draw<'_>) -> Self {
        u128::make(d).into()
    }
}
impl Make for SocketAddr {
    fn make(d: &mut Draw<'_>) -> Self {
        match d.p.below(2) {
            0 => SocketAddrV4::new(Make::make(d), Make::make(d)).into(),
            _ => SocketAddrV6::new(Make::make(d), Make::make(d), 0, Make::make(d)).into(),
        }
    }
}
impl<T: Make> Make for core::ops::Range<T> {
    fn make(d: &mut Draw<'_>) -> Self {
        T::make(d)..T::make(d)
    }
}

macro_rules! message {
    ($(#[$m:meta])* struct $n:ident { $($(#[$fm:meta])* $f:ident : $t:ty),* $(,)? }) => {
        #[derive(Encode, Decode)]
        $(#[$m])*
        struct $n { $($(#[$fm])* $f: $t),* }
        impl Make for $n { fn make(d: &mut Draw<'_>) -> Self { $n { $($f: Make::make(d)),* } } }
    };
}
message!(struct Numbers {
    a: u8, b: u16, c: u32, d: u64, e: u128, g: i8, h: i16, i: i32, j: i64, k: i128, m: bool, n: char, o: f32, p: f64, q: (),
});
message!(struct Texts { a: String, b: Box<String>, #[musli(bytes)] c: Vec<u8>, #[musli(bytes)] d: [u8; 5], e: Vec<u8>, #[musli(bytes)] f: VecDeque<u8>, g: Vec<String> });
message!(struct Lists {
    a: Vec<u32>, b: VecDeque<i16>, c: BTreeSet<u64>, d: BTreeMap<String, u32>, e: BTreeMap<u16, Vec<String>>,
    f: Option<Vec<Option<u8>>>, h: Vec<(u8, String)>, i: Vec<Vec<Vec<u8>>>, j: Option<u32>, l: Vec<f64>, m: VecDeque<u128>,
});
#[derive(Clone, Copy, Encode, Decode)]
#[musli(packed)]
#[repr(C)]
struct PackA { a: u32, b: u32, c: u64, d: u16, e: u16, f: i32 }
impl Make for PackA {
    fn make(d: &mut Draw<'_>) -> Self {
        PackA { a: Make::make(d), b: Make::make(d), c: Make::make(d), d: Make::make(d), e: Make::make(d), f: Make::make(d) }
    }
}
message!(#[musli(packed)] struct PackB { a: u8, b: u32, c: i16, d: bool, e: char, f: NonZeroU32, g: u64 });
message!(#[musli(packed)] #[repr(C)] struct PackC { a: u32, b: u16, c: u16, d: i64, e: u128 });
message!(#[musli(packed)] #[repr(C)] struct PackF { a: f64, b: f32, c: i32 });
message!(#[musli(packed)] #[repr(C)] struct PackP { a: u32, b: usize, c: usize });
message!(struct Packs {
    a: PackA, b: PackB, c: PackC, d: Vec<PackA>, e: VecDeque<PackB>, f: Vec<PackC>, g: Vec<char>, h: Vec<NonZeroU32>,
    i: Vec<bool>, j: Vec<u64>, k: VecDeque<u16>, n: Vec<PackF>,
        #[musli(packed)] p: (u16, u32, u64, u128),
    u: Vec<i128>, v: BTreeMap<u32, PackA>,
});
message!(#[musli(packed)] struct Plain {
    a: u8, b: u64, c: i128, d: f64, e: char, f: bool, h: (u8, i32), i: PackA, j: PackB, k: PackC,
    n: NonZeroU64, o: Ipv4Addr, p: Ipv6Addr, r: Wrapping<u16>, s: (),
});
// What is written as memory on one machine and element by element on another.
message!(#[musli(packed)] #[repr(C)] struct PackArray { a: u32, b: [u16; 4], c: u32 });
message!(struct PackArrays { a: PackArray, b: Vec<PackArray>, c: Vec<[u32; 3]>, #[musli(packed)] d: [u32; 4], e: (u8, [i16; 3]), f: [i64; 3], g: [isize; 2] });
#[derive(Encode, Decode)]
#[musli(transparent)]
struct Below(isize);
impl Make for Below {
    fn make(d: &mut Draw<'_>) -> Self {
        Below(-isize::make(d))
    }
}
message!(struct BelowZero { a: Below, b: Vec<Below>, c: u8, d: Option<Below>, e: isize });
message!(struct Pointers { a: usize, b: usize, c: Vec<usize>, e: PackP, f: Vec<PackP>, g: Option<usize>, h: BTreeMap<usize, usize> });
message!(struct Misc {
    a: NonZeroU8, b: NonZeroI64, c: NonZeroU128, e: Wrapping<i32>, f: Result<u32, String>, g: core::ops::Range<u32>,
    l: (u8, (String, u32), i16), m: [String; 2], s: (u32,), t: Vec<NonZeroI16>, u: Ipv4Addr, v: Ipv6Addr, w: SocketAddr,
});
message!(#[musli(name(type = u32))] struct Numbered { #[musli(name = 1)] a: u8, #[musli(name = 40000)] b: Vec<u16>, #[musli(name = 4000000000)] c: String, #[musli(name = 128)] d: i32 });
message!(#[musli(name(type = i64))] struct Negative { #[musli(name = -1)] a: u8, #[musli(name = -5_000_000_000)] b: Option<u16>, #[musli(name = 77)] c: String });
message!(#[musli(name_all = "kebab-case")] struct Named { first_one: u8, second_one: Vec<i32>, the_third: Option<f64> });
message!(struct Names { a: Numbered, b: Negative, c: Named, d: Vec<Numbered> });

#[derive(Encode, Decode)]
enum Choice {
    Unit,
    Empty {},
    One(u32),
    #[musli(transparent)]
    Through(Box<Texts>),
    Two(String, i64),
    Named { a: Option<String>, b: Vec<u8>, c: Box<Choice> },
}
impl Make for Choice {
    fn make(d: &mut Draw<'_>) -> Self {
        match d.p.below(6) {
            0 => Choice::Unit,
            1 => Choice::Empty {},
            2 => Choice::One(Make::make(d)),
            3 => Choice::Through(Make::make(d)),
            4 => Choice::Two(Make::make(d), Make::make(d)),
            _ => Choice::Named { a: Make::make(d), b: Make::make(d), c: Box::new(if d.p.below(2) == 0 { Choice::Unit } else { Choice::make(d) }) },
        }
    }
}
#[derive(Encode, Decode)]
#[musli(name(type = i16))]
enum Coded {
    #[musli(name = -300)]
    A(u8),
    #[musli(name = 0)]
    B,
    #[musli(name = 32767)]
    C { x: i64 },
}
impl Make for Coded {
    fn make(d: &mut Draw<'_>) -> Self {
        match d.p.below(3) {
            0 => Coded::A(Make::make(d)),
            1 => Coded::B,
            _ => Coded::C { x: Make::make(d) },
        }
    }
}
#[derive(Encode, Decode)]
#[musli(tag = "type", content = "data")]
enum Adjacent {
    Unit,
    Pair(u32, String),
    Named { id: String, v: Vec<u16> },
}
impl Make for Adjacent {
    fn make(d: &mut Draw<'_>) -> Self {
        match d.p.below(3) {
            0 => Adjacent::Unit,
            1 => Adjacent::Pair(Make::make(d), Make::make(d)),
            _ => Adjacent::Named { id: Make::make(d), v: Make::make(d) },
        }
    }
}
message!(struct Choices { a: Vec<Choice>, b: Adjacent, c: [Coded; 2], d: BTreeMap<String, Adjacent> });
#[derive(Encode, Decode)]
#[musli(tag = "type", name_all = "name")]
enum Internal {
    Unit,
    #[musli(name_all = "name")]
    Named { id: String, n: u64, list: Vec<Option<i16>> },
    #[musli(name_all = "name")]
    Other { map: BTreeMap<String, i32>, x: f64, t: (u8, String) },
}
impl Make for Internal {
    fn make(d: &mut Draw<'_>) -> Self {
        match d.p.below(3) {
            0 => Internal::Unit,
            1 => Internal::Named { id: Make::make(d), n: Make::make(d), list: Make::make(d) },
            _ => Internal::Other { map: Make::make(d), x: Make::make(d), t: Make::make(d) },
        }
    }
}
#[derive(Encode, Decode)]
#[musli(untagged, name_all = "name")]
enum Untagged {
    #[musli(name_all = "name")]
    Person { name: String, age: u32 },
    #[musli(name_all = "name")]
    Place { street: String, no: Option<u16>, at: (i64, f64) },
}
impl Make for Untagged {
    fn make(d: &mut Draw<'_>) -> Self {
        match d.p.below(2) {
            0 => Untagged::Person { name: Make::make(d), age: Make::make(d) },
            _ => Untagged::Place { street: Make::make(d), no: Make::make(d), at: Make::make(d) },
        }
    }
}
message!(struct Looked { a: Vec<Internal>, b: Untagged });

const fn fixed(o: ByteOrder, w: Width) -> Options {
    options::new().integer(Integer::Fixed).float(Float::Fixed).pointer(w).byte_order(o).build()
}
const L32: Options = fixed(ByteOrder::Little, Width::U32);
const L64: Options = fixed(ByteOrder::Little, Width::U64);
const B64: Options = fixed(ByteOrder::Big, Width::U64);
const VB: Options = options::new().variable().byte_order(ByteOrder::Big).build();
const VL: Options = options::new().variable().build();
/// Numbers as memory, counts as short as possible.
const LV: Options = fixed(ByteOrder::Little, Width::Variable);

macro_rules! encodings {
    ($all:ident $encode:ident $decode:ident $($name:literal $finite:literal $class:ident $e:expr;)*) => {
        const $all: &[(&str, bool, Class)] = &[$(($name, $finite, Class::$class)),*];
        fn $encode<T>(f: usize, v: &T) -> Option<Vec<u8>> where T: Encode<Binary> + Encode<Text> {
            let mut i = 0;
            $(if f == i { return $e.to_vec(v).ok(); } i += 1;)*
            let _ = i;
            unreachable!()
        }
        fn $decode<T>(f: usize, b: &[u8]) -> Option<T>
        where T: for<'a> Decode<'a, Binary, musli::alloc::System> + for<'a> Decode<'a, Text, musli::alloc::System> {
            let mut i = 0;
            $(if f == i { return $e.from_slice(b).ok(); } i += 1;)*
            let _ = i;
            unreachable!()
        }
    };
}
#[derive(Clone, Copy, PartialEq)]
enum Class {
    Packed,
    Undescribed,
    Full,
}
encodings! { FULL encode decode
    "storage" false Undescribed storage::Encoding::new();
    "storage, fixed, little, 32" false Undescribed storage::Encoding::new().with_options::<L32>();
    "storage, fixed, little, 64" false Undescribed storage::Encoding::new().with_options::<L64>();
    "storage, fixed, big, 64, text" false Undescribed storage::Encoding::new().with_options::<B64>().with_mode::<Text>();
    "storage, fixed, little, variable counts" false Undescribed storage::Encoding::new().with_options::<LV>();
    "wire" false Undescribed wire::Encoding::new();
    "wire, fixed, little, 32, text" false Undescribed wire::Encoding::new().with_options::<L32>().with_mode::<Text>();
    "wire, fixed, big, 64" false Undescribed wire::Encoding::new().with_options::<B64>();
    "descriptive" false Full descriptive::Encoding::new();
    "descriptive, variable, text" false Full descriptive::Encoding::new().with_options::<VL>().with_mode::<Text>();
    "descriptive, fixed, big, 64" false Full descriptive::Encoding::new().with_options::<B64>();
    "json" true Full json::Encoding::new();
}
encodings! { PACKED encode_packed decode_packed
    "packed, fixed, little, 32" false Packed packed::Encoding::new().with_options::<L32>();
    "packed, fixed, big, 64" false Packed packed::Encoding::new().with_options::<B64>();
    "packed, variable, big" false Packed packed::Encoding::new().with_options::<VB>();
}
const TYPES: &[&str] = &["Numbers", "Texts", "Lists", "Packs", "Plain", "Pointers", "Misc", "Names", "Choices", "PackArrays", "BelowZero", "Looked", "dynamic value"];

/// What a plan describes: which encoding and type. The rest is the value.
fn header(plan: &[u8]) -> (usize, usize, Plan<'_>) {
    let mut p = Plan::new(plan);
    let f = p.below(FULL.len() + PACKED.len());
    let t = p.below(TYPES.len());
    let t = match encoding(f).2 {
        Class::Packed => 4 + t % 2,
        Class::Undescribed if t > 10 => t - 11,
        _ => t,
    };
    (f, t, p)
}
fn encoding(f: usize) -> (&'static str, bool, Class) {
    FULL.iter().chain(PACKED).nth(f).copied().unwrap()
}
pub fn describe(plan: &[u8]) -> (&'static str, &'static str) {
    let (f, t, _) = header(plan);
    (encoding(f).0, TYPES[t])
}

trait Op {
    type Out;
    fn run<T>(self, f: usize) -> Self::Out
    where
        T: Make + Encode<Binary> + Encode<Text> + for<'a> Decode<'a, Binary, musli::alloc::System> + for<'a> Decode<'a, Text, musli::alloc::System>;
}
fn by_type<O: Op>(f: usize, t: usize, o: O) -> O::Out {
    match t {
        _ if f >= FULL.len() => unreachable!(),
        0 => o.run::<Numbers>(f),
        1 => o.run::<Texts>(f),
        2 => o.run::<Lists>(f),
        3 => o.run::<Packs>(f),
        4 => o.run::<Plain>(f),
        5 => o.run::<Pointers>(f),
        6 => o.run::<Misc>(f),
        7 => o.run::<Names>(f),
        8 => o.run::<Choices>(f),
        9 => o.run::<PackArrays>(f),
        10 => o.run::<BelowZero>(f),
        _ => o.run::<Looked>(f),
    }
}

struct Sent<'a, 'b>(&'b mut Draw<'a>);
impl Op for Sent<'_, '_> {
    type Out = Option<Vec<u8>>;
    fn run<T>(self, f: usize) -> Option<Vec<u8>>
    where
        T: Make + Encode<Binary> + Encode<Text> + for<'a> Decode<'a, Binary, musli::alloc::System> + for<'a> Decode<'a, Text, musli::alloc::System>,
    {
        let v = T::make(self.0);
        encode(f, &v)
    }
}
/// What was received, in an encoding that is the same for all.
struct Received<'b>(&'b [u8]);
impl Op for Received<'_> {
    type Out = Option<Vec<u8>>;
    fn run<T>(self, f: usize) -> Option<Vec<u8>>
    where
        T: Make + Encode<Binary> + Encode<Text> + for<'a> Decode<'a, Binary, musli::alloc::System> + for<'a> Decode<'a, Text, musli::alloc::System>,
    {
        let v: T = decode(f, self.0)?;
        Some(encode(COMMON, &v).unwrap_or_else(|| b"not encoded again".to_vec()))
    }
}
/// Storage with 64-bit little endian numbers.
const COMMON: usize = 2;

type Value = musli::value::Value<musli::alloc::System>;
const DYNAMIC: usize = 12;

/// The message a plan describes. Numbers of a pointer's width need 64 bits only if `wide`.
pub fn send(plan: &[u8], wide: bool) -> Option<Vec<u8>> {
    let (f, t, p) = header(plan);
    let mut d = Draw { p, finite: encoding(f).1, wide, fuel: 24 };
    if t == DYNAMIC {
        let t = d.p.below(DYNAMIC);
        let b = by_type(f, t, Sent(&mut d))?;
        let v: Value = decode(f, &b)?;
        return encode(f, &v);
    }
    if f >= FULL.len() {
        let f = f - FULL.len();
        return match t {
            4 => encode_packed(f, &Plain::make(&mut d)),
            _ => encode_packed(f, &PackP::make(&mut d)),
        };
    }
    by_type(f, t, Sent(&mut d))
}
pub fn receive(plan: &[u8], b: &[u8]) -> Option<Vec<u8>> {
    let (f, t, _) = header(plan);
    if t == DYNAMIC {
        let v: Value = decode(f, b)?;
        return Some(encode(f, &v).unwrap_or_else(|| b"not encoded again".to_vec()));
    }
    if f >= FULL.len() {
        let f = f - FULL.len();
        return match t {
            4 => encode(COMMON, &decode_packed::<Plain>(f, b)?),
            _ => encode(COMMON, &decode_packed::<PackP>(f, b)?),
        };
    }
    by_type(f, t, Received(b))
}
fn outcome(b: Option<Vec<u8>>) -> Vec<u8> {
    match b {
        Some(mut b) => {
            b.insert(0, 1);
            b
        }
        None => vec![0],
    }
}
/// Answer a request: a plan, and messages of what it describes. The answer is
/// the message the plan is for, and what the others were received as.
pub fn answer(request: &[u8]) -> Vec<u8> {
    let parts = unpack(request);
    let Some((plan, messages)) = parts.split_first() else {
        return pack(&[b"bad request"]);
    };
    let mut o = vec![outcome(send(plan, false))];
    o.extend(messages.iter().map(|m| outcome(receive(plan, m))));
    pack(&o.iter().map(|b| &b[..]).collect::<Vec<_>>())
}
pub fn machine() -> String {
    format!("{} bits", usize::BITS)
}
