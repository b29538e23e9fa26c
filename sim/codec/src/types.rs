//! The messages the simulated nodes exchange: every kind of type, container
//! and attribute the library supports.
use crate::dynx::*;
use crate::fmt::*;
use crate::gen::*;
use crate::gen_struct;
use musli::alloc::System;
use musli::mode::{Binary, Text};
use musli::value::Value;
use musli::{Allocator, Decode, Encode};
use simcore::*;
use std::any::Any;
use std::borrow::Cow;
use std::collections::*;
use std::ffi::{CString, OsString};
use std::marker::PhantomData;
use std::net::*;
use std::num::*;
use std::ops::*;
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::Arc;

/// One message type, with its operations erased.
pub trait Shape: Sync {
    fn name(&self) -> &'static str;
    /// Encodings this type can travel in.
    fn fmts(&self) -> u32;
    fn gen(&self) -> Box<dyn Any>;
    fn same(&self, a: &dyn Any, b: &dyn Any) -> bool;
    fn show(&self, a: &dyn Any) -> String;
    /// The value is a valid one of its type.
    fn chk(&self, a: &dyn Any);
    fn enc(&self, f: Fmt, cx: Cx, w: &mut W<'_>, v: &dyn Any) -> Result<Option<usize>, ()>;
    fn dec(&self, f: Fmt, rd: Rd, cx: Cx, b: &mut &[u8]) -> Result<Box<dyn Any>, ()>;
    /// The value as a dynamic one, and a dynamic one as such a value (binary or text mode).
    fn to_value(&self, _: &dyn Any) -> Option<Result<Value<System>, ()>> {
        None
    }
    fn from_own_value(&self, _: Cx, _: &Value<System>) -> Result<Box<dyn Any>, ()> {
        unreachable!()
    }
    fn from_value(&self, _: bool, _: Cx, _: &Value<Da>) -> Option<Result<Box<dyn Any>, ()>> {
        None
    }
    /// The type has no defined encoding order (hash containers).
    fn unordered(&self) -> bool {
        false
    }
    /// Class under which failures of this type are recorded as a known finding.
    fn finding(&self) -> Option<&'static str> {
        None
    }
    /// Decoding needs a reader that can be cloned or buffered.
    fn untagged(&self) -> bool {
        false
    }
}

pub struct S<T> {
    name: &'static str,
    fmts: u32,
    untagged: bool,
    finding: Option<&'static str>,
    _t: PhantomData<fn() -> T>,
}
pub const fn s<T>(name: &'static str, fmts: u32) -> S<T> {
    S { name, fmts, untagged: false, finding: None, _t: PhantomData }
}
pub const fn un<T>(name: &'static str, fmts: u32) -> S<T> {
    S { name, fmts, untagged: true, finding: None, _t: PhantomData }
}
/// A type whose failures are recorded as a known finding of the given class.
pub const fn known<T>(name: &'static str, fmts: u32, class: &'static str) -> S<T> {
    S { name, fmts, untagged: false, finding: Some(class), _t: PhantomData }
}

impl<T> Shape for S<T>
where
    T: 'static + Gen + PartialEq + std::fmt::Debug + Encode<Binary> + Encode<Text>,
    T: for<'de> Decode<'de, Binary, Da> + for<'de> Decode<'de, Text, Da>,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn fmts(&self) -> u32 {
        self.fmts
    }
    fn gen(&self) -> Box<dyn Any> {
        Box::new(T::gen())
    }
    fn same(&self, a: &dyn Any, b: &dyn Any) -> bool {
        a.downcast_ref::<T>().unwrap() == b.downcast_ref::<T>().unwrap()
    }
    fn chk(&self, a: &dyn Any) {
        a.downcast_ref::<T>().unwrap().chk()
    }
    fn show(&self, a: &dyn Any) -> String {
        let mut s = format!("{:?}", a.downcast_ref::<T>().unwrap());
        if s.len() > 1500 {
            let mut k = 1500;
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            s.truncate(k);
            s.push_str("...");
        }
        s
    }
    fn enc(&self, f: Fmt, cx: Cx, w: &mut W<'_>, v: &dyn Any) -> Result<Option<usize>, ()> {
        enc(f, cx, w, v.downcast_ref::<T>().unwrap())
    }
    fn dec(&self, f: Fmt, rd: Rd, cx: Cx, b: &mut &[u8]) -> Result<Box<dyn Any>, ()> {
        let v: T = dec(f, rd, cx, b)?;
        Ok(galloc::untracked(|| Box::new(v)))
    }
    fn to_value(&self, v: &dyn Any) -> Option<Result<Value<System>, ()>> {
        Some(musli::value::encode(v.downcast_ref::<T>().unwrap()).map_err(|_| ()))
    }
    fn from_own_value(&self, cx: Cx, v: &Value<System>) -> Result<Box<dyn Any>, ()> {
        let v: T = musli::value::decode_with::<_, _, Binary>(cx, v).map_err(|_| ())?;
        Ok(galloc::untracked(|| Box::new(v)))
    }
    fn from_value(&self, text: bool, cx: Cx, v: &Value<Da>) -> Option<Result<Box<dyn Any>, ()>> {
        let r: Result<T, _> = match text {
            true => musli::value::decode_with::<_, _, Text>(cx, v),
            false => musli::value::decode_with::<_, _, Binary>(cx, v),
        };
        Some(r.map_err(|_| ()).map(|v| galloc::untracked(|| Box::new(v) as Box<dyn Any>)))
    }
    fn untagged(&self) -> bool {
        self.untagged
    }
    fn finding(&self) -> Option<&'static str> {
        self.finding
    }
}

macro_rules! def {
    ($(#[$m:meta])* struct $n:ident { $($(#[$fm:meta])* $f:ident : $t:ty),* $(,)? }) => {
        #[derive(Debug, PartialEq, Encode, Decode)]
        $(#[$m])*
        pub struct $n { $($(#[$fm])* pub $f: $t),* }
        gen_struct!($n { $($f),* });
    };
}

def!(struct Prims {
    a: u8, b: u16, c: u32, d: u64, e: u128, f: usize,
    g: i8, h: i16, i: i32, j: i64, k: i128, l: isize,
    m: bool, n: char, o: F32, p: F64, q: (),
});
def!(struct Strs {
    a: String, b: Box<str>, c: Arc<CString>, d: CString,
    #[musli(bytes)] e: Vec<u8>,
    #[musli(bytes)] f: VecDeque<u8>,
    #[musli(bytes)] g: Box<[u8]>,
    #[musli(bytes)] h: [u8; 5],
    #[musli(bytes)] i: [u8; 0],
    j: Vec<u8>,
});
def!(struct Paths { a: PathBuf, b: OsString, c: Vec<OsString> });
def!(struct Coll {
    a: Vec<u32>, b: VecDeque<i16>, c: BTreeSet<u64>, d: BTreeMap<String, u32>, e: BTreeMap<u16, Vec<String>>,
    f: Option<Vec<Option<u8>>>, g: Box<[i64]>, h: Vec<(u8, String)>, i: Vec<Vec<Vec<u8>>>, j: Option<u32>,
    k: LinkedL,
});
def!(struct Units { a: Vec<()>, b: BTreeMap<u8, Vec<()>>, c: Vec<PackZ>, d: Vec<musli::compat::Sequence<()>> });
def!(struct Hashes { a: HashMap<String, u64, Fixed>, b: HashSet<u32, Fixed>, c: HashMap<i32, HashMap<u8, String, Fixed>, Fixed>, d: Heap });
#[derive(Debug, Encode, Decode)]
#[musli(transparent)]
pub struct Heap(BinaryHeap<u32>);
impl PartialEq for Heap {
    fn eq(&self, o: &Self) -> bool {
        self.0.clone().into_sorted_vec() == o.0.clone().into_sorted_vec()
    }
}
impl Gen for Heap {
    fn gen() -> Self {
        Heap(Vec::gen().into_iter().collect())
    }
}
pub type LinkedL = VecDeque<String>;
def!(struct Net { a: Ipv4Addr, b: Ipv6Addr, c: IpAddr, d: SocketAddrV4, e: SocketAddr, f: Vec<IpAddr>, g: SocketAddrV6 });
def!(struct Misc {
    a: NonZeroU8, b: NonZeroI64, c: NonZeroU128, d: NonZeroIsize, e: Wrapping<i32>, f: Result<u32, String>, g: Range<u32>,
    h: RangeInclusive<i64>, i: RangeFrom<u8>, j: RangeTo<u16>, k: RangeToInclusive<u32>, l: (u8, (String, u32), [i16; 3]),
    m: [String; 2], n: PhantomData<u32>, o: Box<u32>, p: Arc<String>, q: Rc<Vec<u8>>, r: [u8; 0], s: (u32,), t: Vec<NonZeroU16>,
});
/// Types that travel as raw memory in fixed-width encodings.
#[derive(Debug, PartialEq, Clone, Copy, Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct PackA { a: u32, b: u32, c: u64, d: [u16; 4] }
gen_struct!(PackA { a, b, c, d });
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(packed)]
pub struct PackB { a: u8, b: u32, c: i16, d: bool, e: char, f: NonZeroU32, g: u64 }
gen_struct!(PackB { a, b, c, d, e, f, g });
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct PackC { a: char, b: NonZeroU32, c: bool, d: bool, e: bool, f: bool }
gen_struct!(PackC { a, b, c, d, e, f });
/// Arrays of what may be written as memory but must be checked when read.
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct PackArr { a: u32, b: [bool; 4] }
gen_struct!(PackArr { a, b });
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(packed)]
pub struct PackZ {}
gen_struct!(PackZ {});
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct PackF { a: F64, b: F32, c: i32 }
gen_struct!(PackF { a, b, c });
def!(struct Packs {
    a: PackA, b: PackB, c: PackC, d: Vec<PackA>, e: VecDeque<PackB>, f: Vec<PackC>, g: Vec<char>, h: Vec<NonZeroU32>,
    i: Vec<bool>, j: Vec<u64>, k: VecDeque<u16>, l: [PackA; 2], m: Vec<[u32; 3]>, n: Vec<PackF>, o: [char; 3],
    #[musli(packed)] p: (u16, u32, u64, u128),
    #[musli(packed)] q: [u32; 4],
    #[musli(packed)] r: (u8, String, PackA),
    t: [u64; 0], u: Vec<i128>, v: BTreeMap<u32, PackA>, w: Box<[PackC]>,
});
/// Only what the packed encoding can carry: nothing optional, no variants.
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(packed)]
pub struct PackPlain {
    a: u8, b: u64, c: i128, d: F64, e: char, f: bool, g: [u16; 3], h: (u8, i32), i: PackA, j: PackB, k: [PackC; 2], l: usize, m: isize,
    n: NonZeroU64, o: Ipv4Addr, p: Ipv6Addr, q: [u8; 7], r: Wrapping<u16>, s: (),
}
gen_struct!(PackPlain { a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p, q, r, s });

#[derive(Debug, PartialEq, Encode, Decode)]
pub enum Ext {
    Unit,
    Empty {},
    EmptyTuple(),
    One(u32),
    #[musli(transparent)]
    Trans(Prims),
    Two(String, i64),
    Named { a: Option<String>, b: Vec<u8>, c: Box<Ext> },
    #[musli(transparent)]
    Opt(Option<u8>),
}
impl Gen for Ext {
    fn chk(&self) {
        match self {
            Ext::Trans(p) => p.chk(),
            Ext::Two(s, _) => s.chk(),
            Ext::Named { a, c, .. } => {
                a.chk();
                c.chk()
            },
            _ => (),
        }
    }
    fn gen() -> Self {
        match choose(9) {
            0 => Ext::Unit,
            1 => Ext::Empty {},
            2 => Ext::EmptyTuple(),
            3 => Ext::One(Gen::gen()),
            4 => Ext::Trans(Gen::gen()),
            5 => Ext::Two(Gen::gen(), Gen::gen()),
            6 => {
                let deep = take_len(2) > 0;
                Ext::Named { a: Gen::gen(), b: Gen::gen(), c: Box::new(if deep { Ext::gen() } else { Ext::Unit }) }
            }
            7 => Ext::Opt(Gen::gen()),
            _ => Ext::Two(String::new(), 0),
        }
    }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(tag = "type", name_all = "name")]
pub enum Int {
    #[musli(name_all = "name")]
    Unit,
    #[musli(name_all = "name")]
    Empty {},
    #[musli(name_all = "name")]
    Named { id: String, n: u64, list: Vec<Option<String>>, inner: Option<Box<Int>> },
    #[musli(name_all = "name")]
    Other { map: BTreeMap<String, i32>, x: F64, t: (u8, String) },
}
impl Gen for Int {
    fn chk(&self) {
        match self {
            Int::Named { id, list, inner, .. } => {
                id.chk();
                list.chk();
                inner.chk()
            },
            Int::Other { map, t, .. } => {
                map.chk();
                t.chk()
            },
            _ => (),
        }
    }
    fn gen() -> Self {
        match choose(4) {
            0 => Int::Unit,
            1 => Int::Empty {},
            2 => {
                let deep = take_len(2) > 0;
                Int::Named { id: Gen::gen(), n: Gen::gen(), list: Gen::gen(), inner: if deep { Some(Box::new(Int::gen())) } else { None } }
            }
            _ => Int::Other { map: Gen::gen(), x: Gen::gen(), t: Gen::gen() },
        }
    }
}
/// A text tag beside fields that are named by number in binary mode.
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(tag = "type")]
pub enum TagMix {
    Unit,
    Empty {},
    Request { id: String, method: String },
    Reply { id: String, body: Vec<u8> },
}
impl Gen for TagMix {
    fn gen() -> Self {
        match choose(4) {
            2 => TagMix::Unit,
            3 => TagMix::Empty {},
            0 => TagMix::Request { id: Gen::gen(), method: Gen::gen() },
            _ => TagMix::Reply { id: Gen::gen(), body: Gen::gen() },
        }
    }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = usize), tag = 10)]
pub enum IntNum {
    #[musli(name = 1)]
    A { id: String, method: i32 },
    #[musli(name = 7, name(type = usize))]
    B { #[musli(name = 10000)] id: u8, #[musli(bytes)] body: Vec<u8> },
    #[musli(name = 300)]
    C,
}
impl Gen for IntNum {
    fn chk(&self) {
        match self {
            IntNum::A { id, .. } => id.chk(),
            _ => (),
        }
    }
    fn gen() -> Self {
        match choose(3) {
            0 => IntNum::A { id: Gen::gen(), method: Gen::gen() },
            1 => IntNum::B { id: Gen::gen(), body: bytes(60) },
            _ => IntNum::C,
        }
    }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(tag = "type", content = "data")]
pub enum Adj {
    Unit,
    Empty {},
    Tup(u32, String),
    Named { id: String, v: Vec<u16>, inner: Option<Box<Adj>> },
    #[musli(transparent)]
    Tr(Box<Strs>),
}
impl Gen for Adj {
    fn chk(&self) {
        match self {
            Adj::Tup(_, s) => s.chk(),
            Adj::Named { id, inner, .. } => {
                id.chk();
                inner.chk()
            },
            Adj::Tr(s) => s.chk(),
            _ => (),
        }
    }
    fn gen() -> Self {
        match choose(5) {
            0 => Adj::Unit,
            1 => Adj::Empty {},
            2 => Adj::Tup(Gen::gen(), Gen::gen()),
            3 => {
                let deep = take_len(2) > 0;
                Adj::Named { id: Gen::gen(), v: Gen::gen(), inner: if deep { Some(Box::new(Adj::gen())) } else { None } }
            }
            _ => Adj::Tr(Gen::gen()),
        }
    }
}
/// Each variant is told apart by its fields.
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(untagged, name_all = "name")]
pub enum Untag {
    #[musli(name_all = "name")]
    Person { name: String, age: u32 },
    #[musli(name_all = "name")]
    Place { street: String, no: Option<u16>, tags: Vec<String> },
    #[musli(transparent)]
    Point(Point),
    #[musli(name_all = "name")]
    Nested { inner: Box<Untag>, id: u8 },
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name_all = "name")]
pub struct Point { x: i32, y: F64, label: Option<String> }
gen_struct!(Point { x, y, label });
impl Gen for Untag {
    fn chk(&self) {
        match self {
            Untag::Person { name, .. } => name.chk(),
            Untag::Place { street, tags, .. } => {
                street.chk();
                tags.chk()
            },
            Untag::Point(p) => p.chk(),
            Untag::Nested { inner, .. } => inner.chk(),
            _ => (),
        }
    }
    fn gen() -> Self {
        match choose(4) {
            0 => Untag::Person { name: Gen::gen(), age: Gen::gen() },
            1 => Untag::Place { street: Gen::gen(), no: Gen::gen(), tags: Gen::gen() },
            2 => Untag::Point(Gen::gen()),
            _ => {
                let deep = take_len(2) > 0;
                Untag::Nested { inner: Box::new(if deep { Untag::gen() } else { Untag::Person { name: String::new(), age: 1 } }), id: Gen::gen() }
            }
        }
    }
}
def!(struct Mixed { a: Vec<Ext>, b: Option<Int>, c: BTreeMap<String, Adj>, d: Result<Ext, IntNum>, e: [Option<IntNum>; 2] });
#[derive(Debug, PartialEq, Encode, Decode)]
pub struct Tree { v: u32, name: Option<String>, kids: Vec<Tree>, left: Option<Box<Tree>> }
impl Gen for Tree {
    fn chk(&self) {
        self.name.chk();
        self.kids.chk();
        self.left.chk()
    }
    fn gen() -> Self {
        fn g(depth: usize) -> Tree {
            let n = if depth == 0 { 0 } else { take_len(3) };
            Tree {
                v: Gen::gen(),
                name: if choose(2) == 1 { Some(String::gen()) } else { None },
                kids: (0..n).map(|_| g(depth - 1)).collect(),
                left: if depth > 0 && choose(3) == 2 { Some(Box::new(g(depth - 1))) } else { None },
            }
        }
        g(*pick(&[3, 1, 6, 40]))
    }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(transparent)]
pub struct Wrap(Vec<Option<Wrapped>>);
#[derive(Debug, PartialEq, Encode, Decode)]
pub struct Wrapped(String, u32);
#[derive(Debug, PartialEq, Encode, Decode)]
pub struct UnitStruct;
impl Gen for UnitStruct {
    fn gen() -> Self {
        UnitStruct
    }
}
impl Gen for Wrapped {
    fn chk(&self) {
        self.0.chk()
    }
    fn gen() -> Self {
        Wrapped(Gen::gen(), Gen::gen())
    }
}
impl Gen for Wrap {
    fn chk(&self) {
        self.0.chk()
    }
    fn gen() -> Self {
        Wrap(Gen::gen())
    }
}
/// Field names of every kind.
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name_all = "SCREAMING-KEBAB-CASE")]
pub struct Kebab { first_field: u32, r#type: String, #[musli(name = "Odd \"na\\me\u{1F600}")] odd: Option<u8>, nested_one: NumNames }
gen_struct!(Kebab { first_field, r#type, odd, nested_one });
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = u64))]
pub struct NumNames { #[musli(name = 1000)] a: u32, #[musli(name = 0)] b: String, #[musli(name = 18446744073709551615)] c: Option<i8>, #[musli(name = 64)] d: u8 }
gen_struct!(NumNames { a, b, c, d });
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = i16))]
pub struct NegNames { #[musli(name = -1)] a: u32, #[musli(name = 300)] b: String, #[musli(name = -32768)] c: Vec<u8> }
gen_struct!(NegNames { a, b, c });
#[derive(Debug)]
struct ShowName<'a>(&'a [u8]);
impl std::fmt::Display for ShowName<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
fn show_name(b: &[u8]) -> ShowName<'_> {
    ShowName(b)
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = [u8], format_with = show_name))]
pub struct ByteNames { #[musli(name = b"field1")] a: u32, #[musli(name = b"\xff\x00")] b: String, #[musli(name = b"")] c: Option<u8> }
gen_struct!(ByteNames { a, b, c });
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name(type = usize))]
pub enum VarNames {
    #[musli(name = 5, name_all = "camelCase")]
    A { field_one: u32, field_two: String },
    #[musli(name = 70000, name(type = u8))]
    B { #[musli(name = 200)] x: u32 },
    #[musli(name = 0)]
    C,
}
impl Gen for VarNames {
    fn gen() -> Self {
        match choose(3) {
            0 => VarNames::A { field_one: Gen::gen(), field_two: Gen::gen() },
            1 => VarNames::B { x: Gen::gen() },
            _ => VarNames::C,
        }
    }
}
def!(struct Names { a: Kebab, b: NumNames, c: VarNames, d: Vec<VarNames>, #[musli(Text, name = "text_only")] e: u8, #[musli(Binary, name = 77)] f: u16 });
#[derive(Debug, PartialEq, Encode, Decode)]
pub struct Skips {
    #[musli(skip_encoding_if = Option::is_none)]
    #[musli(default)]
    a: Option<String>,
    #[musli(default, skip_encoding_if = zero)]
    b: u32,
    #[musli(skip, default = seven)]
    c: u32,
    #[musli(default = seven, skip_encoding_if = is_seven)]
    d: u32,
    e: SkipEnum,
    #[musli(skip)]
    f: Vec<u8>,
}
fn zero(v: &u32) -> bool {
    *v == 0
}
fn seven() -> u32 {
    7
}
fn is_seven(v: &u32) -> bool {
    *v == 7
}
impl Gen for Skips {
    fn gen() -> Self {
        Skips {
            a: Gen::gen(),
            b: if choose(2) == 0 { 0 } else { Gen::gen() },
            c: 7,
            d: if choose(2) == 0 { 7 } else { Gen::gen() },
            e: Gen::gen(),
            f: vec![],
        }
    }
}
#[derive(Debug, PartialEq, Encode, Decode)]
pub enum SkipEnum {
    A { #[musli(default, skip_encoding_if = zero)] a: u32, #[musli(skip)] b: u8, c: String },
    B(#[musli(default, skip_encoding_if = zero)] u32, #[musli(skip, default = seven)] u32, i8),
}
impl Gen for SkipEnum {
    fn gen() -> Self {
        let z = if choose(2) == 0 { 0 } else { u32::gen() };
        if choose(2) == 0 {
            SkipEnum::A { a: z, b: 0, c: Gen::gen() }
        } else {
            SkipEnum::B(z, 7, Gen::gen())
        }
    }
}
mod with {
    pub mod abytes {
        use musli::{Allocator, Decoder, Encoder};
        pub fn encode<E: Encoder, A: Allocator>(v: &musli::alloc::Vec<u8, A>, e: E) -> Result<(), E::Error> {
            e.encode_bytes(v.as_slice())
        }
        pub fn decode<'de, D: Decoder<'de>>(d: D) -> Result<musli::alloc::Vec<u8, D::Allocator>, D::Error> {
            musli::de::DecodeBytes::decode_bytes(d)
        }
    }
    pub mod rev {
        use musli::{Decoder, Encoder};
        pub fn encode<E: Encoder>(v: &u32, e: E) -> Result<(), E::Error> {
            e.encode_u32(v.reverse_bits())
        }
        pub fn decode<'de, D: Decoder<'de>>(d: D) -> Result<u32, D::Error> {
            Ok(d.decode_u32()?.reverse_bits())
        }
    }
    pub mod set {
        use musli::{Decode, Decoder, Encode, Encoder};
        use std::collections::BTreeSet;
        pub fn encode<E, T>(v: &BTreeSet<T>, e: E) -> Result<(), E::Error>
        where
            E: Encoder,
            T: Encode<E::Mode> + Ord,
        {
            e.encode(v)
        }
        pub fn decode<'de, D, T>(d: D) -> Result<BTreeSet<T>, D::Error>
        where
            D: Decoder<'de>,
            T: Decode<'de, D::Mode, D::Allocator> + Ord,
        {
            d.decode()
        }
    }
}
def!(struct Withs { #[musli(with = self::with::rev)] a: u32, #[musli(with = self::with::set)] b: BTreeSet<String>, #[musli(trace)] c: BTreeMap<String, u32>, #[musli(trace)] d: HashMap<u32, String, Fixed>, e: u8 });

// The serde bridge.
macro_rules! serde_def {
    ($(#[$m:meta])* struct $n:ident { $($(#[$fm:meta])* $f:ident : $t:ty),* $(,)? }) => {
        #[derive(Debug, PartialEq, serde::Serialize, serde::Deserialize)]
        $(#[$m])*
        pub struct $n { $($(#[$fm])* pub $f: $t),* }
        gen_struct!($n { $($f),* });
    };
}
serde_def!(struct SerdeIn {
    a: u8, b: i64, c: String, d: Option<u32>, e: Vec<String>, f: BTreeMap<String, u16>, g: (u8, String), h: bool, i: char,
    j: SerdeEnum, k: Vec<SerdeEnum>, l: SerdeUnit, m: SerdeNew, n: (), o: [u32; 3], p: u128, q: i128, r: Option<Box<SerdeIn2>>, s: SerdeTuple,
    t: BTreeMap<u32, i8>,
});
serde_def!(struct SerdeIn2 { x: u16, y: Option<u8>, z: Vec<(u8, i8)> });
serde_def!(struct SerdeOpts { a: Option<Option<u8>>, b: Option<()>, c: Vec<Option<Option<String>>> });
// Nested options: JSON writes both kinds of nothing as null.
def!(struct Opts { a: Option<Option<u32>>, b: Option<()>, c: Vec<Option<Option<()>>>, #[musli(with = musli::serde)] d: SerdeOpts, e: Option<Option<Ext>> });
#[derive(Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct SerdeUnit;
#[derive(Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct SerdeNew(String);
#[derive(Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct SerdeTuple(u32, String, Option<u8>);
#[derive(Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum SerdeEnum {
    Unit,
    New(u32),
    Tuple(u8, String),
    Struct { a: u16, b: Vec<i32> },
}
impl Gen for SerdeUnit {
    fn gen() -> Self {
        SerdeUnit
    }
}
impl Gen for SerdeNew {
    fn gen() -> Self {
        SerdeNew(Gen::gen())
    }
}
impl Gen for SerdeTuple {
    fn gen() -> Self {
        SerdeTuple(Gen::gen(), Gen::gen(), Gen::gen())
    }
}
impl Gen for SerdeEnum {
    fn chk(&self) {
        match self {
            SerdeEnum::Tuple(_, s) => s.chk(),
            _ => (),
        }
    }
    fn gen() -> Self {
        match choose(4) {
            0 => SerdeEnum::Unit,
            1 => SerdeEnum::New(Gen::gen()),
            2 => SerdeEnum::Tuple(Gen::gen(), Gen::gen()),
            _ => SerdeEnum::Struct { a: Gen::gen(), b: Gen::gen() },
        }
    }
}
def!(struct Serde { #[musli(with = musli::serde)] a: SerdeIn, b: u32, #[musli(with = musli::serde)] c: Vec<SerdeEnum>, d: String });

/// Containers that live in the receiver's allocator.
#[derive(Encode, Decode)]
#[musli(bound = {A: Allocator}, decode_bound = {A: Allocator})]
pub struct InAlloc<A: Allocator> { a: musli::alloc::Vec<u32, A>, b: musli::alloc::String<A>, c: musli::alloc::Vec<musli::alloc::String<A>, A>, #[musli(with = self::with::abytes)] e: musli::alloc::Vec<u8, A>, f: musli::alloc::Vec<musli::alloc::Vec<i16, A>, A>, g: musli::alloc::Vec<NonZeroU32, A> }
impl<A: Allocator> PartialEq for InAlloc<A> {
    fn eq(&self, o: &Self) -> bool {
        self.a.as_slice() == o.a.as_slice()
            && self.b.as_str() == o.b.as_str()
            && self.c.iter().map(|s| s.as_str()).eq(o.c.iter().map(|s| s.as_str()))
            && self.e.as_slice() == o.e.as_slice()
            && self.g.as_slice() == o.g.as_slice()
            && self.f.iter().map(|v| v.as_slice()).eq(o.f.iter().map(|v| v.as_slice()))
    }
}
impl<A: Allocator> std::fmt::Debug for InAlloc<A> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "InAlloc({:?} {:?} {:?} {:?} {:?} {:?})", self.a.as_slice(), self.b.as_str(), self.c.iter().map(|s| s.as_str()).collect::<Vec<_>>(), self.e.as_slice(), self.f.iter().map(|v| v.as_slice()).collect::<Vec<_>>(), self.g.as_slice())
    }
}
pub fn avec<T>(v: Vec<T>) -> musli::alloc::Vec<T, Da> {
    let mut o = musli::alloc::Vec::new_in(Da::Sys);
    for x in v {
        o.push(x).ok().unwrap();
    }
    o
}
fn astr() -> musli::alloc::String<Da> {
    let mut o = musli::alloc::String::new_in(Da::Sys);
    o.push_str(&String::gen()).unwrap();
    o
}
impl Gen for InAlloc<Da> {
    fn chk(&self) {
        chk_text(self.b.as_str().as_bytes());
        self.c.iter().for_each(|s| chk_text(s.as_str().as_bytes()));
        self.g.iter().for_each(|n| n.chk());
    }
    fn gen() -> Self {
        InAlloc {
            a: avec(Gen::gen()),
            b: astr(),
            c: avec((0..take_len(4)).map(|_| astr()).collect()),
            e: avec(bytes(50)),
            f: avec((0..take_len(4)).map(|_| avec(Gen::gen())).collect()),
            g: avec(Gen::gen()),
        }
    }
}

// Objects and maps keyed by every kind of number.
def!(struct Keys {
    a: BTreeMap<i8, u8>, b: BTreeMap<i64, String>, c: BTreeMap<i128, Option<u8>>, d: BTreeMap<isize, u8>, e: BTreeMap<u128, u8>,
    f: BTreeMap<u8, u8>, g: BTreeMap<u64, BTreeMap<i16, u8>>, h: BTreeMap<usize, ()>, i: BTreeMap<u16, String>, j: BTreeMap<i32, u8>,
});
// Keys only some encodings can carry.
def!(struct OddKeys { a: BTreeMap<bool, u8>, b: BTreeMap<char, String>, c: BTreeMap<(u8, String), u8>, d: BTreeMap<Option<u8>, u8> });
/// Laid out like plain memory, with fields that do not travel as what they are in memory.
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct PackWith { a: u32, #[musli(with = self::with::rev)] b: u32, c: u32, d: u32 }
gen_struct!(PackWith { a, b, c, d });
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct PackTrans(PackA, Wrapping<u64>, NonZeroU64);
impl Gen for PackTrans {
    fn chk(&self) {
        self.2.chk()
    }
    fn gen() -> Self {
        PackTrans(Gen::gen(), Gen::gen(), Gen::gen())
    }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(transparent)]
#[repr(transparent)]
pub struct TransU(u32);
impl Gen for TransU {
    fn gen() -> Self {
        TransU(Gen::gen())
    }
}
/// Written from growable containers one value after another, read as an array of the same.
macro_rules! packed_from {
    ($m:ident, $t:ty, $e:ty, $n:expr, $c:expr) => {
        pub mod $m {
            use super::*;
            pub fn encode<E: musli::Encoder>(v: &$t, e: E) -> Result<(), E::Error>
            where
                $e: Encode<E::Mode>,
            {
                let c = $c;
                musli::en::EncodePacked::encode_packed(&c(v), e)
            }
            pub fn decode<'de, D: musli::Decoder<'de>>(d: D) -> Result<$t, D::Error>
            where
                $e: Decode<'de, D::Mode, D::Allocator>,
            {
                <$t as musli::de::DecodePacked<'de, D::Mode, D::Allocator>>::decode_packed(d)
            }
        }
    };
}
fn ring<T: Copy>(v: &[T], fill: T) -> VecDeque<T> {
    // wrapped around the end of its memory
    let mut d = VecDeque::with_capacity(v.len() + 1);
    for _ in 0..v.len() / 2 + 1 {
        d.push_back(fill);
    }
    for _ in 0..v.len() / 2 + 1 {
        d.pop_front();
    }
    d.extend(v.iter().copied());
    d
}
packed_from!(pv, [u32; 5], u32, 5, |v: &[u32; 5]| v.to_vec());
packed_from!(pd, [u64; 4], u64, 4, |v: &[u64; 4]| ring(v, 0));
packed_from!(pa, [PackA; 3], PackA, 3, |v: &[PackA; 3]| ring(v, v[0]));
packed_from!(ps, [String; 2], String, 2, |v: &[String; 2]| v.iter().cloned().collect::<VecDeque<String>>());
def!(struct PackLists {
    #[musli(with = self::pv)] a: [u32; 5], #[musli(with = self::pd)] b: [u64; 4], #[musli(with = self::pa)] c: [PackA; 3], #[musli(with = self::ps)] d: [String; 2],
    e: Vec<PackWith>, g: PackWith, i: Vec<PackTrans>, j: Vec<TransU>, k: VecDeque<TransU>, l: [TransU; 3],
    #[musli(packed)] m: (u32, PackWith), #[musli(packed)] n: [PackWith; 2], o: (PackWith, u8), p: Vec<Wrapping<u64>>, q: Vec<(u32, u32)>, r: Vec<Bools>,
});
/// Bytes that are not all valid as what they are.
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(packed)]
#[repr(C)]
pub struct Bools { a: u8, b: bool, c: bool, d: u8, e: char }
gen_struct!(Bools { a, b, c, d, e });
macro_rules! atomic {
    ($($n:ident $a:ident $e:ident),*) => {$(
        #[derive(Debug)]
        pub struct $n(std::sync::atomic::$a);
        impl<M> Encode<M> for $n {
            type Encode = Self;
            const IS_BITWISE_ENCODE: bool = false;
            fn encode<E: musli::Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
                e.$e(self.0.load(std::sync::atomic::Ordering::Relaxed))
            }
            fn as_encode(&self) -> &Self {
                self
            }
        }
        impl<'de, M, A: Allocator> Decode<'de, M, A> for $n {
            const IS_BITWISE_DECODE: bool = <std::sync::atomic::$a as Decode<'de, M, A>>::IS_BITWISE_DECODE;
            fn decode<D: musli::Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
                d.decode().map($n)
            }
        }
        impl PartialEq for $n {
            fn eq(&self, o: &Self) -> bool {
                self.0.load(std::sync::atomic::Ordering::Relaxed) == o.0.load(std::sync::atomic::Ordering::Relaxed)
            }
        }
        impl Gen for $n {
            fn gen() -> Self {
                $n(std::sync::atomic::$a::new(Gen::gen()))
            }
        }
    )*};
}
atomic!(ABool AtomicBool encode_bool, AI8 AtomicI8 encode_i8, AU16 AtomicU16 encode_u16, AI32 AtomicI32 encode_i32, AU64 AtomicU64 encode_u64, AIsize AtomicIsize encode_isize, AUsize AtomicUsize encode_usize);
/// Text taken by closure, without an owner.
pub mod unsized_str {
    pub fn encode<E: musli::Encoder>(v: &String, e: E) -> Result<(), E::Error> {
        e.encode_string(v)
    }
    pub fn decode<'de, D: musli::Decoder<'de>>(d: D) -> Result<String, D::Error> {
        d.decode_unsized(|s: &str| Ok(s.to_string()))
    }
}
pub mod shared {
    pub fn encode<E: musli::Encoder>(v: &impl AsRef<[u8]>, e: E) -> Result<(), E::Error> {
        e.encode_bytes(v.as_ref())
    }
    pub fn decode<'de, D: musli::Decoder<'de>, T: musli::de::DecodeBytes<'de, D::Mode, D::Allocator>>(d: D) -> Result<T, D::Error> {
        T::decode_bytes(d)
    }
}
pub mod unsized_bytes {
    pub fn encode<E: musli::Encoder>(v: &Vec<u8>, e: E) -> Result<(), E::Error> {
        e.encode_bytes_vectored(v.len(), v.chunks(3))
    }
    pub fn decode<'de, D: musli::Decoder<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        d.decode_unsized_bytes(|s: &[u8]| Ok(s.to_vec()))
    }
}
pub mod unsized_u8s {
    pub fn encode<E: musli::Encoder>(v: &Vec<u8>, e: E) -> Result<(), E::Error> {
        e.encode_bytes(v)
    }
    pub fn decode<'de, D: musli::Decoder<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        d.decode_unsized(|s: &[u8]| Ok(s.to_vec()))
    }
}
pub mod unsized_c {
    use super::*;
    pub fn encode<E: musli::Encoder>(v: &CString, e: E) -> Result<(), E::Error> {
        e.encode(v.as_c_str())
    }
    pub fn decode<'de, D: musli::Decoder<'de>>(d: D) -> Result<CString, D::Error> {
        d.decode_unsized(|s: &std::ffi::CStr| Ok(s.to_owned()))
    }
}
def!(struct Owners {
    a: Rc<std::ffi::CStr>, b: Arc<std::path::Path>, c: Rc<std::ffi::OsStr>, d: Arc<std::ffi::CStr>, e: Box<std::path::Path>,
    #[musli(with = self::shared)] f: Rc<[u8]>, #[musli(with = self::shared)] g: Arc<[u8]>, h: musli::compat::Bytes<Vec<u8>>, i: musli::compat::Sequence<()>,
    j: ABool, k: AI8, l: AU16, m: AI32, n: AU64, o: AIsize, p: AUsize,
    #[musli(with = self::unsized_str)] q: String, #[musli(with = self::unsized_bytes)] r: Vec<u8>, #[musli(with = self::unsized_u8s)] s: Vec<u8>,
    #[musli(with = self::unsized_c)] t: CString, u: Box<std::ffi::CStr>,
});
impl Gen for musli::compat::Sequence<()> {
    fn gen() -> Self {
        musli::compat::Sequence(())
    }
}
impl Gen for musli::compat::Bytes<Vec<u8>> {
    fn gen() -> Self {
        musli::compat::Bytes(bytes(60))
    }
}
macro_rules! from_owner {
    ($($t:ty, $o:ty);* $(;)?) => {$(impl Gen for $t { fn gen() -> Self { <$o>::gen().into() } })*};
}
from_owner!(Rc<std::ffi::CStr>, CString; Arc<std::ffi::CStr>, CString; Box<std::ffi::CStr>, CString; Arc<std::path::Path>, PathBuf; Box<std::path::Path>, PathBuf; Rc<std::ffi::OsStr>, OsString; Rc<[u8]>, Vec<u8>; Arc<[u8]>, Vec<u8>);
/// A tag beside the fields of another type.
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(tag = "kind", name_all = "name")]
pub enum IntTrans {
    #[musli(transparent)]
    P(Point),
    #[musli(name_all = "name")]
    Q { z: u8 },
}
impl Gen for IntTrans {
    fn chk(&self) {
        match self {
            IntTrans::P(p) => p.chk(),
            _ => (),
        }
    }
    fn gen() -> Self {
        match choose(2) {
            0 => IntTrans::P(Gen::gen()),
            _ => IntTrans::Q { z: Gen::gen() },
        }
    }
}
// The rest of the serde bridge.
macro_rules! serde_float {
    ($($w:ident $t:ty),*) => {$(
        impl serde::Serialize for $w {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                self.0.serialize(s)
            }
        }
        impl<'de> serde::Deserialize<'de> for $w {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                <$t>::deserialize(d).map($w)
            }
        }
    )*};
}
serde_float!(F32 f32, F64 f64);
serde_def!(struct SerdeMore {
    a: i16, b: u64, c: F32, d: F64, #[serde(with = "self::sbytes")] e: Vec<u8>, f: i8, g: i32, h: Vec<F64>, i: BTreeMap<i64, F32>, j: Box<str>, k: (F64,), l: u16, m: u32,
});
mod sbytes {
    pub fn serialize<S: serde::Serializer>(v: &Vec<u8>, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(v)
    }
    pub fn deserialize<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Vec<u8>;
            fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E>(self, v: &[u8]) -> Result<Vec<u8>, E> {
                Ok(v.to_vec())
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Vec<u8>, A::Error> {
                let mut o = vec![];
                while let Some(b) = a.next_element()? {
                    o.push(b);
                }
                Ok(o)
            }
        }
        d.deserialize_byte_buf(V)
    }
}
/// Needs to ask the message what it holds.
#[derive(Debug, PartialEq, serde::Serialize, serde::Deserialize)]
#[serde(untagged)]
pub enum SerdeAny {
    Flag(bool),
    Text(String),
    List(Vec<i64>),
    Obj { id: u32, name: String },
    Two { left: Box<SerdeAny>, right: Option<u8> },
}
impl Gen for SerdeAny {
    fn gen() -> Self {
        match choose(5) {
            0 => SerdeAny::Flag(Gen::gen()),
            1 => SerdeAny::Text(Gen::gen()),
            2 => SerdeAny::List(Gen::gen()),
            3 => SerdeAny::Obj { id: Gen::gen(), name: Gen::gen() },
            _ => SerdeAny::Two { left: Box::new(SerdeAny::Flag(Gen::gen())), right: Gen::gen() },
        }
    }
}
#[derive(Debug, PartialEq, serde::Serialize, serde::Deserialize)]
#[serde(tag = "t")]
pub enum SerdeTag {
    A { x: i64, y: String },
    B { z: Vec<u32> },
}
impl Gen for SerdeTag {
    fn gen() -> Self {
        match choose(2) {
            0 => SerdeTag::A { x: Gen::gen(), y: Gen::gen() },
            _ => SerdeTag::B { z: Gen::gen() },
        }
    }
}
def!(struct SerdeBridge { #[musli(with = musli::serde)] a: SerdeMore, #[musli(with = musli::serde)] b: F64, #[musli(with = musli::serde)] c: SerdeUnit });
def!(struct SerdeSelf { #[musli(with = musli::serde)] a: Vec<SerdeAny>, #[musli(with = musli::serde)] b: SerdeTag, c: u8 });

/// Text and bytes borrowed from the message.
#[derive(Encode, Decode)]
pub struct Borrow<'de> { a: &'de str, #[musli(bytes)] b: &'de [u8], c: Option<&'de str>, d: Vec<&'de str>, e: Cow<'de, str>, f: u32 }
#[derive(Debug, PartialEq)]
pub struct Owned { a: String, b: Vec<u8>, c: Option<String>, d: Vec<String>, e: String, f: u32 }
impl Gen for Owned {
    fn gen() -> Self {
        Owned { a: Gen::gen(), b: bytes(60), c: Gen::gen(), d: Gen::gen(), e: Gen::gen(), f: Gen::gen() }
    }
}
pub struct Borrowing(S<Prims>);
fn inside(of: &[u8], p: &[u8]) -> bool {
    p.is_empty() || (of.as_ptr() <= p.as_ptr() && p.as_ptr_range().end <= of.as_ptr_range().end)
}
impl Shape for Borrowing {
    fn name(&self) -> &'static str {
        "Borrow"
    }
    fn fmts(&self) -> u32 {
        // JSON text is borrowed only without escapes: `Json` uses plain text only
        M_ALL & !M_JSON & !M_PACKED
    }
    fn gen(&self) -> Box<dyn Any> {
        Box::new(Owned::gen())
    }
    fn same(&self, a: &dyn Any, b: &dyn Any) -> bool {
        a.downcast_ref::<Owned>().unwrap() == b.downcast_ref::<Owned>().unwrap()
    }
    fn chk(&self, a: &dyn Any) {
        let v = a.downcast_ref::<Owned>().unwrap();
        (&v.a, &v.c, &v.d).0.chk();
        v.c.chk();
        v.d.chk();
        v.e.chk();
    }
    fn show(&self, a: &dyn Any) -> String {
        format!("{:.1000?}", a.downcast_ref::<Owned>().unwrap())
    }
    fn enc(&self, f: Fmt, cx: Cx, w: &mut W<'_>, v: &dyn Any) -> Result<Option<usize>, ()> {
        let o = v.downcast_ref::<Owned>().unwrap();
        let b = galloc::untracked(|| Borrow {
            a: &o.a,
            b: &o.b,
            c: o.c.as_deref(),
            d: o.d.iter().map(|s| s.as_str()).collect(),
            e: Cow::Borrowed(&o.e),
            f: o.f,
        });
        let r = enc(f, cx, w, &b);
        galloc::untracked(|| drop(b));
        r
    }
    fn dec(&self, f: Fmt, rd: Rd, cx: Cx, b: &mut &[u8]) -> Result<Box<dyn Any>, ()> {
        let whole = *b;
        let v: Borrow<'_> = dec(f, rd, cx, b)?;
        let _g = galloc::track(false);
        for p in [Some(v.a.as_bytes()), Some(v.b), v.c.map(|s| s.as_bytes())].into_iter().flatten().chain(v.d.iter().map(|s| s.as_bytes())) {
            ensure!(inside(whole, p), "borrow-outside-input", "{f:?}: borrowed {} bytes at {:?} outside the input", p.len(), p.as_ptr());
        }
        if let Cow::Borrowed(p) = v.e {
            ensure!(inside(whole, p.as_bytes()), "borrow-outside-input", "{f:?}: borrowed text outside the input");
        }
        for t in [Some(v.a), v.c, Some(&*v.e)].into_iter().flatten().chain(v.d.iter().copied()) {
            ensure!(std::str::from_utf8(t.as_bytes()).is_ok(), "invalid-text", "{f:?}: decoded text is not valid UTF-8: {}", hex(t.as_bytes()));
        }
        Ok(Box::new(Owned {
            a: v.a.to_string(),
            b: v.b.to_vec(),
            c: v.c.map(|s| s.to_string()),
            d: v.d.iter().map(|s| s.to_string()).collect(),
            e: v.e.to_string(),
            f: v.f,
        }))
    }
}
/// A top-level string slice, borrowed or owned, in every encoding.
pub struct Text0;
impl Shape for Text0 {
    fn name(&self) -> &'static str {
        "Cow<str>"
    }
    fn fmts(&self) -> u32 {
        M_ALL & !M_PACKED
    }
    fn gen(&self) -> Box<dyn Any> {
        Box::new(String::gen())
    }
    fn same(&self, a: &dyn Any, b: &dyn Any) -> bool {
        a.downcast_ref::<String>().unwrap() == b.downcast_ref::<String>().unwrap()
    }
    fn chk(&self, a: &dyn Any) {
        a.downcast_ref::<String>().unwrap().chk()
    }
    fn show(&self, a: &dyn Any) -> String {
        format!("{:.1000?}", a.downcast_ref::<String>().unwrap())
    }
    fn enc(&self, f: Fmt, cx: Cx, w: &mut W<'_>, v: &dyn Any) -> Result<Option<usize>, ()> {
        enc(f, cx, w, v.downcast_ref::<String>().unwrap().as_str())
    }
    fn dec(&self, f: Fmt, rd: Rd, cx: Cx, b: &mut &[u8]) -> Result<Box<dyn Any>, ()> {
        let whole = *b;
        let v: Cow<'_, str> = dec(f, rd, cx, b)?;
        let _g = galloc::track(false);
        ensure!(std::str::from_utf8(v.as_bytes()).is_ok(), "invalid-text", "{f:?}: decoded text is not valid UTF-8");
        if let Cow::Borrowed(p) = v {
            ensure!(inside(whole, p.as_bytes()), "borrow-outside-input", "{f:?}: borrowed text outside the input");
        }
        Ok(Box::new(v.to_string()))
    }
}

// What JSON and the descriptive encoding describe alike.
def!(struct Plain {
    a: u8, b: u16, c: u32, d: u64, e: u128, f: usize, g: i8, h: i16, i: i32, j: i64, k: i128, l: isize,
    m: bool, n: String, u: F64, v: F32, o: Vec<u32>, p: BTreeMap<String, Vec<i64>>, q: Vec<PlainIn>, r: (u8, String), s: Vec<Vec<bool>>, t: [u16; 3],
});
def!(struct PlainIn { first: i32, second: Vec<String>, third: BTreeSet<u64> });
pub static PLAIN: &dyn Shape = &s::<Plain>("Plain", M_FULL);

/// A numeric tag beside fields that are text in text mode.
const M_NUMTAG: u32 = (M_DESC | M_JSON) & !(1 << DescText as u32);
const M_FULL: u32 = M_ALL & !M_PACKED;
static SHAPES: &[&dyn Shape] = &[
    &s::<Prims>("Prims", M_FULL),
    &s::<Strs>("Strs", M_FULL),
    &s::<Coll>("Coll", M_FULL),
    &s::<Units>("Units", M_FULL),
    &s::<Packs>("Packs", M_FULL),
    &s::<PackPlain>("PackPlain", M_ALL),
    &s::<Ext>("Ext", M_FULL),
    &s::<Int>("Int", M_DESC | M_JSON),
    &s::<IntNum>("IntNum", M_NUMTAG),
    &s::<Adj>("Adj", M_FULL),
    &un::<Untag>("Untag", M_DESC | (1 << Json as u32)),
    &s::<Mixed>("Mixed", M_NUMTAG),
    &s::<Net>("Net", M_FULL),
    &s::<Misc>("Misc", M_FULL),
    &s::<Opts>("Opts", M_FULL & !M_JSON),
    &s::<Hashes>("Hashes", M_FULL),
    &s::<Tree>("Tree", M_FULL),
    &s::<Names>("Names", M_FULL),
    &s::<ByteNames>("ByteNames", M_STORAGE),
    &known::<ByteNames>("ByteNames in a tagged format", M_WIRE | M_DESC, "byte-field-names"),
    &known::<TagMix>("TagMix", M_DESC | (1 << JsonBin as u32), "tag-of-another-name-type"),
    &s::<NegNames>("NegNames", M_FULL),
    &s::<Skips>("Skips", M_FULL),
    &s::<Withs>("Withs", M_FULL),
    &s::<Serde>("Serde", M_FULL),
    &s::<InAlloc<Da>>("InAlloc", M_FULL),
    &s::<Paths>("Paths", M_FULL),
    &s::<Keys>("Keys", M_FULL),
    &s::<OddKeys>("OddKeys", M_FULL & !M_JSON),
    &s::<PackLists>("PackLists", M_FULL),
    &s::<Owners>("Owners", M_FULL),
    &s::<IntTrans>("IntTrans", M_DESC | M_JSON),
    &s::<SerdeBridge>("SerdeBridge", M_FULL),
    &s::<SerdeSelf>("SerdeSelf", M_DESC | M_JSON),
    &s::<Wrap>("Wrap", M_FULL),
    &s::<UnitStruct>("UnitStruct", M_FULL),
    &s::<Vec<PackA>>("Vec<PackA>", M_FULL),
    &known::<PackArr>("PackArr", M_FULL, "packed-array"),
    &s::<Vec<char>>("Vec<char>", M_FULL),
    &s::<u64>("u64", M_ALL),
    &s::<i128>("i128", M_ALL),
    &s::<Option<u32>>("Option<u32>", M_FULL),
    &s::<(u8, String, Vec<i64>)>("tuple", M_FULL),
    &s::<BTreeMap<String, Vec<Option<u8>>>>("map", M_FULL),
    &s::<bool>("bool", M_ALL),
    &s::<char>("char", M_ALL),
    &Borrowing(s("", 0)),
    &Text0,
];
pub fn shapes() -> &'static [&'static dyn Shape] {
    SHAPES
}
