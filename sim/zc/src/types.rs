//! The types that are stored, and an independent model of their layout.
//!
//! A `Desc` says where the fields of a type lie (by the documented rules of
//! `repr(C)`, `repr(packed)`, `repr(align)` and `repr(u*)`), which bytes are
//! values and which are padding, and which bit patterns are valid. Values are
//! made from the description, byte by byte, with garbage in the padding.
use musli_zerocopy::endian::{Big, Little};
use musli_zerocopy::{ByteOrder, Endian, Ref, Size, ZeroCopy};
use simcore::*;
use std::num::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Any,
    Bool,
    Char,
    NonZero,
}

#[derive(Clone, Debug)]
pub enum Desc {
    Prim { size: usize, align: usize, kind: Kind, be: bool },
    Struct { fields: Vec<Desc>, pack: Option<usize>, align: usize },
    Enum { tag: usize, be: bool, variants: Vec<(u128, Vec<Desc>)> },
    Array(Box<Desc>, usize),
}

fn up(n: usize, a: usize) -> usize {
    n.div_ceil(a) * a
}

fn prim(size: usize, align: usize, kind: Kind) -> Desc {
    Desc::Prim { size, align, kind, be: false }
}

impl Desc {
    pub fn align(&self) -> usize {
        match self {
            Desc::Prim { align, .. } => *align,
            Desc::Array(d, _) => d.align(),
            Desc::Struct { fields, pack, align } => fields
                .iter()
                .map(|f| f.align().min(pack.unwrap_or(usize::MAX)))
                .chain([*align])
                .max()
                .unwrap(),
            Desc::Enum { tag, variants, .. } => {
                let t = tag_align(*tag);
                variants.iter().flat_map(|v| v.1.iter()).map(|f| f.align()).chain([t]).max().unwrap()
            }
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Desc::Prim { size, .. } => *size,
            Desc::Array(d, n) => d.size() * n,
            Desc::Struct { fields, pack, .. } => {
                let end = offsets(0, fields, *pack).1;
                up(end, self.align())
            }
            Desc::Enum { tag, variants, .. } => {
                let end = variants.iter().map(|v| offsets(*tag, &v.1, None).1).chain([*tag]).max().unwrap();
                up(end, self.align())
            }
        }
    }
    /// Write a random valid value; `mask` marks the bytes that carry it.
    pub fn fill(&self, out: &mut [u8], mask: &mut [bool]) {
        self.fill_with(out, mask, &mut |n| choose(n));
    }
    pub fn fill_with(&self, out: &mut [u8], mask: &mut [bool], rng: &mut dyn FnMut(u64) -> u64) {
        match self {
            Desc::Prim { size, kind, .. } => {
                mask.iter_mut().for_each(|m| *m = true);
                match kind {
                    Kind::Any => rand_bytes_with(out, rng),
                    Kind::Bool => out[0] = rng(2) as u8,
                    Kind::Char => {
                        let c = match rng(6) {
                            0 => '\0',
                            1 => char::from_u32(rng(128) as u32).unwrap(),
                            2 => '\u{D7FF}',
                            3 => '\u{E000}',
                            4 => '\u{10FFFF}',
                            _ => char::from_u32(0x3b1 + rng(500) as u32).unwrap(),
                        };
                        out.copy_from_slice(&(c as u32).to_ne_bytes());
                    }
                    Kind::NonZero => {
                        rand_bytes_with(out, rng);
                        if out.iter().all(|b| *b == 0) {
                            let i = rng(*size as u64) as usize;
                            out[i] = 1 + rng(255) as u8;
                        }
                    }
                }
            }
            Desc::Array(d, n) => {
                let s = d.size();
                for i in 0..*n {
                    d.fill_with(&mut out[i * s..(i + 1) * s], &mut mask[i * s..(i + 1) * s], rng);
                }
            }
            Desc::Struct { fields, pack, .. } => {
                for (f, o) in fields.iter().zip(offsets(0, fields, *pack).0) {
                    let s = f.size();
                    f.fill_with(&mut out[o..o + s], &mut mask[o..o + s], rng);
                }
            }
            Desc::Enum { tag, variants, .. } => {
                let v = &variants[rng(variants.len() as u64) as usize];
                out[..*tag].copy_from_slice(&v.0.to_le_bytes()[..*tag]);
                mask[..*tag].iter_mut().for_each(|m| *m = true);
                for (f, o) in v.1.iter().zip(offsets(*tag, &v.1, None).0) {
                    let s = f.size();
                    f.fill_with(&mut out[o..o + s], &mut mask[o..o + s], rng);
                }
            }
        }
    }
    /// Whether these bytes are a value of the type, and which of them count.
    pub fn valid(&self, b: &[u8], mask: &mut [bool]) -> bool {
        match self {
            Desc::Prim { kind, .. } => {
                mask.iter_mut().for_each(|m| *m = true);
                match kind {
                    Kind::Any => true,
                    Kind::Bool => b[0] <= 1,
                    Kind::Char => char::from_u32(u32::from_ne_bytes(b.try_into().unwrap())).is_some(),
                    Kind::NonZero => b.iter().any(|b| *b != 0),
                }
            }
            Desc::Array(d, n) => {
                let s = d.size();
                (0..*n).all(|i| d.valid(&b[i * s..(i + 1) * s], &mut mask[i * s..(i + 1) * s]))
            }
            Desc::Struct { fields, pack, .. } => fields.iter().zip(offsets(0, fields, *pack).0).all(|(f, o)| {
                let s = f.size();
                f.valid(&b[o..o + s], &mut mask[o..o + s])
            }),
            Desc::Enum { tag, variants, .. } => {
                let mut t = [0; 16];
                t[..*tag].copy_from_slice(&b[..*tag]);
                let t = u128::from_le_bytes(t);
                mask[..*tag].iter_mut().for_each(|m| *m = true);
                let Some(v) = variants.iter().find(|v| v.0 == t) else { return false };
                v.1.iter().zip(offsets(*tag, &v.1, None).0).all(|(f, o)| {
                    let s = f.size();
                    f.valid(&b[o..o + s], &mut mask[o..o + s])
                })
            }
        }
    }
    /// Same type with all its numbers kept in big-endian order when `be`.
    pub fn ordered(&self, be: bool) -> Desc {
        match self {
            Desc::Prim { size, align, kind, .. } => Desc::Prim { size: *size, align: *align, kind: *kind, be },
            Desc::Array(d, n) => Desc::Array(Box::new(d.ordered(be)), *n),
            Desc::Struct { fields, pack, align } => {
                Desc::Struct { fields: fields.iter().map(|f| f.ordered(be)).collect(), pack: *pack, align: *align }
            }
            Desc::Enum { tag, variants, .. } => Desc::Enum {
                tag: *tag,
                be,
                variants: variants.iter().map(|v| (v.0, v.1.iter().map(|f| f.ordered(be)).collect())).collect(),
            },
        }
    }
    /// Reverse every number in place (the other machine's view of the value).
    pub fn reverse(&self, b: &mut [u8]) {
        match self {
            Desc::Prim { .. } => b.reverse(),
            Desc::Array(d, n) => {
                let s = d.size();
                for i in 0..*n {
                    d.reverse(&mut b[i * s..(i + 1) * s]);
                }
            }
            Desc::Struct { fields, pack, .. } => {
                for (f, o) in fields.iter().zip(offsets(0, fields, *pack).0) {
                    let s = f.size();
                    f.reverse(&mut b[o..o + s]);
                }
            }
            Desc::Enum { tag, variants, .. } => {
                let mut t = [0; 16];
                t[..*tag].copy_from_slice(&b[..*tag]);
                let t = u128::from_le_bytes(t);
                let v = variants.iter().find(|v| v.0 == t).expect("valid value");
                for (f, o) in v.1.iter().zip(offsets(*tag, &v.1, None).0) {
                    let s = f.size();
                    f.reverse(&mut b[o..o + s]);
                }
                b[..*tag].reverse();
            }
        }
    }
    pub fn has_be(&self) -> bool {
        match self {
            Desc::Prim { be, .. } => *be,
            Desc::Array(d, _) => d.has_be(),
            Desc::Struct { fields, .. } => fields.iter().any(|f| f.has_be()),
            Desc::Enum { be, variants, .. } => *be || variants.iter().any(|v| v.1.iter().any(|f| f.has_be())),
        }
    }
}

fn tag_align(tag: usize) -> usize {
    match tag {
        16 => align_of::<u128>(),
        n => n,
    }
}

pub fn offsets(start: usize, fields: &[Desc], pack: Option<usize>) -> (Vec<usize>, usize) {
    let mut at = start;
    let mut out = vec![];
    for f in fields {
        at = up(at, f.align().min(pack.unwrap_or(usize::MAX)));
        out.push(at);
        at += f.size();
    }
    (out, at)
}

pub fn rand_bytes(out: &mut [u8]) {
    rand_bytes_with(out, &mut |n| choose(n))
}
pub fn rand_bytes_with(out: &mut [u8], rng: &mut dyn FnMut(u64) -> u64) {
    match rng(4) {
        0 => {
            let b = [0u8, 0xff, 1, 0x80, 0x7f][rng(5) as usize];
            out.fill(b);
        }
        1 => {
            out.fill(0);
            if !out.is_empty() {
                let i = rng(out.len() as u64) as usize;
                out[i] = rng(256) as u8;
            }
        }
        _ => {
            let mut x = rng(u64::MAX);
            for b in out {
                x = mix(x, 1);
                *b = (x >> 24) as u8;
            }
        }
    }
}

/// A type of the model.
pub trait D: ZeroCopy + Copy + 'static {
    fn desc() -> Desc;
}

macro_rules! d_any { ($($t:ty),*) => { $(impl D for $t { fn desc() -> Desc { prim(size_of::<$t>(), align_of::<$t>(), Kind::Any) } })* } }
macro_rules! d_nz { ($($t:ty),*) => { $(
    impl D for $t { fn desc() -> Desc { prim(size_of::<$t>(), align_of::<$t>(), Kind::NonZero) } }
    impl D for Option<$t> { fn desc() -> Desc { prim(size_of::<$t>(), align_of::<$t>(), Kind::Any) } }
)* } }
d_any!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
d_nz!(NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU128, NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroUsize);
impl D for bool {
    fn desc() -> Desc {
        prim(1, 1, Kind::Bool)
    }
}
impl D for char {
    fn desc() -> Desc {
        prim(4, 4, Kind::Char)
    }
}
impl D for () {
    fn desc() -> Desc {
        Desc::Struct { fields: vec![], pack: None, align: 1 }
    }
}
impl<T: D, const N: usize> D for [T; N] {
    fn desc() -> Desc {
        Desc::Array(Box::new(T::desc()), N)
    }
}
impl<T: D> D for Wrapping<T> {
    fn desc() -> Desc {
        T::desc()
    }
}
pub trait Order: ByteOrder {
    const BE: bool;
    const NAME: &'static str;
}
impl Order for Big {
    const BE: bool = true;
    const NAME: &'static str = "big";
}
impl Order for Little {
    const BE: bool = false;
    const NAME: &'static str = "little";
}
impl<T: D, E: Order> D for Endian<T, E> {
    fn desc() -> Desc {
        T::desc().ordered(E::BE)
    }
}
impl<T: D, E: Order, O: Size + D> D for Ref<T, E, O> {
    fn desc() -> Desc {
        O::desc().ordered(E::BE)
    }
}
impl<T: D, E: Order, O: Size + D> D for Ref<[T], E, O> {
    fn desc() -> Desc {
        Desc::Struct { fields: vec![O::desc().ordered(E::BE), O::desc().ordered(E::BE)], pack: None, align: 1 }
    }
}
impl<E: Order, O: Size + D> D for Ref<str, E, O> {
    fn desc() -> Desc {
        Desc::Struct { fields: vec![O::desc().ordered(E::BE), O::desc().ordered(E::BE)], pack: None, align: 1 }
    }
}

macro_rules! pk {
    () => { None };
    ($n:literal) => { Some($n) };
}
macro_rules! al {
    () => { 1 };
    ($n:literal) => { $n };
}
macro_rules! zs {
    ($(#[$m:meta])* struct $n:ident [$($pack:literal)?] [$($align:literal)?] { $($(#[$fm:meta])* $f:ident : $t:ty),* $(,)? }) => {
        #[derive(Clone, Copy, ZeroCopy)]
        $(#[$m])*
        pub struct $n { $($(#[$fm])* pub $f: $t),* }
        impl D for $n {
            fn desc() -> Desc {
                Desc::Struct { fields: vec![$(<$t as D>::desc()),*], pack: pk!($($pack)?), align: al!($($align)?) }
            }
        }
    };
}
macro_rules! ze {
    ($(#[$m:meta])* enum $n:ident : $tag:ident { $($v:ident $({ $($f:ident : $t:ty),* })? $(= $d:literal)? => $dv:literal),* $(,)? }) => {
        #[derive(Clone, Copy, ZeroCopy)]
        #[repr($tag)]
        $(#[$m])*
        #[allow(dead_code)]
        pub enum $n { $($v $({ $($f: $t),* })? $(= $d)?),* }
        impl D for $n {
            fn desc() -> Desc {
                Desc::Enum {
                    tag: size_of::<$tag>(),
                    be: false,
                    variants: vec![$((($dv as $tag) as u128 & (u128::MAX >> (128 - 8 * size_of::<$tag>())), vec![$($(<$t as D>::desc()),*)?])),*],
                }
            }
        }
    };
}

zs!(#[repr(C)] struct Pair [] [] { a: u8, b: u32 });
zs!(#[repr(C)] struct Mixed [] [] { a: u8, b: u16, c: u64, d: bool });
zs!(#[repr(C)] struct Flags [] [] { a: bool, b: char, c: bool });
zs!(#[repr(C)] struct Wide [] [] { a: u8, b: u128, c: NonZeroU16 });
zs!(#[repr(C)] struct Nest [] [] { a: Pair, b: [Flags; 2], c: u8, d: Option<NonZeroU32> });
zs!(#[repr(C, packed)] struct Pack1 [1] [] { a: u8, b: u32, c: u16, d: bool, e: u64 });
zs!(#[repr(C, packed(2))] struct Pack2 [2] [] { a: u8, b: u8, c: u32, d: u8, e: bool, f: u16 });
zs!(#[repr(C, packed(4))] struct Pack4 [4] [] { a: bool, b: u16, c: u64, d: u8, e: NonZeroU32, f: u8 });
zs!(#[repr(C, align(16))] struct Al16 [] [16] { a: u32, b: u8 });
zs!(#[repr(C, align(32))] struct Al32 [] [32] { a: bool, b: u16 });
zs!(#[repr(transparent)] struct Trans [] [] { a: NonZeroU64 });
zs!(#[repr(C)] struct Unit [] [] {});
zs!(#[repr(C)] struct Floats [] [] { a: f64, b: f32, c: Wrapping<u16>, d: () });
zs!(#[repr(C)] struct Orders [] [] { a: Endian<u16, Big>, b: Endian<u32, Little>, c: Endian<f64, Big>, d: Endian<[u16; 3], Big>, e: u8 });
zs!(#[repr(C)] struct Enums [] [] { a: E8, b: E16, c: u8, d: [E8; 2] });
zs!(#[repr(C)] struct Refs [] [] { a: Ref<u32>, b: Ref<[u16], Big, u16>, c: Ref<str, Little, u8>, d: Ref<Mixed, Big, usize> });
zs!(#[repr(C)] struct Marked [] [] { a: u8, #[zero_copy(ignore)] m: [Unit8; 0], b: u8, c: bool });
#[derive(Clone, Copy, ZeroCopy)]
#[repr(C, align(8))]
pub struct Unit8 {
    pub a: u8,
}
impl D for Unit8 {
    fn desc() -> Desc {
        Desc::Struct { fields: vec![u8::desc()], pack: None, align: 8 }
    }
}
ze!(enum E8: u8 { A => 0, B { a: u32 } => 1, C { a: u8, b: u64 } => 2, D { a: bool, b: char } => 3 });
ze!(enum E16: u16 { A = 5 => 5, B { a: bool } = 0x100 => 0x100, C { a: char, b: NonZeroU8 } => 0x101 });
ze!(enum E32: u32 { A => 0, B { a: [u16; 3] } => 1, C { a: E8, b: u8 } = 0xff00ff00 => 0xff00ff00u32 });
ze!(enum EI8: i8 { A = -3 => -3, B => -2, C { a: u8 } => -1, D => 0, E => 1 });
ze!(enum E64: u64 { A { a: u8 } => 0, B { a: u8, b: u8, c: u32 } => 1 });
ze!(enum E128: u128 { A => 0, B { a: u8 } = 7 => 7 });
ze!(#[zero_copy(swap_bytes)] enum ESwap: u16 {
    A { a: u32 } = 1 => 1,
    _A { a: u32 } = 0x100 => 0x100,
    P { a: u8, b: u16 } = 0x203 => 0x203,
    P_ { a: u8, b: u16 } = 0x302 => 0x302,
});

pub fn check_layouts() {
    fn one<T: D>(n: &str) {
        let d = T::desc();
        assert_eq!((d.size(), d.align()), (size_of::<T>(), align_of::<T>()), "layout model of {n}");
    }
    macro_rules! all { ($($t:ty),*) => { $(one::<$t>(stringify!($t));)* } }
    all!(
        Pair, Mixed, Flags, Wide, Nest, Pack1, Pack2, Pack4, Al16, Al32, Trans, Unit, Floats, Orders, Enums, Refs, Marked, E8, E16, E32, EI8, E64, E128,
        ESwap, u128, char
    );
}
