//! C19: user code that fails or panics in the middle of a message.
use crate::dynx::*;
use crate::fmt::*;
use crate::gen::{self, Gen};
use crate::gen_struct;
use crate::rt::*;
use crate::types::avec;
use musli::de::{EntryDecoder, MapDecoder, SequenceDecoder};
use musli::en::SequenceEncoder;
use musli::{Allocator, Context, Decode, Decoder, Encode, Encoder};
use simcore::*;
use std::cell::Cell;
use std::collections::*;
use std::io::ErrorKind;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Error,
    Panic,
}
thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static ARMED: Cell<Option<(u64, How)>> = const { Cell::new(None) };
    static HIT: Cell<bool> = const { Cell::new(false) };
    static SERIAL: Cell<usize> = const { Cell::new(0) };
}
static mut LIVE: Vec<bool> = Vec::new();
#[allow(static_mut_refs)]
fn live() -> &'static mut Vec<bool> {
    unsafe { &mut LIVE }
}
fn alive() -> usize {
    live().iter().filter(|l| **l).count()
}

/// A point at which user code runs and may fail.
fn callback() -> bool {
    let n = CALLS.get();
    CALLS.set(n + 1);
    match ARMED.get() {
        Some((k, how)) if k == n => {
            HIT.set(true);
            match how {
                How::Error => true,
                How::Panic => {
                    let _g = galloc::track(false);
                    std::panic::panic_any(Injected)
                }
            }
        }
        _ => false,
    }
}
/// User code that returns no result can only panic.
fn cannot_fail() {
    if callback() {
        HIT.set(false);
    }
}
macro_rules! callback {
    ($cx:expr) => {
        if callback() {
            return Err($cx.message("tripped"));
        }
    };
}

/// An element that counts itself and owns memory.
#[derive(Debug)]
struct Counted {
    serial: usize,
    _heap: Box<u64>,
}
impl Counted {
    fn new() -> Self {
        let serial = SERIAL.get();
        SERIAL.set(serial + 1);
        {
            let _g = galloc::track(false);
            live().push(true);
        }
        Counted { serial, _heap: Box::new(serial as u64) }
    }
}
impl Drop for Counted {
    fn drop(&mut self) {
        match live().get_mut(self.serial) {
            Some(l) if *l => *l = false,
            _ => violate_later("dropped-twice", format!("an element was dropped which is not alive ({})", self.serial)),
        }
    }
}
#[derive(Debug)]
pub struct Elem(u32, Counted);
macro_rules! by_value {
    ($t:ty) => {
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                self.0 == o.0
            }
        }
        impl Eq for $t {}
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $t {
            fn cmp(&self, o: &Self) -> std::cmp::Ordering {
                self.0.cmp(&o.0)
            }
        }
        impl std::hash::Hash for $t {
            fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
                self.0.hash(h)
            }
        }
    };
}
by_value!(Elem);
by_value!(Word);
impl<M> Encode<M> for Elem {
    type Encode = Self;
    const IS_BITWISE_ENCODE: bool = false;
    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        let cx = e.cx();
        callback!(cx);
        let r = e.encode_u32(self.0)?;
        callback!(cx);
        Ok(r)
    }
    fn as_encode(&self) -> &Self {
        self
    }
}
impl<'de, M, A: Allocator> Decode<'de, M, A> for Elem {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        let cx = d.cx();
        callback!(cx);
        let e = Elem(d.decode_u32()?, Counted::new());
        callback!(cx);
        Ok(e)
    }
}
impl Gen for Elem {
    fn gen() -> Self {
        Elem(choose(1000) as u32, Counted::new())
    }
}
/// Decoded by visitors.
#[derive(Debug)]
pub struct Word(String, Counted);
impl<M> Encode<M> for Word {
    type Encode = Self;
    const IS_BITWISE_ENCODE: bool = false;
    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        callback!(e.cx());
        e.encode_string(self.0.as_str())
    }
    fn as_encode(&self) -> &Self {
        self
    }
}
impl<'de, M, A: Allocator> Decode<'de, M, A> for Word {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        let cx = d.cx();
        d.decode_unsized(|s: &str| {
            let w = Word(s.to_owned(), Counted::new());
            callback!(cx);
            Ok(w)
        })
    }
}
impl std::fmt::Display for Word {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl Gen for Word {
    fn gen() -> Self {
        Word(Gen::gen(), Counted::new())
    }
}
/// Written and read element by element by user code.
#[derive(Debug, PartialEq)]
pub struct Hand(Vec<Elem>);
impl<M> Encode<M> for Hand {
    type Encode = Self;
    const IS_BITWISE_ENCODE: bool = false;
    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        let cx = e.cx();
        e.encode_sequence_fn(self.0.len(), |s| {
            callback!(cx);
            for x in &self.0 {
                s.push(x)?;
            }
            callback!(cx);
            Ok(())
        })
    }
    fn as_encode(&self) -> &Self {
        self
    }
}
impl<'de, M, A: Allocator> Decode<'de, M, A> for Hand {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        let cx = d.cx();
        d.decode_sequence(|s| {
            callback!(cx);
            let mut o = Vec::new();
            while let Some(x) = s.try_next()? {
                o.push(x);
                callback!(cx);
            }
            Ok(Hand(o))
        })
    }
}
impl Gen for Hand {
    fn gen() -> Self {
        Hand(Gen::gen())
    }
}
/// A map read entry by entry by user code.
#[derive(Debug, PartialEq)]
pub struct HandMap(Vec<(u32, Elem)>);
impl<M> Encode<M> for HandMap {
    type Encode = Self;
    const IS_BITWISE_ENCODE: bool = false;
    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        use musli::en::MapEncoder;
        let cx = e.cx();
        e.encode_map_fn(self.0.len(), |s| {
            for (k, v) in &self.0 {
                callback!(cx);
                s.insert_entry(k, v)?;
            }
            Ok(())
        })
    }
    fn as_encode(&self) -> &Self {
        self
    }
}
impl<'de, M, A: Allocator> Decode<'de, M, A> for HandMap {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        let cx = d.cx();
        d.decode_map(|s| {
            let mut o = Vec::new();
            while let Some(mut e) = s.decode_entry()? {
                let k = e.decode_key()?.decode_u32()?;
                callback!(cx);
                let v = e.decode_value()?.decode()?;
                o.push((k, v));
                callback!(cx);
            }
            Ok(HandMap(o))
        })
    }
}
impl Gen for HandMap {
    fn gen() -> Self {
        let v: Vec<Elem> = Gen::gen();
        HandMap(v.into_iter().enumerate().map(|(i, e)| (i as u32, e)).collect())
    }
}
pub mod withs {
    use super::*;
    pub fn encode<E: Encoder>(v: &Elem, e: E) -> Result<(), E::Error> {
        callback!(e.cx());
        e.encode_u64(v.0 as u64)
    }
    pub fn decode<'de, D: Decoder<'de>>(d: D) -> Result<Elem, D::Error> {
        let cx = d.cx();
        let e = Elem(d.decode_u64()? as u32, Counted::new());
        callback!(cx);
        Ok(e)
    }
}
fn maybe(v: &Option<Elem>) -> bool {
    cannot_fail();
    v.is_none()
}
fn made() -> Elem {
    cannot_fail();
    Elem(3, Counted::new())
}

fn few<T: Gen>() -> Vec<T> {
    (0..gen::take_len(5)).map(|_| T::gen()).collect()
}

macro_rules! msg {
    ($(#[$m:meta])* $n:ident { $($(#[$fm:meta])* $f:ident : $t:ty),* $(,)? }) => {
        #[derive(Debug, PartialEq, Encode, Decode)]
        $(#[$m])*
        pub struct $n { $($(#[$fm])* $f: $t),* }
        gen_struct!($n { $($f),* });
    };
}
msg!(Seqs { a: Vec<Elem>, b: VecDeque<Elem>, c: [Elem; 3], d: Box<[Elem]>, e: Vec<Vec<Word>>, f: LinkedSet, g: Hand });
msg!(Maps { a: BTreeMap<u32, Elem>, b: BTreeMap<Word, Elem>, c: HandMap, d: BTreeMap<u8, Vec<Elem>> });
msg!(Arrays { a: [[Elem; 2]; 2], b: [Option<Elem>; 3], c: [Word; 1], d: [Elem; 0], e: [(Elem, Word); 2], f: [Boxed; 2] });
msg!(Boxed { a: Option<Box<Elem>>, b: Rc<Elem>, c: Arc<Word>, d: Box<Vec<Elem>>, e: (Elem, Word, (Elem, Elem)), f: Result<Elem, Word> });
#[derive(Debug, PartialEq, Encode, Decode)]
pub struct Attrs {
    a: Elem,
    #[musli(default, skip_encoding_if = maybe)]
    b: Option<Elem>,
    #[musli(with = self::withs)]
    c: Elem,
    #[musli(default = made)]
    d: Elem,
    #[musli(skip, default = made)]
    e: Elem,
    f: Word,
}
impl Gen for Attrs {
    fn gen() -> Self {
        Attrs { a: Gen::gen(), b: Gen::gen(), c: Gen::gen(), d: Gen::gen(), e: Elem(3, Counted::new()), f: Gen::gen() }
    }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(packed)]
pub struct Pack(Elem, [Elem; 2], u16, Elem);
impl Gen for Pack {
    fn gen() -> Self {
        Pack(Gen::gen(), Gen::gen(), Gen::gen(), Gen::gen())
    }
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(transparent)]
pub struct Thin(Elem);
impl Gen for Thin {
    fn gen() -> Self {
        Thin(Gen::gen())
    }
}
msg!(Packs { a: Pack, b: Vec<Pack>, c: Thin, d: Elem });
#[derive(Debug, PartialEq, Encode, Decode)]
pub enum Kinds {
    Empty,
    New(Elem),
    Tuple(Elem, Vec<Word>),
    Named { x: Elem, y: Option<Elem>, z: Box<Elem> },
}
impl Gen for Kinds {
    fn gen() -> Self {
        match choose(4) {
            0 => Kinds::Empty,
            1 => Kinds::New(Gen::gen()),
            2 => Kinds::Tuple(Gen::gen(), few()),
            _ => Kinds::Named { x: Gen::gen(), y: Gen::gen(), z: Gen::gen() },
        }
    }
}
msg!(Enums { a: Kinds, b: Vec<Kinds>, c: Elem });
macro_rules! tagged {
    ($(#[$m:meta])* $n:ident) => {
        #[derive(Debug, PartialEq, Encode, Decode)]
        $(#[$m])*
        pub enum $n {
            A { x: Elem, y: Vec<Elem> },
            B { n: u8, z: Word, w: Option<Elem> },
            C {},
        }
        impl Gen for $n {
            fn gen() -> Self {
                match choose(3) {
                    0 => $n::A { x: Gen::gen(), y: few() },
                    1 => $n::B { n: Gen::gen(), z: Gen::gen(), w: Gen::gen() },
                    _ => $n::C {},
                }
            }
        }
    };
}
tagged!(#[musli(tag = "type")] Inside);
tagged!(#[musli(tag = "t", content = "c")] Beside);
msg!(Tags { a: Inside, b: Vec<Inside>, c: Beside, d: Vec<Beside>, e: Elem });
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(untagged)]
pub enum Guess {
    A { x: Elem, y: Vec<Elem>, v: Word },
    B { x: Elem, y: Vec<Elem> },
}
impl Gen for Guess {
    fn gen() -> Self {
        match choose(2) {
            0 => Guess::A { x: Gen::gen(), y: few(), v: Gen::gen() },
            _ => Guess::B { x: Gen::gen(), y: few() },
        }
    }
}
msg!(Guesses { a: Vec<Guess>, b: Elem });
#[derive(Debug, PartialEq)]
pub struct LinkedSet(BTreeSet<Elem>);
impl<M> Encode<M> for LinkedSet
where
    BTreeSet<Elem>: Encode<M>,
{
    type Encode = Self;
    const IS_BITWISE_ENCODE: bool = false;
    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        e.encode(&self.0)
    }
    fn as_encode(&self) -> &Self {
        self
    }
}
impl<'de, M, A: Allocator> Decode<'de, M, A> for LinkedSet
where
    BTreeSet<Elem>: Decode<'de, M, A>,
{
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        Ok(LinkedSet(d.decode()?))
    }
}
impl Gen for LinkedSet {
    fn gen() -> Self {
        LinkedSet(few().into_iter().collect())
    }
}
/// Everything in the receiver's own allocator.
#[derive(Encode, Decode)]
#[musli(bound = {A: Allocator}, decode_bound = {A: Allocator})]
pub struct InMem<A: Allocator> {
    a: musli::alloc::Vec<Elem, A>,
    b: musli::alloc::Vec<musli::alloc::Vec<Word, A>, A>,
    c: Elem,
    d: musli::alloc::Vec<(Elem, Option<Word>), A>,
}
impl<A: Allocator> PartialEq for InMem<A> {
    fn eq(&self, o: &Self) -> bool {
        self.a.as_slice() == o.a.as_slice() && self.b.iter().map(|v| v.as_slice()).eq(o.b.iter().map(|v| v.as_slice())) && self.c == o.c && self.d.as_slice() == o.d.as_slice()
    }
}
impl<A: Allocator> std::fmt::Debug for InMem<A> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "InMem({:?} {} {:?} {})", self.a.as_slice(), self.b.len(), self.c, self.d.len())
    }
}
impl Gen for InMem<Da> {
    fn gen() -> Self {
        InMem { a: avec(few()), b: avec((0..gen::take_len(4)).map(|_| avec(few())).collect()), c: Gen::gen(), d: avec(few()) }
    }
}

fn scene<T>(name: &str, mask: u32, swallows: bool)
where
    T: 'static + Gen + PartialEq + std::fmt::Debug + Encode<musli::mode::Binary> + Encode<musli::mode::Text>,
    T: for<'de> Decode<'de, musli::mode::Binary, Da> + for<'de> Decode<'de, musli::mode::Text, Da>,
{
    let fs: Vec<Fmt> = ALL.iter().copied().filter(|f| mask & f.bit() != 0).collect();
    let f = *pick(&fs);
    gen::reset(f);
    ARMED.set(None);
    SERIAL.set(0);
    live().clear();
    let v = T::gen();
    let own = alive();
    ev!("{name} {f:?}: {v:?}");

    let rd = |f: Fmt| if swallows && f == Json {
        Rd::Ptr
    } else if f == StorageBe || f.is_json() || choose(2) == 0 { Rd::Slice } else { Rd::Ptr };
    // without failures
    let site = Site::kind(2, false, false);
    CALLS.set(0);
    let mut bytes = Vec::new();
    if enc(f, site.cx(), &mut W::Vec(&mut bytes), &v).is_err() {
        violate("encode-refused", format!("{name} {f:?}: {:?}", site.cx().error()));
    }
    ev!("  encoded {}", hex(&bytes));
    let encodes = CALLS.get();
    CALLS.set(0);
    let mut input: &[u8] = &bytes;
    match dec::<T>(f, rd(f), site.cx(), &mut input) {
        Ok(w) => ensure!(w == v, "wrong-value", "{name} {f:?}: {w:?} instead of {v:?} {:?}", site.cx().error()),
        Err(()) => violate("decode-refused", format!("{name} {f:?}: {:?}", site.cx().error())),
    }
    let decodes = CALLS.get();
    site.close("without failures");
    note(hash_bytes(&bytes));
    ensure!(alive() == own, "element-leaked", "{name} {f:?}: {} elements remain of a decoded value that was dropped", alive() - own);

    let base = galloc::live();
    let site = galloc::tracked(|| Site::kind(choose(3), choose(2) == 1, choose(2) == 1));
    let cx = site.cx();
    for _ in 0..range(1, 6) {
        let encoding = choose(3) == 0;
        let n = if encoding { encodes } else { decodes };
        let how = if choose(2) == 0 { How::Error } else { How::Panic };
        let k = choose(n.max(1) + n / 8);
        CALLS.set(0);
        HIT.set(false);
        ARMED.set(Some((k, how)));
        let before = galloc::live();
        ev!("encoding {encoding}: {how:?} at callback {k} of {n}");
        let outcome = if encoding {
            let mut io = SimIo::new(IoPlan::FailAt(usize::MAX, ErrorKind::Other));
            let mut buf = Vec::new();
            let mut fixed = [0u8; 64];
            let which = choose(3);
            let r = guard("encode", || {
                match which {
                    0 => enc(f, cx, &mut W::Vec(&mut buf), &v),
                    1 => enc(f, cx, &mut W::io(&mut io), &v),
                    _ => enc(f, cx, &mut W::slice(&mut fixed), &v),
                }
                .is_ok()
            });
            let got: &[u8] = match which {
                0 => &buf,
                1 => &io.data,
                _ => &fixed[..fixed.iter().rposition(|b| *b != 0).map_or(0, |p| p + 1)],
            };
            ensure!(bytes.starts_with(got), "not-a-prefix", "{name} {f:?}: {} was delivered of {}", hex(got), hex(&bytes));
            if matches!(r, Ok(true)) && which != 2 {
                ensure!(got == bytes, "not-a-prefix", "{name} {f:?}: {} was delivered instead of {}", hex(got), hex(&bytes));
            }
            r.map(|ok| ok || which == 2 && !HIT.get())
        } else {
            let rd = rd(f);
            let mut input: &[u8] = &bytes;
            let r = galloc::tracked(|| guard("decode", || dec::<T>(f, rd, cx, &mut input)));
            check_heap("decode");
            match r {
                Ok(Ok(w)) => {
                    ensure!(w == v || HIT.get(), "wrong-value", "{name} {f:?}: {w:?} instead of {v:?} {:?}", site.cx().error());
                    galloc::tracked(|| drop(w));
                    Ok(true)
                }
                Ok(Err(())) => Ok(false),
                Err(p) => Err(p),
            }
        };
        ARMED.set(None);
        if HIT.get() {
            fault(match (how, encoding) {
                (How::Error, true) => "encode callback fails",
                (How::Error, false) => "decode callback fails",
                (How::Panic, true) => "encode callback panics",
                (How::Panic, false) => "decode callback panics",
            });
        }
        note(mix(k, outcome.is_err() as u64));
        match outcome {
            Err(_) => ensure!(HIT.get() && how == How::Panic, "wrong-outcome", "{name} {f:?}: a panic that was not injected"),
            Ok(true) => ensure!(!HIT.get() || how == How::Error && swallows, "error-swallowed", "{name} {f:?}: callback {k} failed ({how:?}) and the operation succeeded"),
            Ok(false) => {
                ensure!(HIT.get() && how == How::Error, "wrong-outcome", "{name} {f:?}: failed by itself: {:?}", cx.error());
                ensure!(cx.error().as_deref() == Some("tripped") || swallows, "wrong-error", "{name} {f:?}: the callback's error reached the caller as {:?}", cx.error());
            }
        }
        ensure!(alive() == own, "element-leaked", "{name} {f:?}: {} elements were never dropped after {how:?} at callback {k} (encoding {encoding})", alive() - own);
        cx.clear();
        let after = galloc::live();
        let _ = (before, after);
        // everything works afterwards
        if choose(2) == 0 {
            CALLS.set(0);
            if choose(2) == 0 {
                let mut again = Vec::new();
                let r = guard("encode", || enc(f, cx, &mut W::Vec(&mut again), &v));
                ensure!(matches!(r, Ok(Ok(_))) && again == bytes, "broken-afterwards", "{name} {f:?}: encoding after a failure: {:?}, {}", cx.error(), hex(&again));
            } else {
                let mut input: &[u8] = &bytes;
                let rd = rd(f);
                match galloc::tracked(|| guard("decode", || dec::<T>(f, rd, cx, &mut input))) {
                    Ok(Ok(w)) => {
                        ensure!(w == v, "broken-afterwards", "{name} {f:?}: decoded {w:?} instead of {v:?}");
                        galloc::tracked(|| drop(w));
                    }
                    _ => violate("broken-afterwards", format!("{name} {f:?}: decoding after a failure: {:?}", cx.error())),
                }
                ensure!(alive() == own, "element-leaked", "{name} {f:?}: elements remain");
            }
        }
        step();
        advance_time(1);
    }
    galloc::tracked(|| site.close("callbacks"));
    check_heap("callbacks");
    let end = galloc::live();
    ensure!(end == base, "allocation-leaked", "{name} {f:?}: {} allocations ({} bytes) were never returned", end.0 - base.0, end.1 - base.1);
    state(mix(hash_bytes(name.as_bytes()), mix(f as u64, encodes)));
    drop(v);
    if let Some((c, d)) = st().pending.take() {
        violate(&c, d);
    }
    nontrivial();
}

pub fn c19() {
    let text = DescText.bit() | Json.bit();
    match choose(10) {
        0 => scene::<Seqs>("Seqs", M_ALL & !M_PACKED, false),
        1 => scene::<Maps>("Maps", M_ALL & !M_PACKED, false),
        2 => scene::<Arrays>("Arrays", M_ALL & !M_PACKED, false),
        3 => scene::<Vec<Boxed>>("Boxed", M_ALL & !M_PACKED, false),
        4 => scene::<Vec<Attrs>>("Attrs", M_TAGGED, false),
        5 => scene::<Packs>("Packs", M_ALL & !M_JSON, false),
        6 => scene::<Enums>("Enums", M_ALL & !M_PACKED, false),
        7 => scene::<Tags>("Tags", text, false),
        8 => scene::<Guesses>("Guesses", text, true),
        _ => scene::<InMem<Da>>("InMem", M_ALL & !M_PACKED, false),
    }
}
