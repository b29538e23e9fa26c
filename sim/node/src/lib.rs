//! What every machine of the cluster does: build archives of a stated byte
//! order out of a plan, read archives that others have built, and say what it
//! got. No randomness, no clock, no state between requests.
use musli_zerocopy::endian::{self, Big, Little, Native};
use musli_zerocopy::slice::Packed;
use musli_zerocopy::{buf, trie, Buf, ByteOrder, Endian, Error, OwnedBuf, Ref, Size, ZeroCopy};

#[path = "plan.rs"]
mod plan;
pub use plan::{pack, unpack, Plan};

pub fn machine() -> String {
    format!(
        "{} {} bits, u64 aligned to {}, u128 to {}",
        if cfg!(target_endian = "big") { "big endian" } else { "little endian" },
        usize::BITS,
        align_of::<u64>(),
        align_of::<u128>()
    )
}

/// What was read or is to be read, as bytes: much cheaper than text on an
/// emulated machine.
pub trait Put {
    fn put(&self, o: &mut Vec<u8>);
}
macro_rules! put {
    ($($t:ty),*) => {$(
        impl Put for $t {
            fn put(&self, o: &mut Vec<u8>) {
                o.extend_from_slice(&self.to_le_bytes());
            }
        }
    )*};
}
put!(u8, u16, u32, u64, u128, i8, i16, i32, i64);
impl Put for bool {
    fn put(&self, o: &mut Vec<u8>) {
        o.push(*self as u8);
    }
}
impl Put for f32 {
    fn put(&self, o: &mut Vec<u8>) {
        self.to_bits().put(o);
    }
}
impl Put for f64 {
    fn put(&self, o: &mut Vec<u8>) {
        self.to_bits().put(o);
    }
}
impl Put for str {
    fn put(&self, o: &mut Vec<u8>) {
        self.as_bytes().put(o);
    }
}
impl Put for String {
    fn put(&self, o: &mut Vec<u8>) {
        self.as_bytes().put(o);
    }
}
impl<T: Put> Put for [T] {
    fn put(&self, o: &mut Vec<u8>) {
        (self.len() as u32).put(o);
        self.iter().for_each(|v| v.put(o));
    }
}
impl<T: Put, const N: usize> Put for [T; N] {
    fn put(&self, o: &mut Vec<u8>) {
        self[..].put(o);
    }
}
impl<T: Put> Put for Vec<T> {
    fn put(&self, o: &mut Vec<u8>) {
        self[..].put(o);
    }
}
impl<T: Put + ?Sized> Put for &T {
    fn put(&self, o: &mut Vec<u8>) {
        (**self).put(o);
    }
}
impl<T: Put> Put for Option<T> {
    fn put(&self, o: &mut Vec<u8>) {
        self.is_some().put(o);
        self.iter().for_each(|v| v.put(o));
    }
}
impl<A: Put, B: Put> Put for (A, B) {
    fn put(&self, o: &mut Vec<u8>) {
        self.0.put(o);
        self.1.put(o);
    }
}
macro_rules! val {
    ($tag:literal $(, $e:expr)* $(,)?) => {{
        #[allow(unused_mut)]
        let mut o: Vec<u8> = $tag.as_bytes().to_vec();
        $(Put::put(&$e, &mut o);)*
        o
    }};
}

pub trait Order: ByteOrder + 'static {
    const BE: bool;
}
impl Order for Big {
    const BE: bool = true;
}
impl Order for Little {
    const BE: bool = false;
}

#[derive(ZeroCopy)]
#[repr(C)]
struct Record<E: ByteOrder, O: Size> {
    flag: bool,
    text: Ref<str, E, O>,
    number: Endian<u64, E>,
    list: Ref<[Endian<u16, E>], E, O>,
    small: Endian<i16, E>,
    array: [Endian<u32, E>; 3],
    one: Ref<Endian<u32, E>, E, O>,
    float: Endian<f64, E>,
}
#[derive(ZeroCopy)]
#[repr(u8)]
enum Choice<E: ByteOrder, O: Size> {
    Nothing = 3,
    Number(Endian<u32, E>) = 7,
    Text(Ref<str, E, O>),
    Both { a: Endian<u16, E>, flag: bool, b: Endian<u64, E> } = 200,
}
#[derive(ZeroCopy, Clone, Copy, Debug, PartialEq)]
#[zero_copy(swap_bytes)]
#[repr(u16)]
enum Swappable {
    A { x: u32, y: i16 } = 1,
    A_ { x: u32, y: i16 } = u16::swap_bytes(1),
    B = 0x1234,
    B_ = u16::swap_bytes(0x1234),
}
#[derive(ZeroCopy, Clone, Copy, Debug, PartialEq)]
#[repr(C)]
pub struct Pod {
    a: u16,
    b: u32,
    c: [i16; 3],
    d: i64,
    e: u8,
    f: f32,
    g: (),
}
#[derive(ZeroCopy, Clone, Copy, Debug, PartialEq)]
#[repr(C, packed)]
struct Tight {
    a: u8,
    b: u32,
    c: i64,
}
#[derive(ZeroCopy)]
#[repr(C)]
struct Slices<E: ByteOrder> {
    a: Packed<[Endian<u32, E>], u32, u16, E>,
    b: Packed<[u8], u16, u8, E>,
    c: Packed<[Ref<str, E, u32>], u32, u32, E>,
}
struct Small<E>(core::marker::PhantomData<E>);
impl<E: ByteOrder> trie::Flavor for Small<E> {
    type String = Packed<[u8], u32, u8, E>;
    type Values<T: ZeroCopy> = Packed<[T], u32, u16, E>;
    type Children<T: ZeroCopy> = Ref<[T], E, u32>;
}

type Load = Box<dyn Fn(&Buf) -> Result<Vec<u8>, Error>>;
/// An archive with what is to be read from it.
pub struct Built {
    pub bytes: Vec<u8>,
    pub align: usize,
    items: Vec<(Vec<u8>, Load)>,
    /// What this machine itself found to be wrong.
    pub wrong: Vec<String>,
}
impl Built {
    pub fn want(&self) -> Vec<Vec<u8>> {
        self.items.iter().map(|i| i.0.clone()).collect()
    }
    /// Read an archive, which need not be the one built here.
    pub fn read(&self, archive: &[u8]) -> Vec<Vec<u8>> {
        let b = buf::aligned_buf::<u128>(archive);
        self.items.iter().map(|i| (i.1)(&b).unwrap_or_else(|_| b"refused".to_vec())).collect()
    }
}

fn ordered<const N: usize>(mut ne: [u8; N], be: bool) -> [u8; N] {
    if be != cfg!(target_endian = "big") {
        ne.reverse();
    }
    ne
}

struct Maker<E: Order, O: Size> {
    buf: OwnedBuf<E, O>,
    items: Vec<(Vec<u8>, Load)>,
    wrong: Vec<String>,
}
impl<E: Order, O: Size + 'static> Maker<E, O> {
    fn add(&mut self, want: Vec<u8>, load: impl Fn(&Buf) -> Result<Vec<u8>, Error> + 'static) {
        self.items.push((want, Box::new(load)));
    }
    fn check(&mut self, ok: bool, what: impl FnOnce() -> String) {
        if !ok {
            self.wrong.push(what());
        }
    }
    fn refs<T: ?Sized + musli_zerocopy::pointer::Pointee>(&mut self, r: Ref<T, E, O>) -> Ref<T, E, O> {
        let (be, le, ne) = (r.to_be(), r.to_le(), r.to_ne());
        let ok = be.offset() == r.offset() && le.offset() == r.offset() && ne.offset() == r.offset();
        self.check(ok, || format!("offset {} is {} in big, {} in little and {} in native order", r.offset(), be.offset(), le.offset(), ne.offset()));
        let mut back = r.to_endian::<Big>().to_endian::<Little>().to_endian::<Native>().to_endian::<E>();
        self.check(back.offset() == r.offset() && back.to_bytes() == r.clone().to_bytes(), || format!("reference to {} became one to {}", r.offset(), back.offset()));
        back
    }
    fn text(&mut self, p: &mut Plan<'_>) -> (String, Ref<str, E, O>) {
        let s = p.text();
        let r: Ref<str, E, O> = self.buf.store_unsized(&s);
        (s, self.refs(r))
    }
    fn record(&mut self, p: &mut Plan<'_>) {
        let (s, text) = self.text(p);
        let n = p.below(5);
        let nums: Vec<u16> = (0..n).map(|_| p.num() as u16).collect();
        let list: Vec<Endian<u16, E>> = nums.iter().map(|n| Endian::new(*n)).collect();
        let list: Ref<[Endian<u16, E>], E, O> = self.buf.store_slice(&list);
        let one_value = p.num() as u32;
        let one: Ref<Endian<u32, E>, E, O> = self.buf.store(&Endian::new(one_value));
        let (number, small, array, float, flag) = (p.num() as u64, p.num() as i16, [p.num() as u32, 7, p.num() as u32], f64::from_bits(p.num() as u64), p.below(2) == 1);
        let r: Ref<Record<E, O>, E, O> = self.buf.store(&Record {
            flag,
            text,
            number: Endian::new(number),
            list,
            small: Endian::new(small),
            array: array.map(Endian::new),
            one,
            float: Endian::new(float),
        });
        let show = |flag: bool, s: &str, number: u64, nums: &[u16], small: i16, array: [u32; 3], one: u32, float: f64| {
            val!("record", flag, s, number, nums, small, array, one, float)
        };
        let r = self.refs(r);
        self.add(show(flag, &s, number, &nums, small, array, one_value, float), move |b| {
            let r = b.load(r)?;
            let list: Vec<u16> = b.load(r.list)?.iter().map(|n| n.to_ne()).collect();
            Ok(show(r.flag, b.load(r.text)?, r.number.to_ne(), &list, r.small.to_ne(), r.array.map(|n| n.to_ne()), b.load(r.one)?.to_ne(), r.float.to_ne()))
        });
    }
    fn choice(&mut self, p: &mut Plan<'_>) {
        let (want, c) = match p.below(4) {
            0 => (val!("nothing"), Choice::Nothing),
            1 => {
                let n = p.num() as u32;
                (val!("number", n), Choice::Number(Endian::new(n)))
            }
            2 => {
                let (s, r) = self.text(p);
                (val!("text", s), Choice::Text(r))
            }
            _ => {
                let (a, flag, b) = (p.num() as u16, p.below(2) == 1, p.num() as u64);
                (val!("both", a, flag, b), Choice::Both { a: Endian::new(a), flag, b: Endian::new(b) })
            }
        };
        let r: Ref<Choice<E, O>, E, O> = self.buf.store(&c);
        self.add(want, move |b| {
            Ok(match b.load(r)? {
                Choice::Nothing => val!("nothing"),
                Choice::Number(n) => val!("number", n.to_ne()),
                Choice::Text(r) => val!("text", b.load(*r)?),
                Choice::Both { a, flag, b } => val!("both", a.to_ne(), flag, b.to_ne()),
            })
        });
    }
    fn pod(p: &mut Plan<'_>) -> Pod {
        // Floats are compared by their bits and so no NaN is made.
        let f = p.num() as u32 as i32 as f32;
        Pod { a: p.num() as u16, b: p.num() as u32, c: [p.num() as i16, -2, p.num() as i16], d: p.num() as i64, e: p.byte(), f, g: () }
    }
    fn slices(&mut self, p: &mut Plan<'_>) {
        let n = p.below(4);
        let nums: Vec<u32> = (0..n).map(|_| p.num() as u32).collect();
        let list: Vec<Endian<u32, E>> = nums.iter().map(|n| Endian::new(*n)).collect();
        let a: Ref<[Endian<u32, E>], E, O> = self.buf.store_slice(&list);
        let bytes: Vec<u8> = (0..p.below(6)).map(|_| p.byte()).collect();
        let b: Ref<[u8], E, O> = self.buf.store_unsized(&bytes[..]);
        let mut texts = vec![];
        let mut refs = vec![];
        for _ in 0..p.below(3) {
            let (s, r) = self.text(p);
            let r: Ref<str, E, u32> = Ref::with_metadata(r.offset() as u32, s.len());
            texts.push(s);
            refs.push(r);
        }
        let c: Ref<[Ref<str, E, u32>], E, O> = self.buf.store_slice(&refs);
        let r: Ref<Slices<E>, E, O> = self.buf.store(&Slices { a: Packed::from_ref(a), b: Packed::from_ref(b), c: Packed::from_ref(c) });
        self.add(val!("slices", nums, bytes, texts), move |buf| {
            let s = buf.load(r)?;
            let (a, b, c) = unsafe { (core::ptr::addr_of!(s.a).read_unaligned(), core::ptr::addr_of!(s.b).read_unaligned(), core::ptr::addr_of!(s.c).read_unaligned()) };
            let nums: Vec<u32> = buf.load(a)?.iter().map(|n| n.to_ne()).collect();
            let mut texts = vec![];
            for i in 0..c.len() {
                let Some(r) = c.get(i) else { break };
                texts.push(buf.load(*buf.load(r)?)?);
            }
            Ok(val!("slices", nums, buf.load(b)?, texts))
        });
    }
    fn trie<F: trie::Flavor + 'static>(&mut self, p: &mut Plan<'_>)
    where
        F::Values<Endian<u32, E>>: Copy,
        F::Children<()>: Copy,
    {
        let mut seen: Vec<String> = vec![];
        let mut model = std::collections::BTreeMap::<String, Vec<u32>>::new();
        let mut t = trie::Builder::<Endian<u32, E>, F>::with_flavor();
        for _ in 0..p.below(7) {
            let k = p.key(&seen);
            let v = p.num() as u32;
            let r: Ref<str, E, O> = self.buf.store_unsized(&k);
            if let Err(e) = t.insert(&self.buf, r, Endian::new(v)) {
                self.wrong.push(format!("insert {k:?}: {e}"));
                return;
            }
            model.entry(k.clone()).or_default().push(v);
            seen.push(k);
        }
        let t = match t.build(&mut self.buf) {
            Ok(t) => t,
            Err(e) => return self.wrong.push(format!("build: {e}")),
        };
        let r: Ref<trie::TrieRef<Endian<u32, E>, F>, E, O> = self.buf.store(&t);
        let mut all: Vec<(String, u32)> = model.iter().flat_map(|(k, vs)| vs.iter().map(|v| (k.clone(), *v))).collect();
        all.sort();
        let gets: Vec<Option<&Vec<u32>>> = seen.iter().map(|k| model.get(k)).collect();
        let want = val!("trie", all, gets);
        self.add(want, move |b| {
            let t = b.load(r)?;
            let mut all: Vec<(String, u32)> = vec![];
            for r in t.iter(b).take(60) {
                let (k, v) = r?;
                all.push((String::from_utf8_lossy(k).into_owned(), v.to_ne()));
            }
            all.sort();
            let mut gets = vec![];
            for k in &seen {
                gets.push(t.get(b, k)?.map(|vs| vs.iter().take(60).map(|v| v.to_ne()).collect::<Vec<_>>()));
            }
            Ok(val!("trie", all, gets))
        });
    }
    fn one(&mut self, p: &mut Plan<'_>) {
        macro_rules! prim {
            ($($t:ty),*) => {{
                let n = p.num();
                let mut i = 0;
                let at = p.below([$(stringify!($t)),*].len());
                $(
                    if i == at {
                        let v = n as $t;
                        let mut e: Endian<$t, E> = Endian::new(v);
                        let bytes = ordered(v.to_ne_bytes(), E::BE);
                        let got = e.to_bytes().to_vec();
                        self.check(got == bytes, || format!("{v} is {got:?} in memory, not {bytes:?}"));
                        self.check(e.to_ne() == v && e.to_raw() == <$t>::from_ne_bytes(bytes), || format!("{v} became {}", e.to_ne()));
                        self.check(e.swap_bytes::<Big>().swap_bytes::<Little>().to_ne() == v, || format!("a number of known order was swapped: {v}"));
                        self.check(endian::from_be(v.to_be()) == v && endian::from_le(v.to_le()) == v && endian::from_endian::<_, Native>(v) == v, || format!("{v} is not restored"));
                        self.check(ZeroCopy::swap_bytes::<Native>(v) == v && ZeroCopy::swap_bytes::<endian::Other>(v) == <$t>::from_ne_bytes({ let mut b = v.to_ne_bytes(); b.reverse(); b }), || format!("{v} swaps wrongly"));
                        let r: Ref<Endian<$t, E>, E, O> = self.buf.store(&e);
                        let r = self.refs(r);
                        self.add(val!("number", v), move |b| Ok(val!("number", b.load(r)?.to_ne())));
                    }
                    i += 1;
                )*
                let _ = i;
            }};
        }
        match p.below(16) {
            0 | 1 => prim!(u8, u16, u32, u64, i8, i16, i32, i64),
            2 => {
                let v = f64::from_bits(p.num() as u64);
                let r: Ref<Endian<f64, E>, E, O> = self.buf.store(&Endian::new(v));
                self.add(val!("f64", v), move |b| Ok(val!("f64", b.load(r)?.to_ne())));
                let v = f32::from_bits(p.num() as u32);
                let r: Ref<Endian<f32, E>, E, O> = self.buf.store(&Endian::new(v));
                self.add(val!("f32", v), move |b| Ok(val!("f32", b.load(r)?.to_ne())));
            }
            3 | 4 => {
                let (s, r) = self.text(p);
                let raw: Ref<[u8], E, O> = r.coerce();
                self.add(val!("text", s, s.as_bytes()), move |b| Ok(val!("text", b.load(r)?, b.load(raw)?)));
                // A reference in the archive.
                let r: Ref<Ref<str, E, O>, E, O> = self.buf.store(&r);
                self.add(val!("to text", s), move |b| Ok(val!("to text", b.load(*b.load(r)?)?)));
            }
            5 => {
                let bytes: Vec<u8> = (0..p.below(20)).map(|_| p.byte()).collect();
                let r: Ref<[u8], E, O> = self.buf.store_unsized(&bytes[..]);
                let half = bytes.len() / 2;
                let (a, c) = r.split_at(half);
                self.add(val!("bytes", bytes), move |b| {
                    let mut all = b.load(a)?.to_vec();
                    all.extend(b.load(c)?);
                    Ok(val!("bytes", all))
                });
                let s: Ref<str, E, O> = r.coerce();
                let want = match std::str::from_utf8(&bytes) {
                    Ok(s) => val!("as text", s),
                    Err(_) => b"refused".to_vec(),
                };
                self.add(want, move |b| Ok(val!("as text", b.load(s)?)));
            }
            6 => {
                let n = p.below(6);
                let v: Vec<u64> = (0..n).map(|_| p.num() as u64).collect();
                let e: Vec<Endian<u64, E>> = v.iter().map(|v| Endian::new(*v)).collect();
                let r: Ref<[Endian<u64, E>], E, O> = self.buf.store_slice(&e);
                let r = self.refs(r);
                self.add(val!("slice", v), move |b| Ok(val!("slice", b.load(r)?.iter().map(|v| v.to_ne()).collect::<Vec<_>>())));
                let i = p.below(7);
                let want = v.get(i).map(|v| val!("element", v)).unwrap_or(b"no element".to_vec());
                self.add(want, move |b| {
                    Ok(match r.get(i) {
                        Some(r) => val!("element", b.load(r)?.to_ne()),
                        None => b"no element".to_vec(),
                    })
                });
                // The same bytes as halves.
                let whole: Ref<[u64], E, O> = Ref::with_metadata(r.offset(), r.len());
                if let Some(h) = whole.try_coerce::<[u32]>() {
                    let h: Ref<[Endian<u32, E>], E, O> = Ref::with_metadata(h.offset(), h.len());
                    let halves: Vec<u32> = v.iter().flat_map(|v| { let (hi, lo) = ((v >> 32) as u32, *v as u32); if E::BE { [hi, lo] } else { [lo, hi] } }).collect();
                    self.add(val!("halves", halves), move |b| Ok(val!("halves", b.load(h)?.iter().map(|v| v.to_ne()).collect::<Vec<_>>())));
                }
            }
            7 | 8 => self.record(p),
            9 => self.choice(p),
            10 => {
                let v = Self::pod(p);
                let r: Ref<Endian<Pod, E>, E, O> = self.buf.store(&Endian::new(v));
                self.add(val!("pod", v), move |b| Ok(val!("pod", unsafe { core::ptr::read(b.load(r)?) }.to_ne())));
            }
            11 => {
                let (a, b, c) = (p.byte(), p.num() as u32, p.num() as i64);
                let v = Tight { a, b, c };
                let r: Ref<Endian<Tight, E>, E, O> = self.buf.store(&Endian::new(v));
                self.add(val!("pod", v), move |b| Ok(val!("pod", unsafe { core::ptr::read(b.load(r)?) }.to_ne())));
                let arr = [p.num() as u16, p.num() as u16, 3, p.num() as u16];
                let r: Ref<[Endian<u16, E>; 4], E, O> = self.buf.store(&arr.map(Endian::new));
                let s: Ref<[Endian<u16, E>], E, O> = r.array_into_slice();
                self.add(val!("array", arr, arr), move |b| Ok(val!("array", b.load(r)?.map(|v| v.to_ne()), b.load(s)?.iter().map(|v| v.to_ne()).collect::<Vec<_>>())));
                let r: Ref<Endian<[u16; 4], E>, E, O> = self.buf.store(&Endian::new(arr));
                self.add(val!("array", arr), move |b| Ok(val!("array", unsafe { core::ptr::read(b.load(r)?) }.to_ne())));
            }
            12 => {
                let v = match p.below(2) {
                    0 => Swappable::A { x: p.num() as u32, y: p.num() as i16 },
                    _ => Swappable::B,
                };
                let r: Ref<Endian<Swappable, E>, E, O> = self.buf.store(&Endian::new(v));
                self.add(val!("pod", v), move |b| Ok(val!("pod", unsafe { core::ptr::read(b.load(r)?) }.to_ne())));
            }
            13 if size_of::<O>() >= 4 => self.slices(p),
            14 => self.trie::<trie::DefaultFlavor<E, O>>(p),
            15 if size_of::<O>() >= 4 => self.trie::<Small<E>>(p),
            _ => {
                // Offsets need not be where their types would align by themselves.
                self.buf.store(&p.byte());
                if p.below(2) == 1 {
                    self.buf.align_in_place();
                }
            }
        }
    }
}

fn make<E: Order, O: Size + 'static>(p: &mut Plan<'_>, room: usize) -> Built {
    let mut m = Maker { buf: OwnedBuf::new().with_byte_order::<E>().with_size::<O>(), items: vec![], wrong: vec![] };
    let n = 1 + p.below(8);
    for _ in 0..n {
        if m.buf.len() > room {
            break;
        }
        m.one(p);
    }
    let align = m.buf.requested();
    m.buf.align_in_place();
    Built { bytes: m.buf[..].to_vec(), align, items: m.items, wrong: m.wrong }
}
/// The archive a plan is for.
pub fn build(plan: &[u8]) -> Built {
    let mut p = Plan::new(plan);
    match p.below(6) {
        0 => make::<Little, u32>(&mut p, 2000),
        1 => make::<Big, u32>(&mut p, 2000),
        2 => make::<Little, u16>(&mut p, 2000),
        3 => make::<Big, u16>(&mut p, 2000),
        4 => make::<Little, u8>(&mut p, 0),
        _ => make::<Big, u8>(&mut p, 0),
    }
}
pub fn kind(plan: &[u8]) -> &'static str {
    ["Little, u32", "Big, u32", "Little, u16", "Big, u16", "Little, u8", "Big, u8"][Plan::new(plan).below(6)]
}

/// An archive in the order of the machine building it, which it has to tell
/// along: one slice of records at the start.
pub fn build_native(plan: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let mut p = Plan::new(plan);
    let n = p.below(4);
    let pods: Vec<Pod> = (0..n).map(|_| Maker::<Little, u32>::pod(&mut p)).collect();
    let mut b = OwnedBuf::new();
    b.store_slice(&pods);
    b.align_in_place();
    (b[..].to_vec(), val!("pods", pods))
}
/// Number of plain records of a plan.
pub fn pods(plan: &[u8]) -> usize {
    Plan::new(plan).below(4)
}
/// Where the numbers of a plain record are.
pub const POD: &[(usize, usize)] = &[
    (core::mem::offset_of!(Pod, a), 2),
    (core::mem::offset_of!(Pod, b), 4),
    (core::mem::offset_of!(Pod, c), 2),
    (core::mem::offset_of!(Pod, c) + 2, 2),
    (core::mem::offset_of!(Pod, c) + 4, 2),
    (core::mem::offset_of!(Pod, d), 8),
    (core::mem::offset_of!(Pod, f), 4),
];
pub fn read_native(plan: &[u8], big: bool, bytes: &[u8]) -> Vec<u8> {
    let n = Plan::new(plan).below(4);
    let b = buf::aligned_buf::<u128>(bytes);
    let r = Ref::<[Pod]>::with_metadata(0u32, n);
    match b.load(r) {
        Err(_) => b"refused".to_vec(),
        Ok(pods) => val!("pods", pods.iter().map(|p| if big { endian::from_be(*p) } else { endian::from_le(*p) }).collect::<Vec<_>>()),
    }
}
impl Put for Pod {
    fn put(&self, o: &mut Vec<u8>) {
        (self.a, (self.b, (self.c, (self.d, (self.e, self.f))))).put(o);
    }
}
impl Put for Tight {
    fn put(&self, o: &mut Vec<u8>) {
        (self.a, ({ self.b }, { self.c })).put(o);
    }
}
impl Put for Swappable {
    fn put(&self, o: &mut Vec<u8>) {
        match self {
            Swappable::A { x, y } => val!("A", x, y),
            Swappable::A_ { x, y } => val!("A_", x, y),
            Swappable::B => val!("B"),
            Swappable::B_ => val!("B_"),
        }
        .put(o);
    }
}

/// Answer a request: the plan, an archive for it, the sender's order and a
/// plain archive of the sender.
pub fn answer(request: &[u8]) -> Vec<u8> {
    let parts = unpack(request);
    let [plan, archive, order, native] = parts[..] else {
        return pack(&[b"bad request"]);
    };
    let b = build(plan);
    let read = b.read(archive);
    let read: Vec<&[u8]> = read.iter().map(|r| &r[..]).collect();
    pack(&[
        b.wrong.join("; ").as_bytes(),
        &b.bytes,
        &(b.align as u32).to_le_bytes(),
        &build_native(plan).0,
        &pack(&read),
        &read_native(plan, order == b"big", native),
    ])
}
