//! C15: a stored trie answers like an ordered map from byte strings to the
//! values inserted under them.
use crate::build::*;
use crate::types::*;
use musli_zerocopy::endian::{Big, Little};
use musli_zerocopy::slice::Packed;
use musli_zerocopy::{trie, Buf, Error, OwnedBuf, Ref, Size, ZeroCopy};
use crate::index::{damaged_now, failed, set_damaged, sound};
use simcore::sys::Guarded;
use simcore::*;
use std::collections::BTreeMap;
use std::num::NonZeroU16;

/// A value by its bytes, which of them count, and its name when printed.
type Value = (Vec<u8>, Vec<bool>);
type Model = BTreeMap<Vec<u8>, Vec<Value>>;

pub trait TV: D {
    fn show(&self) -> Option<String> {
        None
    }
}
impl TV for u32 {
    fn show(&self) -> Option<String> {
        Some(format!("{self}"))
    }
}
impl TV for E8 {}
impl TV for NonZeroU16 {}
impl TV for () {
    fn show(&self) -> Option<String> {
        Some("()".into())
    }
}
impl TV for Al16 {}

/// How a key gets into the archive.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Form {
    Str,
    Bytes,
    /// Two bytes at a time.
    Wide,
    /// As an array, whose reference is turned into that of a slice.
    Array,
    /// As a part of a longer string that is stored already.
    Part,
}

pub struct PackA;
impl trie::Flavor for PackA {
    type String = Packed<[u8], u32, u8>;
    type Values<T: ZeroCopy> = Packed<[T], u32, u16>;
    type Children<T: ZeroCopy> = Packed<[T], u32, u8>;
}
pub struct PackB;
impl trie::Flavor for PackB {
    type String = Packed<[u8], u16, u16, Big>;
    type Values<T: ZeroCopy> = Ref<[T], Little, usize>;
    type Children<T: ZeroCopy> = Packed<[T], u32, u16, Little>;
}
pub struct PackC;
impl trie::Flavor for PackC {
    type String = Ref<[u8], Big, u32>;
    type Values<T: ZeroCopy> = Packed<[T], usize, u8, Big>;
    type Children<T: ZeroCopy> = Ref<[T], Big, u16>;
}
trait Fl: trie::Flavor + 'static {
    const NAME: &'static str;
    /// The number of bytes, values and children a node can hold, and the
    /// highest offset it can refer to.
    const LIMITS: (usize, usize, usize, usize);
}
impl Fl for PackA {
    const NAME: &'static str = "packed u32/u8";
    const LIMITS: (usize, usize, usize, usize) = (255, 65535, 255, u32::MAX as usize);
}
impl Fl for PackB {
    const NAME: &'static str = "packed mixed";
    const LIMITS: (usize, usize, usize, usize) = (65535, usize::MAX, 65535, 65535);
}
impl Fl for PackC {
    const NAME: &'static str = "references mixed";
    const LIMITS: (usize, usize, usize, usize) = (1 << 31, 255, 65535, 65535);
}
impl<E: Order, O: Size + D> Fl for trie::DefaultFlavor<E, O> {
    const NAME: &'static str = "default";
    const LIMITS: (usize, usize, usize, usize) = (1 << 31, 1 << 31, 1 << 31, usize::MAX);
}

fn key(seen: &[Vec<u8>]) -> Vec<u8> {
    let letters: &[u8] = *pick(&[b"ab" as &[u8], b"abc", b"\x00\xff", b"xyz\x80\xe6"]);
    let some = |n: usize| -> Vec<u8> { (0..n).map(|_| *pick(letters)).collect() };
    match choose(14) {
        0 => vec![],
        1 => some(1),
        2 => text().into_bytes(),
        3 => vec![*pick(letters); below(if st().thorough { 300 } else { 60 })],
        4 => vec![choose(256) as u8, choose(256) as u8],
        // Relatives of the keys there are.
        5..=9 if !seen.is_empty() => {
            let mut k = pick(seen).clone();
            match choose(5) {
                0 => k.truncate(below(k.len() + 1)),
                1 | 2 => {
                    k.truncate(below(k.len() + 1));
                    k.extend(some(1 + below(4)));
                }
                3 if !k.is_empty() => {
                    let n = k.len();
                    k[below(n)] = *pick(letters);
                }
                _ => k.extend(some(1 + below(6))),
            }
            k
        }
        10 => ["work", "worker", "workers", "working", "working man", "wo", "wa"][below(7)].as_bytes().to_vec(),
        11 if chance(1, 6) => some(250 + below(20)),
        _ => some(below(8)),
    }
}

struct Plan {
    entries: Vec<(Form, Vec<u8>, Value)>,
    /// Keys go in as soon as they are stored, and not when all are.
    at_once: bool,
    /// The whole of it with one call.
    store: bool,
    by_ref: bool,
    filler: u64,
}
fn plan<V: TV>() -> Plan {
    let n = match choose(10) {
        0 => 0,
        1 => 1,
        2..=4 => below(6),
        5 => below(if st().thorough { 1000 } else { 200 }),
        _ => below(30),
    };
    let mut seen: Vec<Vec<u8>> = vec![];
    let mut entries = vec![];
    let twice = chance(1, 2);
    let d = V::desc();
    let many = if chance(1, 30) { 300 } else { 0 };
    while entries.len() < n + many {
        let k = if entries.len() >= n && !seen.is_empty() {
            seen[0].clone()
        } else if twice && !seen.is_empty() && choose(5) == 0 {
            pick(&seen).clone()
        } else {
            key(&seen)
        };
        let form = *pick(&[Form::Str, Form::Bytes, Form::Bytes, Form::Wide, Form::Array, Form::Part]);
        let form = match form {
            Form::Str if std::str::from_utf8(&k).is_err() => Form::Bytes,
            Form::Wide if k.len() % 2 != 0 => Form::Part,
            Form::Array if k.len() != 4 => Form::Bytes,
            f => f,
        };
        let (mut b, mut m) = (vec![0; size_of::<V>()], vec![false; size_of::<V>()]);
        d.fill(&mut b, &mut m);
        seen.push(k.clone());
        entries.push((form, k, (b, m)));
    }
    let order = choose(3);
    if order == 0 {
        entries.sort_by(|a, b| a.1.cmp(&b.1));
    } else if order == 1 {
        for i in (1..entries.len()).rev() {
            entries.swap(i, below(i + 1));
        }
    }
    note(mix(entries.len() as u64, entries.iter().fold(0, |a, e| mix(a, hash_bytes(&e.1)))));
    Plan { entries, at_once: choose(2) == 0, store: choose(3) == 0, by_ref: choose(3) == 0, filler: choose(u64::MAX) }
}

/// A stored key is one of these.
enum Stored<E: Order, O: Size> {
    Str(Ref<str, E, O>),
    Bytes(Ref<[u8], E, O>),
    Wide(Ref<[u16], E, O>),
}
fn put<E: Order, O: Size + D>(buf: &mut OwnedBuf<E, O>, form: Form, k: &[u8]) -> Stored<E, O>
where
    OwnedBuf<E, O>: ZB<E = E, O = O>,
{
    match form {
        Form::Str => Stored::Str(buf.store_unsized(std::str::from_utf8(k).unwrap())),
        Form::Bytes => Stored::Bytes(buf.store_unsized(k)),
        Form::Wide => {
            let w: Vec<u16> = k.chunks(2).map(|c| u16::from_ne_bytes([c[0], c[1]])).collect();
            Stored::Wide(buf.store_unsized(&w[..]))
        }
        Form::Array => {
            let a: [u8; 4] = k.try_into().unwrap();
            Stored::Bytes(buf.store(&a).array_into_slice())
        }
        Form::Part => {
            let whole = [b"##", k, b"##"].concat();
            let r: Ref<[u8], E, O> = buf.store_unsized(&whole[..]);
            Stored::Bytes(r.split_at(2).1.split_at(k.len()).0)
        }
    }
}

/// Everything that can be asked of a trie, against the model.
struct Ask<'a, V: TV, F: trie::Flavor> {
    buf: &'a Buf,
    t: trie::TrieRef<V, F>,
    model: &'a Model,
    place: &'a str,
}
impl<V: TV, F: trie::Flavor> Ask<'_, V, F> {
    fn get(&self, k: &[u8]) {
        let what = format!("{}: get {:?}", self.place, lossy(k));
        let want: &[Value] = self.model.get(k).map(|v| &v[..]).unwrap_or(&[]);
        match self.t.get(self.buf, k) {
            Ok(None) => ensure!(want.is_empty() || damaged_now(), "lost-entry", "{what}: not found"),
            // No more than there are bytes, unless they take none.
            Ok(Some(got)) if damaged_now() => got.iter().take(self.buf.len() + 8).for_each(|g| sound(self.buf, g, &what)),
            Ok(Some(got)) => {
                ensure!(got.is_empty() || !want.is_empty(), "found-absent", "{what}: found {} values of an absent key", got.len());
                ensure!(got.len() == want.len(), "wrong-values", "{what}: {} values for {} inserted", got.len(), want.len());
                for (i, (g, w)) in got.iter().zip(want).enumerate() {
                    sound(self.buf, g, &what);
                    ensure!(same(raw(g), &w.0, &w.1), "wrong-values", "{what}: value {i} is {}, not {}", hex(raw(g)), hex(&w.0));
                }
            }
            Err(e) => failed(what, e),
        }
    }
    /// `got` has what is below `prefix`; if it has an end to its depth it may stop with an error.
    fn walk<'b>(&self, name: &str, prefix: &[u8], depth: Option<usize>, got: impl Iterator<Item = Result<(Option<&'b [u8]>, &'b V), Error>>) {
        let what = format!("{}: {name} {:?}", self.place, lossy(prefix));
        let mut left: Vec<(&[u8], &Value)> =
            self.model.iter().filter(|e| e.0.starts_with(prefix)).flat_map(|(k, vs)| vs.iter().map(move |v| (&k[..], v))).collect();
        let longest = left.iter().map(|e| e.0.len()).max().unwrap_or(0);
        let total = left.len();
        if damaged_now() {
            let all = self.buf.get(..).unwrap().as_ptr_range();
            let mut wrong = 0;
            for r in got.take(total + 30) {
                match r {
                    Ok((k, v)) => {
                        sound(self.buf, v, &what);
                        if let Some(k) = k {
                            let r = k.as_ptr_range();
                            ensure!(k.is_empty() || (r.start >= all.start && r.end <= all.end), "wrong-address", "{what}: a key outside of the archive");
                        }
                    }
                    Err(e) => {
                        failed(what.clone(), e);
                        wrong += 1;
                        if wrong > 3 {
                            break;
                        }
                    }
                }
            }
            return;
        }
        for (i, r) in got.enumerate() {
            ensure!(i <= total, "endless-walk", "{what}: more than {total} results");
            match r {
                Ok((k, v)) => {
                    sound(self.buf, v, &what);
                    let pos = left.iter().position(|(lk, lv)| k.is_none_or(|k| k == *lk) && same(raw(v), &lv.0, &lv.1));
                    match pos {
                        Some(p) => {
                            left.remove(p);
                        }
                        None => violate("wrong-entry", format!("{what}: {:?} = {} is not there or came twice", k.map(lossy), hex(raw(v)))),
                    }
                }
                Err(e) => {
                    let enough = depth.is_none_or(|n| n >= longest + 2);
                    ensure!(!enough, "lookup-failed", "{what}: {e}");
                    fault("walk of a fixed depth cut short");
                    return;
                }
            }
        }
        ensure!(left.is_empty(), "lost-entry", "{what}: {} of {total} left out, {:?} among them", left.len(), lossy(left[0].0));
    }
    fn walks(&self, prefix: &[u8]) {
        macro_rules! fixed {
            ($($n:literal),*) => {
                match *pick(&[$($n),*]) {
                    $($n => {
                        self.walk(concat!("iter_in_fixed::<", $n, ">"), prefix, Some($n), self.t.iter_in_fixed::<$n, _>(self.buf, prefix).map(|r| r.map(|(k, v)| (Some(k), v))));
                        self.walk(concat!("values_in_fixed::<", $n, ">"), prefix, Some($n), self.t.values_in_fixed::<$n, _>(self.buf, prefix).map(|r| r.map(|v| (None, v))));
                        if prefix.is_empty() {
                            self.walk(concat!("iter_fixed::<", $n, ">"), prefix, Some($n), self.t.iter_fixed::<$n>(self.buf).map(|r| r.map(|(k, v)| (Some(k), v))));
                            self.walk(concat!("values_fixed::<", $n, ">"), prefix, Some($n), self.t.values_fixed::<$n>(self.buf).map(|r| r.map(|v| (None, v))));
                        }
                    })*
                    _ => unreachable!(),
                }
            };
        }
        fixed!(0, 1, 2, 3, 4, 5, 8, 16, 64);
        self.walk("iter_in", prefix, None, self.t.iter_in(self.buf, prefix).map(|r| r.map(|(k, v)| (Some(k), v))));
        self.walk("values_in", prefix, None, self.t.values_in(self.buf, prefix).map(|r| r.map(|v| (None, v))));
        if prefix.is_empty() {
            self.walk("iter", prefix, None, self.t.iter(self.buf).map(|r| r.map(|(k, v)| (Some(k), v))));
            self.walk("values", prefix, None, self.t.values(self.buf).map(|r| r.map(|v| (None, v))));
        }
        step();
    }
    fn all(&self) {
        let keys: Vec<&Vec<u8>> = self.model.keys().collect();
        for k in &keys {
            self.get(k);
        }
        self.walks(&[]);
        let owned: Vec<Vec<u8>> = keys.iter().map(|k| k.to_vec()).collect();
        for _ in 0..4 + below(12) {
            let k = key(&owned);
            self.get(&k);
            self.walks(&k);
        }
    }
}
fn lossy(k: &[u8]) -> String {
    String::from_utf8_lossy(k).into_owned()
}

/// The printed form has the entries, in whatever order.
fn printed(model: &Model, shown: &dyn Fn(&Value) -> String, got: &str, what: &str) {
    let simple = |k: &[u8]| k.iter().all(|b| b.is_ascii_alphanumeric() || *b == b' ');
    if !model.keys().all(|k| simple(k)) {
        return;
    }
    let mut want: Vec<String> = model.iter().flat_map(|(k, vs)| vs.iter().map(move |v| format!("{:?}: {}", lossy(k), shown(v)))).collect();
    want.sort();
    let inner = got.strip_prefix('{').and_then(|s| s.strip_suffix('}'));
    let mut parts: Vec<&str> = match inner {
        Some("") => vec![],
        Some(s) => s.split(", ").collect(),
        None => vec![],
    };
    parts.sort();
    ensure!(inner.is_some() && parts == want, "wrong-print", "{what}: {got}");
}

type Check = Box<dyn Fn(&Buf, &str)>;
/// Build it; an error is for the caller to judge.
fn make<E: Order, O: Size + D, V: TV, F: Fl>(
    buf: &mut OwnedBuf<E, O>,
    p: &Plan,
    default: impl FnOnce(&mut OwnedBuf<E, O>, Vec<(Ref<[u8], E, O>, V)>) -> Option<Result<trie::TrieRef<V, F>, Error>>,
) -> Result<Check, String>
where
    OwnedBuf<E, O>: ZB<E = E, O = O>,
    F: trie::Flavor<Values<V>: Copy>,
{
    let val = |v: &Value| *unsafe { Val::new(&v.0).get::<V>() };
    let mut model = Model::new();
    for (_, k, v) in &p.entries {
        model.entry(k.clone()).or_default().push(v.clone());
    }
    let mut done = None;
    if p.store {
        let mut list: Vec<(Ref<[u8], E, O>, V)> = vec![];
        for (_, k, v) in &p.entries {
            let r: Ref<[u8], E, O> = buf.store_unsized(&k[..]);
            list.push((r, val(v)));
        }
        done = default(buf, list);
    }
    let t = match done {
        Some(t) => t,
        None => {
            let mut b = trie::Builder::<V, F>::with_flavor();
            let mut later = vec![];
            for (i, (form, k, v)) in p.entries.iter().enumerate() {
                let r = put(buf, *form, k);
                if (p.filler >> (i % 60)) & 3 == 0 {
                    buf.store(&(i as u8));
                }
                later.push((r, v));
                if p.at_once || i + 1 == p.entries.len() {
                    for (r, v) in later.drain(..) {
                        match r {
                            Stored::Str(r) => b.insert(buf, r, val(v)),
                            Stored::Bytes(r) => b.insert(buf, r, val(v)),
                            Stored::Wide(r) => b.insert(buf, r, val(v)),
                        }
                        .map_err(|e| format!("insert: {e}"))?;
                    }
                }
            }
            b.build(buf)
        }
    };
    let t: trie::TrieRef<V, F> = t.map_err(|e| format!("build: {e}"))?;
    let stored: Option<Ref<trie::TrieRef<V, F>, E, O>> = p.by_ref.then(|| buf.store(&t));
    Ok(Box::new(move |buf: &Buf, place: &str| {
        let t = match stored {
            None => unsafe { std::ptr::read(&t) },
            Some(r) => match buf.load(r) {
                Ok(t) => unsafe { std::ptr::read(t) },
                Err(e) => return failed(format!("{place}: stored trie"), e),
            },
        };
        let a = Ask { buf, t, model: &model, place };
        a.all();
    }))
}

fn one<E: Order, O: Size + D, V: TV, F: Fl>(default: fn(&mut OwnedBuf<E, O>, Vec<(Ref<[u8], E, O>, V)>) -> Option<Result<trie::TrieRef<V, F>, Error>>)
where
    OwnedBuf<E, O>: ZB<E = E, O = O>,
{
    let n = 1 + below(2);
    let plans: Vec<Plan> = (0..n).map(|_| plan::<V>()).collect();
    ev!(
        "OwnedBuf<{}, {}>, {} flavour, values {}, tries of {:?}",
        E::NAME,
        std::any::type_name::<O>(),
        F::NAME,
        std::any::type_name::<V>(),
        plans.iter().map(|p| p.entries.len()).collect::<Vec<_>>()
    );
    let build = |checks: bool| {
        let b = if choose(2) == 0 { OwnedBuf::new() } else { OwnedBuf::with_capacity_and_alignment::<u8>(size(4000)) };
        let mut buf = b.with_byte_order::<E>().with_size::<O>();
        let mut built: Vec<Check> = vec![];
        for p in &plans {
            let before = buf.z_bytes().to_vec();
            let r = try_op(|| make::<E, O, V, F>(&mut buf, p, default));
            let now = buf.z_bytes();
            ensure!(now.len() >= before.len() && now[..before.len()] == before[..], "disturbed", "building a trie changed what was stored before");
            let small = off_max::<O>() < 1 << 20;
            let (s, v, c, o) = F::LIMITS;
            let longest = p.entries.iter().map(|e| e.1.len()).max().unwrap_or(0);
            let over = longest > s || p.entries.len() > v.min(c) || buf.z_bytes().len() > o;
            match r {
                Ok(Ok(check)) => {
                    ev!("trie of {} entries ends at {}", p.entries.len(), now.len());
                    state(mix(now.len() as u64, p.entries.len() as u64));
                    built.push(check);
                }
                Ok(Err(e)) => {
                    ensure!(small || over, "refused", "a trie of {} entries: {e}", p.entries.len());
                    fault("trie refused by what it has to fit in");
                    break;
                }
                Err(e) => {
                    ensure!(small, "refused", "a trie of {} entries: {e}", p.entries.len());
                    fault("trie refused by what it has to fit in");
                    break;
                }
            }
            if checks {
                buf.align_in_place();
                (built.last().unwrap())(&buf, "while building");
            }
            check_heap("building a trie");
        }
        let align = buf.z_requested();
        (buf.z_bytes().to_vec(), align, built)
    };
    let (bytes, align, built) = build(true);
    let (again, ..) = build(false);
    ensure!(bytes == again, "not-reproducible", "the same trie built twice differs");
    if !built.is_empty() && plans[0].entries.len() > 1 {
        nontrivial();
    }
    for _ in 0..1 + below(2) {
        let mut g = Guarded::new(bytes.len() + 2 * align + 64);
        let total = g.len();
        g.slice(0, total).fill(choose(256) as u8);
        let at = match choose(3) {
            0 => (total - bytes.len()) / align * align,
            1 => 0,
            _ => below((total - bytes.len()) / align + 1) * align,
        };
        let dst = g.slice(at, bytes.len());
        dst.copy_from_slice(&bytes);
        let buf = Buf::new(dst);
        for b in &built {
            b(buf, "reloaded");
        }
        fault("archive reloaded at another address");
    }
    check_heap("asking a trie");
}

fn flavours<E: Order, O: Size + D, V: TV>()
where
    OwnedBuf<E, O>: ZB<E = E, O = O>,
{
    match choose(5) {
        0 => one::<E, O, V, PackA>(|_, _| None),
        1 => one::<E, O, V, PackB>(|_, _| None),
        2 => one::<E, O, V, PackC>(|_, _| None),
        _ => one::<E, O, V, trie::DefaultFlavor<E, O>>(|b, l| Some(trie::store(b, l))),
    }
}
fn values<E: Order, O: Size + D>()
where
    OwnedBuf<E, O>: ZB<E = E, O = O>,
{
    let f: &[fn()] = &[
        flavours::<E, O, u32>,
        flavours::<E, O, u32>,
        flavours::<E, O, E8>,
        flavours::<E, O, NonZeroU16>,
        flavours::<E, O, ()>,
        flavours::<E, O, Al16>,
    ];
    pick(f)();
    check_heap("dropping the buffers");
}

/// The printed form, for values that have one.
fn print<V: TV + std::fmt::Debug>() {
    let p = plan::<V>();
    let mut buf = OwnedBuf::new();
    let mut model = Model::new();
    let mut list = vec![];
    for (_, k, v) in &p.entries {
        let r: Ref<[u8]> = buf.store_unsized(&k[..]);
        list.push((r, *unsafe { Val::new(&v.0).get::<V>() }));
        model.entry(k.clone()).or_default().push(v.clone());
    }
    let t = match trie::store(&mut buf, list) {
        Ok(t) => t,
        Err(e) => violate("refused", format!("{e}")),
    };
    let shown = |v: &Value| unsafe { Val::new(&v.0).get::<V>() }.show().unwrap();
    printed(&model, &shown, &format!("{:?}", t.debug(&buf)), "debug");
    // Deep enough for every key.
    if model.keys().all(|k| k.len() < 62) {
        printed(&model, &shown, &format!("{:?}", t.debug_fixed::<64>(&buf)), "debug_fixed");
    }
}

fn damaged_of<E: Order, O: Size + D, V: TV, F: Fl>()
where
    OwnedBuf<E, O>: ZB<E = E, O = O>,
{
    set_damaged(false);
    let p = plan::<V>();
    let mut buf = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
    let Ok(Ok(check)) = try_op(|| make::<E, O, V, F>(&mut buf, &p, |_, _| None)) else { return };
    let bytes = buf.z_bytes().to_vec();
    let align = buf.z_requested();
    drop(buf);
    if p.entries.len() > 1 {
        nontrivial();
    }
    for _ in 0..1 + below(4) {
        set_damaged(true);
        crate::damage::spoil(&bytes, align, &mut |buf| check(buf, "damaged"));
        set_damaged(false);
    }
}
/// C13: ask a trie that was damaged.
pub fn damaged() {
    let f: &[fn()] = &[
        damaged_of::<Little, u32, u32, trie::DefaultFlavor<Little, u32>>,
        damaged_of::<Big, usize, E8, trie::DefaultFlavor<Big, usize>>,
        damaged_of::<Big, u32, NonZeroU16, PackA>,
        damaged_of::<Little, usize, (), PackB>,
        damaged_of::<Big, u16, u32, PackC>,
        damaged_of::<Little, u32, Al16, PackC>,
    ];
    pick(f)();
}

pub fn c15() {
    let f: &[fn()] = &[
        values::<Little, u32>,
        values::<Big, u32>,
        values::<Little, usize>,
        values::<Big, usize>,
        values::<Big, u16>,
        values::<Little, u8>,
        print::<u32>,
        print::<()>,
    ];
    let _ = guard("building and asking a trie", pick(f));
}
