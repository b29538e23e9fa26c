//! C14: maps and sets stored in archives answer like the collections they were built from.
use crate::build::*;
use crate::types::*;
use musli_zerocopy::Visit;
use musli_zerocopy::endian::{Big, Little};
use musli_zerocopy::{phf, swiss, Buf, OwnedBuf, Ref, SliceMut, ZeroCopy};
use simcore::sys::Guarded;
use simcore::*;
use std::borrow::Borrow;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::num::*;

/// A family of keys: what is stored, what is asked for, and the model.
pub trait Keys<B: ZB>: 'static {
    type K: ZeroCopy + Copy + Visit<Target: Hash + Eq + Borrow<<Self::Q as Visit>::Target>> + 'static;
    type Q: ?Sized + Visit<Target: Eq + Hash>;
    type M: Clone + Ord + std::fmt::Debug + 'static;
    const NAME: &'static str;
    /// Keys of different groups have different hashes (as far as 96 bits go).
    fn group(m: &Self::M) -> u64 {
        hash_bytes(format!("{m:?}").as_bytes())
    }
    /// The number of distinct keys there are.
    const MANY: usize = 100_000;
    fn gen() -> Self::M;
    fn put(buf: &mut B, m: &Self::M) -> Self::K;
    fn ask<R>(m: &Self::M, f: impl FnOnce(&Self::Q) -> R) -> R;
    fn is(buf: &Buf, k: &Self::K, m: &Self::M) -> bool;
}

macro_rules! plain_keys {
    (@group true $m:ty) => {};
    (@group $by:literal $m:ty) => {
        fn group(m: &$m) -> u64 {
            *m as u64 % $by
        }
    };
    ($fam:ident, $t:ty, $m:ty, $name:literal, $group:tt, $many:expr, $gen:expr, |$v:ident| $mk:expr) => {
        pub struct $fam;
        impl<B: ZB> Keys<B> for $fam {
            type K = $t;
            type Q = $t;
            type M = $m;
            const NAME: &'static str = $name;
            plain_keys!(@group $group $m);
            const MANY: usize = $many;
            fn gen() -> $m {
                $gen
            }
            fn put(_: &mut B, $v: &$m) -> $t {
                $mk
            }
            fn ask<R>($v: &$m, f: impl FnOnce(&$t) -> R) -> R {
                f(&$mk)
            }
            fn is(_: &Buf, k: &$t, $v: &$m) -> bool {
                *k == $mk
            }
        }
    };
}
fn number(bits: u32) -> u64 {
    let x = match choose(4) {
        0 => choose(16),
        1 => choose(300),
        2 => 1u64 << choose(bits as u64),
        _ => choose(u64::MAX),
    };
    if bits == 64 {
        x
    } else {
        x & ((1 << bits) - 1)
    }
}
plain_keys!(KU8, u8, u8, "u8", true, 256, number(8) as u8, |v| *v);
plain_keys!(KU16, u16, u16, "u16", true, 65536, number(16) as u16, |v| *v);
plain_keys!(KU32, u32, u32, "u32", true, 100_000, number(32) as u32, |v| *v);
plain_keys!(KU64, u64, u64, "u64", true, 100_000, number(64), |v| *v);
plain_keys!(KU128, u128, u128, "u128", true, 100_000, (number(64) as u128).wrapping_mul(*pick(&[1, 1 << 64, 3 << 70])), |v| *v);
plain_keys!(KI32, i32, i32, "i32", true, 100_000, number(32) as i32, |v| *v);
plain_keys!(KChar, char, char, "char", true, 1_000, char::from_u32(number(10) as u32 + 0x3b1).unwrap(), |v| *v);
plain_keys!(KBool, bool, bool, "bool", true, 2, choose(2) == 1, |v| *v);
plain_keys!(KUnit, (), (), "()", true, 1, (), |_v| ());
plain_keys!(KNz, NonZeroU32, u32, "NonZeroU32", true, 100_000, 1 + (number(31) as u32), |v| NonZeroU32::new(*v).unwrap());
plain_keys!(KPoint, Point, (u8, u32), "Point", true, 100_000, (number(8) as u8, number(32) as u32), |v| Point { a: v.0, b: v.1 });
plain_keys!(KKind, Kinds, u8, "Kinds", true, 8, choose(8) as u8, |v| match *v {
    0 => Kinds::A,
    n => Kinds::B { n: NonZeroU8::new(n).unwrap() },
});
plain_keys!(KSame, Same, u16, "Same", 1, 65536, number(16) as u16, |v| Same { v: *v });
plain_keys!(KFew, Few, u32, "Few", 4, 100_000, number(32) as u32, |v| Few { v: *v });

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, ZeroCopy, Visit)]
#[repr(C)]
pub struct Point {
    a: u8,
    b: u32,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, ZeroCopy, Visit)]
#[repr(u8)]
pub enum Kinds {
    A = 3,
    B { n: NonZeroU8 },
}
/// Every key collides with every other.
#[derive(Debug, Clone, Copy, PartialEq, Eq, ZeroCopy, Visit)]
#[repr(C)]
pub struct Same {
    v: u16,
}
impl Hash for Same {
    fn hash<H: Hasher>(&self, h: &mut H) {
        7u8.hash(h)
    }
}
/// Keys fall into four groups.
#[derive(Debug, Clone, Copy, PartialEq, Eq, ZeroCopy, Visit)]
#[repr(C)]
pub struct Few {
    v: u32,
}
impl Hash for Few {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (self.v % 4).hash(h)
    }
}

/// Text behind a reference, looked up by the text.
pub struct KStr;
impl<B: ZB> Keys<B> for KStr {
    type K = Ref<str, B::E, B::O>;
    type Q = str;
    type M = String;
    const NAME: &'static str = "Ref<str>";
    const MANY: usize = 200;
    fn gen() -> String {
        match choose(4) {
            0 => text(),
            1 => (0..below(3)).map(|_| *pick(&['a', 'b'])).collect(),
            2 => "a".repeat(below(40)),
            _ => format!("key{}", choose(1000)),
        }
    }
    fn put(buf: &mut B, m: &String) -> Self::K {
        buf.store_unsized(m.as_str())
    }
    fn ask<R>(m: &String, f: impl FnOnce(&str) -> R) -> R {
        f(m)
    }
    fn is(buf: &Buf, k: &Self::K, m: &String) -> bool {
        buf.load(*k).is_ok_and(|s| s == m)
    }
}
/// A slice behind a reference, looked up by the slice.
pub struct KSlice;
impl<B: ZB> Keys<B> for KSlice {
    type K = Ref<[u16], B::E, B::O>;
    type Q = [u16];
    type M = Vec<u16>;
    const NAME: &'static str = "Ref<[u16]>";
    const MANY: usize = 200;
    fn gen() -> Vec<u16> {
        (0..below(5)).map(|_| number(16) as u16).collect()
    }
    fn put(buf: &mut B, m: &Vec<u16>) -> Self::K {
        buf.store_unsized(&m[..])
    }
    fn ask<R>(m: &Vec<u16>, f: impl FnOnce(&[u16]) -> R) -> R {
        f(m)
    }
    fn is(buf: &Buf, k: &Self::K, m: &Vec<u16>) -> bool {
        buf.load(*k).is_ok_and(|s| s == &m[..])
    }
}

type Values = (Vec<u8>, Vec<bool>);
fn value<V: D>() -> Values {
    let d = V::desc();
    let (mut b, mut m) = (vec![0; size_of::<V>()], vec![false; size_of::<V>()]);
    d.fill(&mut b, &mut m);
    (b, m)
}

thread_local! {
    /// The archive is damaged: answers may be anything but unsound.
    static DAMAGED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn damaged_now() -> bool {
    DAMAGED.with(|d| d.get())
}
pub fn set_damaged(on: bool) {
    DAMAGED.with(|d| d.set(on))
}
/// Errors are fine for a damaged archive.
pub fn failed(what: String, e: musli_zerocopy::Error) {
    if damaged_now() {
        let s = format!("{e} {e:?}");
        ensure!(!s.is_empty(), "no-error", "an error that says nothing");
        fault("lookup refused");
    } else {
        violate("lookup-failed", format!("{what}: {e}"))
    }
}
/// A value handed out lies in the archive and is one.
pub fn sound<V: D>(buf: &Buf, v: &V, what: &str) {
    let all = buf.get(..).unwrap();
    let (at, base) = (v as *const V as usize, all.as_ptr() as usize);
    ensure!(
        at >= base && at + size_of::<V>() <= base + all.len() && at % align_of::<V>() == 0,
        "wrong-address",
        "{what}: a value outside of the archive or misaligned"
    );
    let mut m = vec![false; size_of::<V>()];
    ensure!(V::desc().valid(raw(v), &mut m), "believed", "{what}: {} is no value of its type", hex(raw(v)));
}

/// What to ask, what to expect.
pub struct Built {
    pub what: String,
    /// The entries, the keys that are absent.
    pub check: Box<dyn Fn(&Buf, &str)>,
    pub entries: usize,
}

fn found<V: D>(buf: &Buf, got: Result<Option<&V>, musli_zerocopy::Error>, want: &[Values], what: &str) {
    match got {
        Ok(Some(v)) => {
            sound(buf, v, what);
            if damaged_now() {
                probe("value found in a damaged archive");
                return;
            }
            ensure!(
                want.iter().any(|(b, m)| same(raw(v), b, m)),
                "wrong-value",
                "{what}: found {}, stored {}",
                hex(raw(v)),
                want.iter().map(|v| hex(&v.0)).collect::<Vec<_>>().join(" or ")
            );
            ensure!(!want.is_empty(), "found-absent", "{what}: found although absent");
        }
        Ok(None) => ensure!(want.is_empty() || damaged_now(), "lost-entry", "{what}: not found"),
        Err(e) => failed(what.into(), e),
    }
}
fn member(got: Result<bool, musli_zerocopy::Error>, want: bool, what: &str) {
    match got {
        Ok(g) => {
            ensure!(g || !want || damaged_now(), "lost-entry", "{what}: said to be absent");
            ensure!(!g || want || damaged_now(), "found-absent", "{what}: said to be present");
        }
        Err(e) => failed(what.into(), e),
    }
}

/// Ask for all the keys there are and for some there are not.
fn questions<B: ZB, F: Keys<B>>(model: &BTreeMap<F::M, Vec<Values>>) -> Vec<F::M> {
    let mut q: Vec<F::M> = model.keys().cloned().collect();
    for i in (1..q.len()).rev() {
        q.swap(i, below(i + 1));
    }
    for _ in 0..2 + below(6) {
        let at = below(q.len() + 1);
        q.insert(at, F::gen());
    }
    q
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum What {
    PhfMap,
    PhfSet,
    SwissMap,
    SwissSet,
}

fn how_many() -> usize {
    match choose(12) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => *pick(&[3, 4, 7, 8, 13, 14, 15, 16, 27, 28, 29, 56, 57]),
        4 if st().thorough => below(1500),
        4..=5 => below(300),
        _ => below(40),
    }
}

/// A plan for one index, made before any buffer exists so that it can be
/// executed on several.
pub trait Plan<B: ZB> {
    fn build(&self, buf: &mut B) -> Result<Built, String>;
    fn name(&self) -> String;
    /// There are entries that no perfect hash can tell apart.
    fn twins(&self) -> bool;
}
struct Ix<B: ZB, F: Keys<B>, V> {
    what: What,
    entries: Vec<(F::M, Values)>,
    by_ref: bool,
    _v: std::marker::PhantomData<V>,
}
impl<B: ZB, F: Keys<B>, V: D> Plan<B> for Ix<B, F, V> {
    fn name(&self) -> String {
        format!("{:?} of {} {} -> {}", self.what, self.entries.len(), F::NAME, std::any::type_name::<V>())
    }
    fn twins(&self) -> bool {
        if !matches!(self.what, What::PhfMap | What::PhfSet) {
            return false;
        }
        let distinct: std::collections::BTreeSet<u64> = self.entries.iter().map(|e| F::group(&e.0)).collect();
        distinct.len() < self.entries.len()
    }
    fn build(&self, buf: &mut B) -> Result<Built, String> {
        let keys: Vec<F::K> = self.entries.iter().map(|e| F::put(buf, &e.0)).collect();
        let mut model: BTreeMap<F::M, Vec<Values>> = BTreeMap::new();
        for (k, v) in &self.entries {
            model.entry(k.clone()).or_default().push(v.clone());
        }
        let n = self.entries.len();
        let vals: Vec<V> = self.entries.iter().map(|e| *unsafe { Val::new(&e.1 .0).get::<V>() }).collect();
        let pairs: Vec<(F::K, V)> = keys.iter().copied().zip(vals).collect();
        let by_ref = self.by_ref;
        let name = self.name();
        // Keep the description of the index in the archive, or by the side.
        macro_rules! kept {
            ($r:expr, $ty:ty) => {{
                let r: $ty = $r;
                let stored: Option<Ref<$ty, B::E, B::O>> = by_ref.then(|| buf.store(&r));
                move |buf: &Buf| -> Option<$ty> {
                    match stored {
                        None => Some(unsafe { std::ptr::read(&r) }),
                        Some(s) => match buf.load(s) {
                            Ok(r) => Some(unsafe { std::ptr::read(r) }),
                            Err(e) => {
                                failed("stored index".into(), e);
                                None
                            }
                        },
                    }
                }
            }};
        }
        let check: Box<dyn Fn(&Buf, &str)> = match self.what {
            What::PhfMap => {
                let r = phf::store_map(buf, pairs).map_err(|e| e.to_string())?;
                let get = kept!(r, phf::MapRef<F::K, V, B::E, B::O>);
                Box::new(move |buf, place| {
                    let Some(r) = get(buf) else { return };
                    let bound = match buf.bind(r) {
                        Ok(b) => Some(b),
                        Err(e) => {
                            failed(format!("{place}: binding {name}"), e);
                            None
                        }
                    };
                    for m in questions::<B, F>(&model) {
                        let want: &[Values] = model.get(&m).map(|v| &v[..]).unwrap_or(&[]);
                        let what = format!("{place}: {m:?} in {name}");
                        F::ask(&m, |q| {
                            if let Some(bound) = &bound {
                                found(buf, bound.get(q), want, &what);
                                member(bound.contains_key(q), !want.is_empty(), &what);
                            }
                            found(buf, r.get(buf, q), want, &what);
                            member(r.contains_key(buf, q), !want.is_empty(), &what);
                            for e in [bound.as_ref().map(|b| b.get_entry(q)), Some(r.get_entry(buf, q))].into_iter().flatten() {
                                match e {
                                    Ok(Some((k, v))) => {
                                        ensure!(F::is(buf, k, &m) || damaged_now(), "wrong-value", "{what}: the entry has another key");
                                        found(buf, Ok(Some(v)), want, &what);
                                    }
                                    Ok(None) => found::<V>(buf, Ok(None), want, &what),
                                    Err(e) => failed(what.clone(), e),
                                }
                            }
                        });
                        step();
                    }
                })
            }
            What::PhfSet => {
                let r = phf::store_set(buf, keys).map_err(|e| e.to_string())?;
                let get = kept!(r, phf::SetRef<F::K, B::E, B::O>);
                Box::new(move |buf, place| {
                    let Some(r) = get(buf) else { return };
                    let bound = match buf.bind(get(buf).unwrap()) {
                        Ok(b) => Some(b),
                        Err(e) => {
                            failed(format!("{place}: binding {name}"), e);
                            None
                        }
                    };
                    for m in questions::<B, F>(&model) {
                        let what = format!("{place}: {m:?} in {name}");
                        F::ask(&m, |q| {
                            if let Some(bound) = &bound {
                                member(bound.contains(q), model.contains_key(&m), &what);
                            }
                            member(r.contains(buf, q), model.contains_key(&m), &what);
                        });
                        step();
                    }
                })
            }
            What::SwissMap => {
                let Some(r) = buf.z_swiss_map(pairs) else { return Err("not for this buffer".into()) };
                let r = r.map_err(|e| e.to_string())?;
                let get = kept!(r, swiss::MapRef<F::K, V, B::E, B::O>);
                Box::new(move |buf, place| {
                    let Some(r) = get(buf) else { return };
                    let bound = match buf.bind(r) {
                        Ok(b) => Some(b),
                        Err(e) => {
                            failed(format!("{place}: binding {name}"), e);
                            None
                        }
                    };
                    let (rl, re) = (r.len(), r.is_empty());
                    if let Some(bound) = &bound {
                        ensure!(bound.len() == rl && bound.is_empty() == re, "wrong-length", "{place}: {name} has {} entries bound and {rl} unbound", bound.len());
                    }
                    ensure!(damaged_now() || (rl == n && re == (n == 0)), "wrong-length", "{place}: {name} says it has {rl} entries");
                    for m in questions::<B, F>(&model) {
                        let want: &[Values] = model.get(&m).map(|v| &v[..]).unwrap_or(&[]);
                        let what = format!("{place}: {m:?} in {name}");
                        F::ask(&m, |q| {
                            if let Some(bound) = &bound {
                                found(buf, bound.get(q), want, &what);
                                member(bound.contains_key(q), !want.is_empty(), &what);
                            }
                            found(buf, r.get(buf, q), want, &what);
                            member(r.contains_key(buf, q), !want.is_empty(), &what);
                        });
                        step();
                    }
                })
            }
            What::SwissSet => {
                let r = swiss::store_set(buf, keys).map_err(|e| e.to_string())?;
                let get = kept!(r, swiss::SetRef<F::K, B::E, B::O>);
                Box::new(move |buf, place| {
                    let Some(r) = get(buf) else { return };
                    let bound = match buf.bind(get(buf).unwrap()) {
                        Ok(b) => Some(b),
                        Err(e) => {
                            failed(format!("{place}: binding {name}"), e);
                            None
                        }
                    };
                    for m in questions::<B, F>(&model) {
                        let what = format!("{place}: {m:?} in {name}");
                        F::ask(&m, |q| {
                            if let Some(bound) = &bound {
                                member(bound.contains(q), model.contains_key(&m), &what);
                            }
                            member(r.contains(buf, q), model.contains_key(&m), &what);
                        });
                        step();
                    }
                })
            }
        };
        Ok(Built { what: self.name(), check, entries: n })
    }
}

fn index<B: ZB, F: Keys<B>, V: D>(owned: bool) -> Box<dyn Plan<B>> {
    let mut what = *pick(&[What::PhfMap, What::PhfSet, What::SwissMap, What::SwissSet]);
    if !owned && what == What::SwissMap {
        what = What::SwissSet;
    }
    let mut n = how_many();
    // The perfect hash takes no duplicates and has to say so.
    let twice = if matches!(what, What::SwissMap | What::SwissSet) { chance(1, 4) } else { chance(1, 15) };
    n = n.min(if twice { F::MANY * 2 } else { F::MANY });
    let mut entries: Vec<(F::M, Values)> = vec![];
    let mut seen = std::collections::BTreeSet::new();
    let mut tries = 0;
    while entries.len() < n && tries < 3 * n + 10 {
        tries += 1;
        let m = F::gen();
        if seen.insert(m.clone()) || twice {
            entries.push((m, value::<V>()));
        }
    }
    note(mix(what as u64, entries.len() as u64));
    Box::new(Ix::<B, F, V> { what, entries, by_ref: choose(3) == 0, _v: std::marker::PhantomData })
}
pub fn any_index<B: ZB>(owned: bool) -> Box<dyn Plan<B>> {
    macro_rules! of {
        ($($f:ident),*) => {{
            let f: &[fn(bool) -> Box<dyn Plan<B>>] = &[$(
                index::<B, $f, u8>, index::<B, $f, u32>, index::<B, $f, E8>, index::<B, $f, NonZeroU16>, index::<B, $f, ()>, index::<B, $f, Al16>
            ),*];
            pick(f)(owned)
        }};
    }
    of!(KU8, KU16, KU32, KU64, KU128, KI32, KChar, KBool, KUnit, KNz, KPoint, KKind, KSame, KFew, KStr, KStr, KSlice)
}

/// Other things stored between the indexes.
fn filler<B: ZB>(buf: &mut B, seed: u64) {
    match seed % 5 {
        0 => {}
        1 => {
            buf.store(&(seed as u8));
        }
        2 => {
            buf.store_unsized(&"some text"[..(seed >> 8) as usize % 9]);
        }
        3 => {
            buf.store(&(seed as u32));
        }
        _ => buf.z_extend(&seed.to_le_bytes()[..(seed >> 8) as usize % 8]),
    }
}

struct Archive {
    bytes: Vec<u8>,
    align: usize,
    built: Vec<Built>,
}
/// Build the plans one after another; a fixed buffer may be too small.
fn construct<B: ZB>(plans: &[(u64, Box<dyn Plan<B>>)], buf: &mut B, checks: bool) -> Archive {
    let mut built: Vec<Built> = vec![];
    for (f, p) in plans {
        let before = buf.z_bytes().to_vec();
        let r = try_op(|| {
            filler(buf, *f);
            p.build(buf)
        });
        let now = buf.z_bytes();
        ensure!(now.len() >= before.len() && now[..before.len()] == before[..], "disturbed", "building {} changed what was stored before", p.name());
        match r {
            Ok(Ok(_)) if p.twins() => violate("duplicates-taken", format!("{} was built from entries with equal hashes", p.name())),
            Ok(Err(_)) if p.twins() => {
                ev!("{}: duplicates refused", p.name());
                fault("duplicates given to a perfect hash");
                break;
            }
            Ok(Ok(b)) => {
                ev!("{} -> {} bytes", p.name(), now.len());
                built.push(b);
                state(mix(now.len() as u64, hash_bytes(p.name().as_bytes())));
            }
            Ok(Err(e)) => violate("refused", format!("{}: {e}", p.name())),
            Err(e) => {
                ev!("{} refused: {e}", p.name());
                let small = off_max::<B::O>() < 1 << 20;
                let misaligned = buf.z_bytes().as_ptr() as usize % buf.z_requested() != 0;
                // Temporary tables take room as well.
                ensure!(!B::OWNED || small, "refused", "{}: {e}", p.name());
                if !B::OWNED && !small && !misaligned {
                    ensure!(buf.z_capacity() - before.len() < 20_000, "refused", "{} with {} bytes of room: {e}", p.name(), buf.z_capacity() - before.len());
                }
                fault("index refused by a full buffer");
                break;
            }
        }
        if checks && buf.z_bytes().as_ptr() as usize % buf.z_requested() == 0 {
            if let Some(b) = built.last() {
                (b.check)(buf.as_buf(), "while building");
            }
        }
        check_heap("building an index");
    }
    Archive { bytes: buf.z_bytes().to_vec(), align: buf.z_requested(), built }
}

fn reload(a: &Archive) {
    for _ in 0..1 + below(2) {
        let mut g = Guarded::new(a.bytes.len() + 2 * a.align + 64);
        let total = g.len();
        g.slice(0, total).fill(choose(256) as u8);
        let at = match choose(3) {
            0 => (total - a.bytes.len()) / a.align * a.align,
            1 => 0,
            _ => below((total - a.bytes.len()) / a.align + 1) * a.align,
        };
        let dst = g.slice(at, a.bytes.len());
        dst.copy_from_slice(&a.bytes);
        let buf = Buf::new(dst);
        let mut order: Vec<usize> = (0..a.built.len()).collect();
        for i in (1..order.len()).rev() {
            order.swap(i, below(i + 1));
        }
        for i in order {
            (a.built[i].check)(buf, "reloaded");
        }
        fault("archive reloaded at another address");
    }
    check_heap("asking an index");
}

fn run<B: ZB>(owned: bool, make: &mut dyn FnMut() -> B) {
    let n = 1 + below(3);
    let plans: Vec<_> = (0..n).map(|_| (choose(u64::MAX), any_index::<B>(owned))).collect();
    let mut buf = make();
    let a = construct(&plans, &mut buf, true);
    if a.built.iter().any(|b| b.entries > 0) {
        nontrivial();
    }
    let mut again = make();
    let b = construct(&plans, &mut again, false);
    ensure!(a.bytes == b.bytes, "not-reproducible", "the same indexes built twice differ");
    drop((buf, again));
    reload(&a);
}

/// C13: ask an archive that was damaged.
pub fn damaged<B: ZB + 'static>(make: fn() -> B) {
    let n = 1 + below(2);
    let plans: Vec<_> = (0..n).map(|_| (choose(u64::MAX), any_index::<B>(true))).collect();
    set_damaged(false);
    let mut buf = make();
    let a = construct(&plans, &mut buf, false);
    drop(buf);
    if a.built.iter().any(|b| b.entries > 0) {
        nontrivial();
    }
    for _ in 0..1 + below(4) {
        set_damaged(true);
        crate::damage::spoil(&a.bytes, a.align, &mut |buf| {
            for b in &a.built {
                (b.check)(buf, "damaged");
            }
        });
        set_damaged(false);
    }
}

fn owned<E: Order, O: musli_zerocopy::Size + D>()
where
    OwnedBuf<E, O>: ZB<E = E, O = O>,
{
    ev!("OwnedBuf<{}, {}>", E::NAME, std::any::type_name::<O>());
    run::<OwnedBuf<E, O>>(true, &mut || {
        let b = if choose(2) == 0 { OwnedBuf::new() } else { OwnedBuf::with_capacity_and_alignment::<u8>(size(4000)) };
        b.with_byte_order::<E>().with_size::<O>()
    });
    check_heap("dropping the buffers");
}
fn fixed<E: Order, O: musli_zerocopy::Size + D>()
where
    SliceMut<'static, E, O>: ZB<E = E, O = O>,
{
    let cap = *pick(&[50, 200, 1000, 5000, 100_000]);
    let shift = if choose(3) == 0 { below(64) } else { 0 };
    ev!("SliceMut<{}, {}> of {cap} bytes, {shift} off", E::NAME, std::any::type_name::<O>());
    let mut keep = vec![];
    run::<SliceMut<'static, E, O>>(false, &mut || {
        let mut g = Guarded::new(cap + 64);
        let total = g.len();
        g.slice(0, total).fill(0xA5 + keep.len() as u8);
        let at = (total - cap) / 64 * 64 - if shift > 0 && total - cap >= 64 { 64 - shift } else { 0 };
        let m: &'static mut [u8] = unsafe { core::mem::transmute(g.slice(at, cap)) };
        keep.push(g);
        SliceMut::new(m).with_byte_order::<E>().with_size::<O>()
    });
}

pub fn c14() {
    let f: &[fn()] = &[
        owned::<Little, u32>,
        owned::<Big, u32>,
        owned::<Little, usize>,
        owned::<Big, usize>,
        owned::<Big, u16>,
        owned::<Little, u8>,
        fixed::<Little, u32>,
        fixed::<Big, u16>,
    ];
    let _ = guard("building and asking an index", pick(f));
}
