//! C13: damaged or misplaced archives are refused, never believed.
use crate::build::*;
use crate::types::*;
use crate::{index, trie};
use musli_zerocopy::buf::{Load, Visit};
use musli_zerocopy::endian::{Big, Little};
use musli_zerocopy::slice::Packed;
use musli_zerocopy::{Buf, Endian, Error, OwnedBuf, Ref, Size};
use simcore::sys::Guarded;
use simcore::*;
use std::num::*;

fn interesting(len: usize) -> u64 {
    match choose(9) {
        0 => 0,
        1 => choose(4),
        2 => len as u64,
        3 => (len as u64).wrapping_sub(choose(40)),
        4 => (len as u64).saturating_add(choose(40)),
        5 => u64::MAX - choose(20),
        6 => (1u64 << choose(64)) - choose(2),
        7 => choose(256) * 0x0101_0101_0101_0101,
        _ => choose((len as u64).saturating_add(1)),
    }
}

/// What storage and transport do to a file.
pub fn damage(b: &mut Vec<u8>) {
    for _ in 0..1 + choose(if st().thorough { 6 } else { 3 }) {
        if b.is_empty() {
            return;
        }
        let n = b.len();
        match choose(11) {
            0 => {
                b.truncate(below(n));
                fault("archive truncated");
            }
            1 => {
                b.truncate(n - below(n.min(9)));
                fault("archive truncated by a few bytes");
            }
            2 => {
                for _ in 0..1 + choose(6) {
                    let i = below(n);
                    b[i] ^= 1 << choose(8);
                }
                fault("bits flipped");
            }
            3 => {
                let at = below(n);
                let to = (at + 1 + size(n)).min(n);
                b[at..to].fill(*pick(&[0, 0, 0xff, 0x80]));
                fault("sector lost");
            }
            4 | 5 => {
                let w = *pick(&[1, 2, 4, 8, 16, 24]);
                let a = *pick(&[1, 2, 4, 8]);
                let (from, to) = (below(n) / a * a, below(n) / a * a);
                let k = (w * (1 + below(3))).min(n - from).min(n - to);
                let part = b[from..from + k].to_vec();
                b[to..to + k].copy_from_slice(&part);
                fault("part written in place of another");
            }
            6 | 7 => {
                let w = *pick(&[1, 1, 2, 4, 4, 8]);
                let at = below(n) / w * w;
                let mut x = interesting(n).to_le_bytes()[..w].to_vec();
                if choose(2) == 0 {
                    x.reverse();
                }
                let k = w.min(n - at);
                b[at..at + k].copy_from_slice(&x[..k]);
                fault("number altered");
            }
            8 => {
                let w = *pick(&[2, 4, 8]);
                let at = below(n) / w * w;
                let k = w.min(n - at);
                b[at..at + k].reverse();
                fault("number reversed");
            }
            9 => {
                let at = below(n);
                let k = *pick(&[1, 2, 4, 8]);
                if choose(2) == 0 {
                    for _ in 0..k {
                        b.insert(at, choose(256) as u8);
                    }
                } else {
                    b.drain(at..(at + k).min(n));
                }
                fault("bytes inserted or dropped");
            }
            _ => {
                let at = below(n);
                b[at..].fill(0);
                fault("torn write");
            }
        }
    }
}

/// The archive in memory, with the bytes it has.
struct Place {
    g: Guarded,
    at: usize,
    b: Vec<u8>,
}
impl Place {
    fn new(b: Vec<u8>) -> Self {
        let mut g = Guarded::new(b.len() + 256);
        let total = g.len();
        g.slice(0, total).fill(choose(256) as u8);
        let top = total - b.len();
        let at = match choose(4) {
            0 => top,
            1 => 0,
            2 => top / 64 * 64,
            _ => top / 64 * 64 - if top >= 64 { 64 - (1 << choose(7)).min(63) } else { 0 },
        };
        g.slice(at, b.len()).copy_from_slice(&b);
        Place { g, at, b }
    }
    fn buf(&mut self) -> &mut Buf {
        let n = self.b.len();
        Buf::new_mut(self.g.slice(self.at, n))
    }
    fn base(&mut self) -> usize {
        self.g.start() as usize + self.at
    }
}

/// Errors can always be shown.
fn shown(e: &Error) {
    let s = format!("{e} {e:?}");
    ensure!(!s.is_empty(), "no-error", "an error that says nothing");
    st().faults.entry("load refused").and_modify(|n| *n += 1).or_insert(1);
}

/// Whether `n` values described by `d` can be had from there.
fn want(d: &Desc, p: &mut Place, off: usize, n: usize, aligned: bool) -> bool {
    let s = d.size();
    let Some(end) = n.checked_mul(s).and_then(|k| k.checked_add(off)) else { return false };
    if end > p.b.len() || (aligned && (p.base() + off) % d.align() != 0) {
        return false;
    }
    s == 0 || (0..n).all(|i| d.valid(&p.b[off + i * s..off + (i + 1) * s], &mut vec![false; s]))
}
fn told<T: ?Sized>(r: &Result<&T, Error>, ok: bool, p: usize, len: usize, what: &dyn Fn() -> String) {
    match r {
        Ok(v) => {
            let at = *v as *const T as *const u8 as usize;
            ensure!(ok, "believed", "{}: loaded {}", what(), if size_of_val(*v) < 100 { hex(raw(*v)) } else { "much".into() });
            ensure!(at == p && size_of_val(*v) == len, "wrong-address", "{}: {} bytes at {at:x} instead of {len} at {p:x}", what(), size_of_val(*v));
        }
        Err(e) => {
            shown(e);
            ensure!(!ok, "lost-value", "{}: refused though intact: {e}", what());
        }
    }
}

/// A value of some type anywhere.
fn one<T: D>(p: &mut Place, off: usize) {
    let d = T::desc();
    let (ok, un) = (want(&d, p, off, 1, true), want(&d, p, off, 1, false));
    let s = size_of::<T>();
    let base = p.base();
    let at = base.wrapping_add(off);
    let n = p.b.len();
    let what = |how: &str| format!("{how} of {} at {off} of {n} bytes at ..{:x}", std::any::type_name::<T>(), base & 0xfff);
    told(&p.buf().load_at::<T>(off), ok, at, s, &|| what("load_at"));
    macro_rules! through {
        ($E:ty, $O:ty) => {
            if off <= off_max::<$O>() {
                let r = Ref::<T, $E, $O>::new(off);
                told(&p.buf().load(r), ok, at, s, &|| what("load"));
                told(&p.buf().load_mut(r).map(|v| &*v), ok, at, s, &|| what("load_mut"));
            }
        };
    }
    match choose(6) {
        0 => through!(Little, u32),
        1 => through!(Big, u32),
        2 => through!(Little, usize),
        3 => through!(Big, usize),
        4 => through!(Big, u16),
        _ => through!(Little, u8),
    }
    told(&p.buf().load_at_mut::<T>(off).map(|v| &*v), ok, at, s, &|| what("load_at_mut"));
    match p.buf().load_at_unaligned::<T>(off) {
        Ok(v) => {
            ensure!(un, "believed", "{}: loaded {}", what("load_at_unaligned"), hex(raw(&v)));
            let mut m = vec![false; s];
            d.valid(&p.b[off..off + s], &mut m);
            ensure!(same(raw(&v), &p.b[off..off + s], &m), "wrong-value", "{}", what("load_at_unaligned"));
        }
        Err(e) => {
            shown(&e);
            ensure!(!un, "lost-value", "{}: refused though intact: {e}", what("load_at_unaligned"));
        }
    }
    let whole = p.b.len() >= s && p.base() % align_of::<T>() == 0;
    ensure!(p.buf().is_compatible_with::<T>() == whole, "wrong-answer", "{}", what("is_compatible_with"));
    ensure!(p.buf().ensure_compatible_with::<T>().is_ok() == whole, "wrong-answer", "{}", what("ensure_compatible_with"));
    let (al, ad) = (p.buf().is_aligned::<T>(), base % align_of::<T>() == 0);
    ensure!(al == ad, "wrong-answer", "{}", what("is_aligned"));
}

/// Many of them.
fn many<T: D>(p: &mut Place, off: usize, n: usize) {
    let d = T::desc();
    let ok = want(&d, p, off, n, true);
    let base = p.base();
    let at = base.wrapping_add(off);
    let s = size_of::<T>();
    let len = p.b.len();
    let what = |how: &str| format!("{how} of {n} {} at {off} of {len} bytes at ..{:x}", std::any::type_name::<T>(), base & 0xfff);
    macro_rules! through {
        ($E:ty, $O:ty) => {
            if off <= off_max::<$O>() && n <= off_max::<$O>() {
                let r = Ref::<[T], $E, $O>::with_metadata(off, n);
                told(&p.buf().load(r), ok, at, n.wrapping_mul(s), &|| what("load"));
                told(&p.buf().load_mut(r).map(|v| &*v), ok, at, n.wrapping_mul(s), &|| what("load_mut"));
                let i = interesting(n) as usize;
                let e = r.get(i);
                ensure!(e.is_none() || i < n, "believed", "{}: element {i}", what("get"));
                if let Some(e) = e {
                    ensure!(s.checked_mul(i).and_then(|k| k.checked_add(off)).is_none_or(|o| o == e.offset()), "wrong-address", "{}: element {i} said to be at {}", what("get"), e.offset());
                    element::<T>(p, off, i, &|p| p.buf().load(e).map(|v| v as *const T as usize));
                }
            }
        };
    }
    macro_rules! packed {
        ($O:ty, $L:ty, $E:ty) => {
            if off <= off_max::<$O>() && n <= off_max::<$L>() {
                let r = Packed::<[T], $O, $L, $E>::from_raw_parts(off as usize, n as usize);
                ensure!(r.offset() == off && r.len() == n, "wrong-value", "{}", what("packed reference"));
                told(&p.buf().load(r), ok, at, n.wrapping_mul(s), &|| what("packed load"));
                let i = interesting(n) as usize;
                let e = r.get(i);
                ensure!(e.is_some() == (i < n), "wrong-answer", "{}: element {i}", what("packed get"));
                if let Some(e) = e {
                    element::<T>(p, off, i, &|p| p.buf().load(e).map(|v| v as *const T as usize));
                }
            }
        };
    }
    match choose(9) {
        0 => through!(Little, u32),
        1 => through!(Big, u32),
        2 => through!(Little, usize),
        3 => through!(Big, usize),
        4 => through!(Big, u16),
        5 => through!(Little, u8),
        6 => packed!(u32, u8, Big),
        7 => packed!(usize, usize, Little),
        _ => packed!(u16, u32, Little),
    }
}
fn element<T: D>(p: &mut Place, off: usize, i: usize, load: &dyn Fn(&mut Place) -> Result<usize, Error>) {
    let d = T::desc();
    let ok = d.size().checked_mul(i).and_then(|k| k.checked_add(off)).is_some_and(|o| want(&d, p, o, 1, true));
    let at = p.base().wrapping_add(off).wrapping_add(i.wrapping_mul(d.size()));
    match load(p) {
        Ok(a) => ensure!(ok && a == at, "believed", "element {i} of {} at {off}", std::any::type_name::<T>()),
        Err(e) => {
            shown(&e);
            ensure!(!ok, "lost-value", "element {i} of {} at {off} refused though intact: {e}", std::any::type_name::<T>());
        }
    }
}

fn text_at(p: &mut Place, off: usize, n: usize) {
    let ok = off.checked_add(n).is_some_and(|e| e <= p.b.len() && std::str::from_utf8(&p.b[off..e]).is_ok());
    let at = p.base().wrapping_add(off);
    let what = |how: &str| format!("{how} of {n} bytes of text at {off}");
    macro_rules! through {
        ($E:ty, $O:ty) => {
            if off <= off_max::<$O>() && n <= off_max::<$O>() {
                let r = Ref::<str, $E, $O>::with_metadata(off, n);
                told(&p.buf().load(r), ok, at, n, &|| what("load"));
                told(&p.buf().load_mut(r).map(|v| &*v), ok, at, n, &|| what("load_mut"));
                let len = r.visit(p.buf(), |s| s.len());
                ensure!(len.is_ok() == ok, "believed", "{}", what("visit"));
            }
        };
    }
    match choose(4) {
        0 => through!(Little, u32),
        1 => through!(Big, usize),
        2 => through!(Big, u16),
        _ => through!(Little, u8),
    }
}

/// References found in the archive, and what they lead to.
fn nested<T: D, E: Order, O: Size + D>(p: &mut Place, off: usize)
where
    Ref<T, E, O>: Load<Target = T>,
{
    let word = |p: &Place, at: usize| -> usize {
        let mut w = p.b[at..at + size_of::<O>()].to_vec();
        if E::BE {
            w.reverse();
        }
        w.resize(8, 0);
        u64::from_le_bytes(w.try_into().unwrap()) as usize
    };
    let w = size_of::<O>();
    match choose(3) {
        0 => {
            one::<Ref<T, E, O>>(p, off);
            let Ok(r) = p.buf().load_at::<Ref<T, E, O>>(off) else { return };
            let r = *r;
            let o = word(p, off);
            ensure!(r.offset() == o, "wrong-value", "reference at {off} leads to {} instead of {o}", r.offset());
            let ok = want(&T::desc(), p, o, 1, true);
            let at = p.base().wrapping_add(o);
            told(&p.buf().load(r), ok, at, size_of::<T>(), &|| format!("load of {} through a stored reference to {o}", std::any::type_name::<T>()));
            one::<T>(p, o);
        }
        1 => {
            one::<Ref<[T], E, O>>(p, off);
            let Ok(r) = p.buf().load_at::<Ref<[T], E, O>>(off) else { return };
            let r = *r;
            let (o, n) = (word(p, off), word(p, off + w));
            ensure!(r.offset() == o && r.len() == n, "wrong-value", "reference at {off} leads to {} of {} instead of {n} of {o}", r.len(), r.offset());
            let ok = want(&T::desc(), p, o, n, true);
            let at = p.base().wrapping_add(o);
            let size = n.wrapping_mul(size_of::<T>());
            told(&p.buf().load(r), ok, at, size, &|| format!("load of {n} {} through a stored reference to {o}", std::any::type_name::<T>()));
            many::<T>(p, o, n);
        }
        _ => {
            one::<Ref<str, E, O>>(p, off);
            let Ok(r) = p.buf().load_at::<Ref<str, E, O>>(off) else { return };
            let r = *r;
            let (o, n) = (word(p, off), word(p, off + w));
            ensure!(r.offset() == o && r.len() == n, "wrong-value", "reference at {off} leads to {} of {} instead of {n} of {o}", r.len(), r.offset());
            text_at(p, o, n);
        }
    }
}

fn swap<T: D>(p: &mut Place, a: usize, b: usize) {
    let s = size_of::<T>();
    let n = p.b.len();
    let fits = |o: usize| o.checked_add(s).is_some_and(|e| e <= n);
    let ok = fits(a) && fits(b);
    let aligned = (p.base().wrapping_add(a)) % align_of::<T>() == 0 && p.base().wrapping_add(b) % align_of::<T>() == 0;
    let what = format!("swap of {} at {a} and {b} of {n} bytes", std::any::type_name::<T>());
    match p.buf().swap(Ref::<T, Little, usize>::new(a), Ref::new(b)) {
        Ok(()) => {
            ensure!(ok || a == b, "believed", "{what}");
            if ok && a.abs_diff(b) >= s {
                for i in 0..s {
                    p.b.swap(a + i, b + i);
                }
            } else if a != b && ok {
                // Overlapping values: whatever is left of them, nothing else changes.
                let (lo, hi) = (a.min(b), a.max(b) + s);
                let now = p.buf()[lo..hi].to_vec();
                p.b[lo..hi].copy_from_slice(&now);
            }
        }
        Err(e) => {
            shown(&e);
            ensure!(!ok || !aligned, "lost-value", "{what}: refused: {e}");
        }
    }
    let now = p.buf()[..].to_vec();
    ensure!(now == p.b, "disturbed", "{what} changed something else");
}

type Probe = (fn(&mut Place, usize), fn(&mut Place, usize, usize), fn(&mut Place, usize), fn(&mut Place, usize, usize));
fn probes() -> Vec<Probe> {
    fn nest<T: D>(p: &mut Place, off: usize) {
        match choose(6) {
            0 => nested::<T, Little, u32>(p, off),
            1 => nested::<T, Big, u32>(p, off),
            2 => nested::<T, Little, usize>(p, off),
            3 => nested::<T, Big, usize>(p, off),
            4 => nested::<T, Big, u16>(p, off),
            _ => nested::<T, Little, u8>(p, off),
        }
    }
    macro_rules! table { ($($t:ty),*) => { vec![$((one::<$t> as fn(&mut Place, usize), many::<$t> as fn(&mut Place, usize, usize), nest::<$t> as fn(&mut Place, usize), swap::<$t> as fn(&mut Place, usize, usize))),*] } }
    let mut v: Vec<Probe> = crate::all_types!(table);
    v.extend::<Vec<Probe>>(table!([bool; 0], [Flags; 2], [NonZeroU8; 0]));
    v
}

fn offset(p: &Place, known: &[(usize, usize)]) -> usize {
    let n = p.b.len();
    match choose(8) {
        0 => interesting(n) as usize,
        1 => n.saturating_sub(below(40)),
        2 => n + below(3),
        3 => usize::MAX - below(70),
        4 => below(n + 1) / 8 * 8,
        _ if !known.is_empty() => pick(known).1,
        _ => below(n + 1),
    }
}

fn raw_loads<E: Order, O: Size + D>()
where
    OwnedBuf<E, O>: ZB<E = E, O = O>,
{
    let ops = ops::<OwnedBuf<E, O>>();
    let probes = probes();
    let mut known: Vec<(usize, usize)> = vec![];
    let mut bytes = if choose(6) == 0 {
        let mut b = vec![0; below(200)];
        rand_bytes(&mut b);
        b
    } else {
        let mut buf = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
        for _ in 0..1 + below(if st().thorough { 40 } else { 16 }) {
            let i = below(ops.len());
            let d = (ops[i].desc)();
            let many = choose(3) == 0;
            let n = if many { below(5) } else { 1 };
            let (mut b, mut m) = (vec![0; d.size() * n], vec![false; d.size() * n]);
            for k in 0..n {
                let s = d.size();
                d.fill(&mut b[k * s..(k + 1) * s], &mut m[k * s..(k + 1) * s]);
            }
            // A small archive is full at some point.
            let full = off_max::<O>() < 1 << 20 && buf.len() + b.len() + 100 > off_max::<O>();
            if full {
                break;
            }
            let h = if many { (ops[i].slice)(&mut buf, &b, n) } else { (ops[i].store)(&mut buf, &b) };
            known.push((i, h.off()));
            if choose(3) == 0 {
                if let Some(h) = h.store_ref(&mut buf) {
                    known.push((usize::MAX, h.off()));
                }
            }
            if choose(4) == 0 {
                let r = buf.store_unsized(&text()[..]);
                let r = buf.store(&r);
                known.push((usize::MAX, r.offset()));
            }
        }
        buf.z_bytes().to_vec()
    };
    note(hash_bytes(&bytes));
    if choose(8) > 0 {
        damage(&mut bytes);
    }
    ev!("archive of {} bytes, {} values, {}", bytes.len(), known.len(), hex(&bytes));
    let mut p = Place::new(bytes);
    if p.base() % 64 != 0 {
        fault("archive misplaced");
    }
    nontrivial();
    for _ in 0..12 + below(30) {
        let off = offset(&p, &known);
        let kind = choose(8);
        let mut i = below(probes.len());
        if kind < 3 {
            // A known value is looked for as what it is.
            if let Some(k) = known.iter().find(|k| k.1 == off && k.0 < probes.len()) {
                i = k.0;
            }
        }
        state(mix(i as u64, mix(kind, mix(off as u64 % 8, (off > p.b.len()) as u64))));
        match kind {
            0..=2 => (probes[i].0)(&mut p, off),
            3 => {
                let n = if choose(3) == 0 { interesting(p.b.len()) as usize } else { below(6) };
                (probes[i].1)(&mut p, off, n)
            }
            4 | 5 => (probes[i].2)(&mut p, off),
            6 => {
                let other = offset(&p, &known);
                (probes[i].3)(&mut p, off, other)
            }
            _ => {
                let n = if choose(3) == 0 { interesting(p.b.len()) as usize } else { below(12) };
                text_at(&mut p, off, n)
            }
        }
        step();
    }
    let now = p.buf()[..].to_vec();
    ensure!(now == p.b, "disturbed", "loading changed the archive");
    moved(&mut p);
}

/// Copies made to get at an aligned archive.
fn moved(p: &mut Place) {
    let align = 1usize << choose(8);
    let base = p.base();
    let b = p.b.clone();
    let c = p.buf().to_aligned_with(align);
    ensure!(c[..] == b[..], "wrong-value", "to_aligned_with({align}) changed the archive");
    ensure!(c.is_aligned_with(align) && c[..].as_ptr() as usize % align == 0, "misaligned", "to_aligned_with({align}) of an archive at ..{:x}", base & 0xfff);
    let c = p.buf().to_aligned::<u128>();
    ensure!(c[..] == b[..] && c.is_aligned::<u128>(), "misaligned", "to_aligned");
    let o = p.buf().to_owned();
    ensure!(o[..] == b[..], "wrong-value", "to_owned changed the archive");
    check_heap("copying an archive");
}

pub fn c13() {
    let _ = Endian::<u8, Big>::new(0);
    let f: &[fn()] = &[
        raw_loads::<Little, u32>,
        raw_loads::<Big, u32>,
        raw_loads::<Little, usize>,
        raw_loads::<Big, usize>,
        raw_loads::<Big, u16>,
        raw_loads::<Little, u8>,
        || index::damaged(|| OwnedBuf::new().with_byte_order::<Little>().with_size::<u32>()),
        || index::damaged(|| OwnedBuf::new().with_byte_order::<Big>().with_size::<u32>()),
        || index::damaged(|| OwnedBuf::new().with_byte_order::<Little>().with_size::<usize>()),
        || index::damaged(|| OwnedBuf::new().with_byte_order::<Big>().with_size::<usize>()),
        || index::damaged(|| OwnedBuf::new().with_byte_order::<Big>().with_size::<u16>()),
        trie::damaged,
        trie::damaged,
    ];
    let _ = guard("loading from a damaged archive", pick(f));
}

/// A damaged copy, misplaced at times.
pub fn spoil(bytes: &[u8], align: usize, ask: &mut dyn FnMut(&Buf)) {
    let mut b = bytes.to_vec();
    damage(&mut b);
    let mut g = Guarded::new(b.len() + 2 * align + 64);
    let total = g.len();
    g.slice(0, total).fill(choose(256) as u8);
    let top = total - b.len();
    let at = match choose(8) {
        0 => top,
        1 => {
            fault("archive misplaced");
            below(top + 1)
        }
        2..=4 => 0,
        _ => top / align * align,
    };
    let dst = g.slice(at, b.len());
    dst.copy_from_slice(&b);
    ask(Buf::new(dst));
    ensure!(g.slice(at, b.len()) == &b[..], "disturbed", "asking changed the archive");
    check_heap("asking a damaged archive");
}
