//! Histories of interleaved owners over one slice-backed allocator (C01, C02).
use musli::alloc::{Alloc, Box as MBox, Slice, Vec as MVec};
use simcore::sys::{Guarded, PAGE};
use simcore::*;
use std::any::Any;

type A = &'static Slice<'static>;

/// Plain element types of every size and alignment the histories use.
pub trait El: Copy + PartialEq + 'static {
    const NAME: &'static str;
    fn of(seed: u64) -> Self;
}
macro_rules! el {
    ($t:ty, $n:expr, |$s:ident| $e:expr) => {
        impl El for $t {
            const NAME: &'static str = $n;
            fn of($s: u64) -> Self {
                $e
            }
        }
    };
}
el!(u8, "u8", |s| s as u8);
el!(u16, "u16", |s| s as u16);
el!(u32, "u32", |s| s as u32);
el!(u64, "u64", |s| s);
el!(u128, "u128", |s| (s as u128) << 64 | mix(s, 7) as u128);
el!([u8; 3], "[u8;3]", |s| [s as u8, (s >> 8) as u8, (s >> 16) as u8]);
el!((), "()", |_s| ());
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(C, align(32))]
pub struct Wide([u64; 4]);
el!(Wide, "align32", |s| Wide([s, mix(s, 1), mix(s, 2), mix(s, 3)]));
el!([u64; 9], "[u64;9]", |s| core::array::from_fn(|i| mix(s, i as u64)));

/// One live buffer and what its owner wrote to it.
trait Owner: Any {
    fn span(&self) -> (usize, usize);
    fn align(&self) -> usize;
    fn zst(&self) -> bool;
    fn check(&self) -> Result<(), String>;
    fn scribble_spare(&mut self, seed: u64);
    fn op(&mut self, seed: u64) -> Result<&'static str, &'static str>;
    fn merge(&mut self, o: Box<dyn Owner>) -> Result<bool, ()>;
    fn len(&self) -> usize;
    fn name(&self) -> &'static str;
    fn as_any(self: Box<Self>) -> Box<dyn Any>;
    fn is_vec(&self) -> bool;
}

struct V<T: El> {
    v: MVec<T, A>,
    model: Vec<T>,
}

impl<T: El> Owner for V<T> {
    fn span(&self) -> (usize, usize) {
        let p = self.v.raw().as_ptr() as usize;
        let cap = self.v.raw().capacity();
        if size_of::<T>() == 0 {
            return (0, 0);
        }
        (p, cap.saturating_mul(size_of::<T>()))
    }
    fn align(&self) -> usize {
        align_of::<T>()
    }
    fn zst(&self) -> bool {
        size_of::<T>() == 0
    }
    fn check(&self) -> Result<(), String> {
        if self.v.len() != self.model.len() {
            return Err(format!("length is {} instead of {}", self.v.len(), self.model.len()));
        }
        if self.v.capacity() < self.v.len() {
            return Err(format!("capacity {} is below length {}", self.v.capacity(), self.v.len()));
        }
        for (i, (a, b)) in self.v.as_slice().iter().zip(&self.model).enumerate() {
            if a != b {
                return Err(format!("element {i} of {} changed", self.v.len()));
            }
        }
        Ok(())
    }
    fn scribble_spare(&mut self, seed: u64) {
        if size_of::<T>() == 0 {
            return;
        }
        // The owner may use its whole capacity.
        let (p, n) = self.span();
        let from = self.v.len() * size_of::<T>();
        for i in from..n {
            unsafe { *((p + i) as *mut u8) = mix(seed, i as u64) as u8 };
        }
    }
    fn op(&mut self, seed: u64) -> Result<&'static str, &'static str> {
        let big = if size_of::<T>() > 16 { 6 } else { 40 };
        match choose(10) {
            0..=2 => {
                let x = T::of(seed);
                untrack_push(&mut self.model, x);
                if self.v.push(x).is_err() {
                    self.model.pop();
                    return Err("push");
                }
                Ok("push")
            }
            3..=5 => {
                let n = size(if chance(1, 12) { 2000 } else { big });
                let xs: Vec<T> = (0..n).map(|i| T::of(mix(seed, i as u64))).collect();
                if self.v.extend_from_slice(&xs).is_err() {
                    return Err("extend_from_slice");
                }
                self.model.extend_from_slice(&xs);
                Ok("extend_from_slice")
            }
            6 => {
                let n = match choose(8) {
                    0 => usize::MAX - below(16),
                    1 => (isize::MAX as usize) / size_of::<T>().max(1) + below(2),
                    _ => size(big * 2),
                };
                match self.v.reserve(n) {
                    Ok(()) => {
                        let cap = self.v.raw().capacity();
                        if size_of::<T>() != 0 && (cap < self.v.len() || cap - self.v.len() < n) {
                            violate("reserve-short", format!("reserve({n}) of Vec<{}> with len {} reported success with capacity {cap}", T::NAME, self.v.len()));
                        }
                        Ok("reserve")
                    }
                    Err(_) => Err("reserve"),
                }
            }
            7 => {
                let a = self.v.pop();
                let b = self.model.pop();
                if a != b {
                    violate("pop-differs", format!("pop of Vec<{}>", T::NAME));
                }
                Ok("pop")
            }
            8 => {
                self.v.clear();
                self.model.clear();
                Ok("clear")
            }
            _ => {
                let n = self.v.len();
                if n > 0 {
                    let i = below(n);
                    let x = T::of(seed);
                    self.v.as_slice_mut()[i] = x;
                    self.model[i] = x;
                }
                Ok("write")
            }
        }
    }
    fn merge(&mut self, o: Box<dyn Owner>) -> Result<bool, ()> {
        let o = o.as_any().downcast::<V<T>>().map_err(|_| ())?;
        let V { v, model } = *o;
        match self.v.extend(v) {
            Ok(()) => {
                self.model.extend_from_slice(&model);
                Ok(true)
            }
            Err(_) => Ok(false),
        }
    }
    fn len(&self) -> usize {
        self.v.len()
    }
    fn name(&self) -> &'static str {
        T::NAME
    }
    fn as_any(self: Box<Self>) -> Box<dyn Any> {
        self
    }
    fn is_vec(&self) -> bool {
        true
    }
}

fn untrack_push<T>(v: &mut Vec<T>, x: T) {
    v.push(x)
}

struct B<T: El> {
    b: MBox<T, A>,
    model: T,
}
impl<T: El> Owner for B<T> {
    fn span(&self) -> (usize, usize) {
        if size_of::<T>() == 0 {
            return (0, 0);
        }
        (&*self.b as *const T as usize, size_of::<T>())
    }
    fn align(&self) -> usize {
        align_of::<T>()
    }
    fn zst(&self) -> bool {
        size_of::<T>() == 0
    }
    fn check(&self) -> Result<(), String> {
        if *self.b != self.model {
            return Err("boxed value changed".into());
        }
        Ok(())
    }
    fn scribble_spare(&mut self, _: u64) {}
    fn op(&mut self, seed: u64) -> Result<&'static str, &'static str> {
        let x = T::of(seed);
        *self.b = x;
        self.model = x;
        Ok("write")
    }
    fn merge(&mut self, _: Box<dyn Owner>) -> Result<bool, ()> {
        Err(())
    }
    fn len(&self) -> usize {
        1
    }
    fn name(&self) -> &'static str {
        T::NAME
    }
    fn as_any(self: Box<Self>) -> Box<dyn Any> {
        self
    }
    fn is_vec(&self) -> bool {
        false
    }
}

/// An arena in guarded memory with canaries around it.
struct Arena {
    mem: Guarded,
    off: usize,
    len: usize,
    alloc: *mut Slice<'static>,
}
const CANARY: usize = 64;
impl Arena {
    fn new(len: usize, off: usize, at_end: bool) -> Self {
        let mem = Guarded::new(len + off + 2 * CANARY + 64);
        // either canaries on both sides, or flush against the guard page
        let off = if at_end { mem.len() - len - below(2) * off.min(mem.len() - len) } else { CANARY + off };
        unsafe {
            for i in 0..mem.len() {
                *mem.start().add(i) = canary(i);
            }
            let s = core::slice::from_raw_parts_mut(mem.start().add(off).cast::<core::mem::MaybeUninit<u8>>(), len);
            let alloc = Box::into_raw(Box::new(Slice::new(s)));
            Arena { mem, off, len, alloc }
        }
    }
    fn a(&self) -> A {
        unsafe { &*self.alloc }
    }
    fn range(&self) -> (usize, usize) {
        let s = self.mem.start() as usize + self.off;
        (s, s + self.len)
    }
    fn canaries_ok(&self) -> Option<usize> {
        let (lo, hi) = (self.off.saturating_sub(CANARY), (self.off + self.len + CANARY).min(self.mem.len()));
        for i in (lo..self.off).chain(self.off + self.len..hi) {
            if unsafe { *self.mem.start().add(i) } != canary(i) {
                return Some(i);
            }
        }
        None
    }
}
impl Drop for Arena {
    fn drop(&mut self) {
        unsafe { drop(Box::from_raw(self.alloc)) }
    }
}
fn canary(i: usize) -> u8 {
    (i as u8).wrapping_mul(37) ^ 0x5C
}

fn new_owner(a: A, kind: u64, seed: u64, boxed: bool, cap: Option<usize>) -> Option<Box<dyn Owner>> {
    macro_rules! go {
        ($t:ty) => {
            if boxed {
                let x = <$t>::of(seed);
                MBox::new_in(x, a).ok().map(|b| Box::new(B { b, model: x }) as Box<dyn Owner>)
            } else if let Some(c) = cap {
                MVec::<$t, A>::with_capacity_in(c, a).ok().map(|v| Box::new(V { v, model: Vec::new() }) as Box<dyn Owner>)
            } else {
                Some(Box::new(V { v: MVec::<$t, A>::new_in(a), model: Vec::new() }) as Box<dyn Owner>)
            }
        };
    }
    match kind {
        0 => go!(u8),
        1 => go!(u16),
        2 => go!(u32),
        3 => go!(u64),
        4 => go!([u8; 3]),
        5 => go!(u128),
        6 => go!(Wide),
        7 => go!([u64; 9]),
        _ => go!(()),
    }
}

struct Hist {
    slots: Vec<Option<Box<dyn Owner>>>,
    arena: Arena,
    /// What the owners of abandoned (failed) requests must still see is covered by `check`.
    ops: u64,
    peak: usize,
    kinds: u64,
    max_slots: usize,
    scribble: bool,
}

impl Hist {
    fn live(&self) -> usize {
        self.slots.iter().flatten().filter(|o| !o.zst()).count()
    }

    fn check(&self, after: &str) {
        let (lo, hi) = self.arena.range();
        let mut spans: Vec<(usize, usize, usize)> = Vec::new();
        for (i, o) in self.slots.iter().enumerate() {
            let Some(o) = o else { continue };
            let (p, n) = o.span();
            if n > 0 {
                ensure!(p >= lo && n <= hi - lo && p + n <= hi, "outside-arena", "after {after}: buffer {i} ({}) spans {}..{} outside the arena of {} bytes", o.name(), p.wrapping_sub(lo) as isize, (p + n).wrapping_sub(lo) as isize, hi - lo);
                ensure!(p % o.align() == 0, "misaligned", "after {after}: buffer {i} ({}) at offset {} is not aligned to {}", o.name(), p - lo, o.align());
                spans.push((p, p + n, i));
            }
        }
        spans.sort();
        for w in spans.windows(2) {
            ensure!(w[0].1 <= w[1].0, "overlap", "after {after}: buffers {} ({}..{}) and {} ({}..{}) overlap", w[0].2, w[0].0 - lo, w[0].1 - lo, w[1].2, w[1].0 - lo, w[1].1 - lo);
        }
        for (i, o) in self.slots.iter().enumerate() {
            let Some(o) = o else { continue };
            if let Err(e) = o.check() {
                violate("content-lost", format!("after {after}: buffer {i} ({}): {e}", o.name()));
            }
        }
        if let Some(i) = self.arena.canaries_ok() {
            violate("wrote-outside", format!("after {after}: byte at offset {} outside the arena changed", i as isize - self.arena.off as isize));
        }
    }

    fn summary(&self) -> u64 {
        // abstract state: which owners are live, in address order, adjacency and emptiness
        let mut v: Vec<(usize, usize, usize)> = self.slots.iter().enumerate().filter_map(|(i, o)| o.as_ref().map(|o| (o.span().0, o.span().1, i))).collect();
        v.sort();
        let mut h = 1u64;
        let mut prev = 0;
        for (p, n, _) in v {
            h = mix(h, (p.wrapping_sub(self.arena.range().0) == 0) as u64 | ((p == prev) as u64) << 1 | ((n == 0) as u64) << 2 | ((n as u64).min(63)) << 3);
            prev = p + n;
        }
        h
    }

    fn do_op(&mut self, n: u64) {
        step();
        self.ops += 1;
        let seed = mix(n, 0x5eed);
        let i = below(self.max_slots);
        let before: Vec<(usize, usize)> = Vec::new();
        let _ = before;
        let what: String;
        if self.slots[i].is_none() {
            let kind = {
                let k = choose(9);
                if self.kinds >> k & 1 == 1 {
                    k
                } else {
                    self.kinds.trailing_zeros() as u64
                }
            };
            let boxed = chance(1, 5);
            let cap = if chance(1, 3) { Some(size(60)) } else { None };
            let o = new_owner(self.arena.a(), kind, seed, boxed, cap);
            let ok = o.is_some();
            if !ok {
                fault("arena exhausted");
            }
            what = format!("create {i} kind {kind} boxed {boxed} cap {cap:?} -> {ok}");
            self.slots[i] = o;
        } else {
            match choose(12) {
                0..=6 => {
                    let o = self.slots[i].as_mut().unwrap();
                    match o.op(seed) {
                        Ok(w) => what = format!("{w} {i} ({}) -> ok, len {}", o.name(), o.len()),
                        Err(w) => {
                            fault("arena exhausted");
                            what = format!("{w} {i} ({}) -> refused", o.name());
                        }
                    }
                }
                7..=8 => {
                    let j = below(self.max_slots);
                    let same = j != i && self.slots[j].as_ref().map_or(false, |o| o.is_vec() && o.name() == self.slots[i].as_ref().unwrap().name()) && self.slots[i].as_ref().unwrap().is_vec();
                    if same {
                        let o = self.slots[j].take().unwrap();
                        let t = self.slots[i].as_mut().unwrap();
                        let adj = t.span().0 + t.span().1 == o.span().0;
                        if adj {
                            probe("merge of adjacent buffers");
                        }
                        let r = t.merge(o).unwrap();
                        if !r {
                            fault("arena exhausted");
                        }
                        what = format!("merge {j} into {i} ({}, adjacent {adj}) -> {r}, len {}", t.name(), t.len());
                    } else {
                        what = "nothing".into();
                    }
                }
                _ => {
                    let o = self.slots[i].take().unwrap();
                    what = format!("drop {i} ({}, len {})", o.name(), o.len());
                    drop(o);
                }
            }
        }
        self.peak = self.peak.max(self.live());
        ev!("#{n} {what}");
        note(hash_bytes(what.as_bytes()));
        self.check(&what);
        if self.scribble {
            for o in self.slots.iter_mut().flatten() {
                o.scribble_spare(seed);
            }
        }
        state(self.summary());
    }
}

fn arena_size() -> usize {
    match choose(6) {
        0 => size(64),
        1 => range(64, 300),
        2 | 3 => range(300, 1200),
        4 => range(1200, 6000),
        _ => range(6000, 70000),
    }
}

fn new_hist() -> Hist {
    let len = arena_size();
    let arena = Arena::new(len, below(33), chance(1, 3));
    let max_slots = range(1, 10);
    let kinds = match choose(4) {
        0 => 1 << choose(8),
        1 => 1 | 1 << choose(9),
        2 => 1 | 1 << choose(9) | 1 << choose(9),
        _ => 0x1ff,
    };
    ev!("arena of {len} bytes, start misaligned by {}, {max_slots} owners, element kinds {kinds:#x}", arena.range().0 % 64);
    Hist { arena, slots: (0..max_slots).map(|_| None).collect(), ops: 0, peak: 0, kinds, max_slots, scribble: chance(3, 4) }
}

/// More buffers than the allocator has identifiers for.
fn many() {
    let arena = Arena::new(66_500 * HDR + 200_000, below(9), false);
    let a = arena.a();
    let mut held: Vec<MBox<u16, A>> = Vec::new();
    let n = 66_000;
    let mut refused = 0;
    for i in 0..n {
        match MBox::new_in(i as u16, a) {
            Ok(b) => held.push(b),
            Err(_) => {
                refused += 1;
                if refused > 3 {
                    break;
                }
            }
        }
    }
    fault("buffer identifiers exhausted");
    ev!("{} boxes served, {refused} refused", held.len());
    let verify = |held: &[MBox<u16, A>], base: usize| {
        for (i, b) in held.iter().enumerate() {
            ensure!(**b == (base + i) as u16, "content-lost", "box {} of {} changed", i, held.len());
        }
    };
    verify(&held, 0);
    let served = held.len();
    let keep = below(served);
    held.truncate(keep);
    verify(&held, 0);
    for i in 0..below(2000).min(served - keep) {
        if let Ok(b) = MBox::new_in((keep + i) as u16, a) {
            held.push(b);
        } else {
            violate("space-not-returned", format!("box {i} refused after {} were dropped", served - keep));
        }
    }
    verify(&held, 0);
    if let Some(i) = arena.canaries_ok() {
        violate("wrote-outside", format!("byte at offset {i} outside the arena changed"));
    }
}

pub fn c01() {
    let _ = PAGE;
    if chance(1, 20_000) {
        return many();
    }
    let mut h = new_hist();
    let n = if st().thorough { range(1, 400) } else { range(1, 120) };
    for k in 0..n as u64 {
        h.do_op(k);
    }
    if h.ops > 4 {
        nontrivial();
    }
    // drop in random order, checking the rest each time
    let mut left: Vec<usize> = (0..h.max_slots).collect();
    while !left.is_empty() {
        let i = left.remove(below(left.len()));
        if h.slots[i].take().is_some() {
            ev!("final drop {i}");
            h.check("final drop");
        }
    }
}

const HDR: usize = 24;

pub fn c02() {
    let mut h = new_hist();
    h.scribble = false;
    let rounds = if st().thorough { range(1, 60) } else { range(1, 25) };
    let len = h.arena.len;
    let mut k = 0u64;
    for round in 0..rounds {
        // a history of interleaved owners, exhaustion included
        for _ in 0..range(1, 30) {
            h.do_op(k);
            k += 1;
        }
        if chance(1, 4) {
            lifo(&mut h, k);
        }
        // drain, in any order
        let mut left: Vec<usize> = (0..h.max_slots).collect();
        while !left.is_empty() {
            let i = left.remove(below(left.len()));
            if h.slots[i].take().is_some() {
                ev!("drain {i}");
            }
        }
        fault("arena drained");
        // bookkeeping ever needed: one record per buffer live at once, one for a
        // buffer being moved, one for an alignment gap
        let records = h.peak + 2;
        let Some(data) = len.checked_sub(records * HDR + 8 + 32 + 32) else { continue };
        if data == 0 {
            continue;
        }
        nontrivial();
        // one buffer of everything
        if chance(1, 2) {
            let ok = new_owner(h.arena.a(), 0, 1, false, Some(data));
            ensure!(ok.is_some(), "space-not-returned", "round {round}: the drained arena of {len} bytes refused one buffer of {data} bytes (at most {} buffers were ever live at once)", h.peak);
            ev!("round {round}: {data} bytes served");
            let o = ok.unwrap();
            h.peak = h.peak.max(1);
            drop(o);
        }
        // as many buffers as ever were live
        let n = h.peak;
        if n > 0 {
            let each = data / n;
            let mut v = Vec::new();
            for i in 0..n {
                let kind = choose(4);
                let sz = [1, 2, 4, 8][kind as usize];
                let cap = (each.saturating_sub(8)) / sz;
                let cap = below(cap + 1);
                let o = new_owner(h.arena.a(), kind, 1, false, Some(cap));
                ensure!(o.is_some(), "space-not-returned", "round {round}: the drained arena of {len} bytes refused buffer {i} of {n} ({cap} x {sz} bytes of at most {each} bytes each)");
                v.push(o);
            }
            while !v.is_empty() {
                let i = below(v.len());
                drop(v.swap_remove(i));
            }
            ev!("round {round}: {n} buffers of up to {each} bytes served");
        }
    }
}

/// Buffers taken and released in stack order above whatever is live.
fn lifo(h: &mut Hist, k: u64) {
    let n = range(1, 4);
    let plan: Vec<(u64, usize)> = (0..n).map(|_| (choose(8), size(20))).collect();
    let rounds = 40;
    let mut first: Vec<bool> = Vec::new();
    let (lo, hi) = h.arena.range();
    for r in 0..rounds {
        let mut held = Vec::new();
        let mut got = Vec::new();
        for &(kind, cap) in &plan {
            let o = new_owner(h.arena.a(), kind, k, false, Some(cap));
            // An empty buffer may be refused a region without telling.
                        got.push(o.as_ref().map_or(false, |o| o.zst() || (lo..=hi).contains(&o.span().0)));
            held.push(o);
        }
        h.peak = h.peak.max(h.live() + n);
        while let Some(o) = held.pop() {
            drop(o);
        }
        h.check("stack-order round");
        if r < 3 {
            // Alignment gaps left by what happened before may make the first
            // rounds cheaper or dearer than the following ones.
            if got.iter().any(|x| !x) {
                return;
            }
            first = got;
            if r == 2 {
                ev!("stack-order rounds of {plan:?}");
            }
        } else {
            ensure!(first == got, "stack-space-not-returned", "stack-order round {r} of {plan:?} was refused although the first rounds were served");
        }
    }
    probe("stack-order rounds");
}
