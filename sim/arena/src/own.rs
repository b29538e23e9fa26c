//! Container histories with refused allocations and panicking destructors (C11).
use crate::falloc::{FaultAlloc, Policy};
use core::fmt::{Debug, Write};
use musli::alloc::{Alloc, Allocator, Box as MBox, Slice, String as MString, System, Vec as MVec};
use simcore::sys::Guarded;
use simcore::*;
use std::cell::UnsafeCell;

/// Registry of every token created and dropped in this run.
struct Reg {
    dropped: Vec<bool>,
    zst_made: i64,
    zst_gone: i64,
    /// Panic in the n-th destructor from now.
    bomb: u64,
}
struct Cell0(UnsafeCell<Reg>);
unsafe impl Sync for Cell0 {}
static REG: Cell0 = Cell0(UnsafeCell::new(Reg { dropped: Vec::new(), zst_made: 0, zst_gone: 0, bomb: 0 }));
#[allow(clippy::mut_from_ref)]
fn reg() -> &'static mut Reg {
    unsafe { &mut *REG.0.get() }
}
fn fresh_id() -> u32 {
    let _g = galloc::track(false);
    let r = reg();
    r.dropped.push(false);
    (r.dropped.len() - 1) as u32
}
fn bomb() {
    let r = reg();
    if r.bomb > 0 {
        r.bomb -= 1;
        if r.bomb == 0 && !std::thread::panicking() {
            fault("destructor panics");
            let _g = galloc::track(false);
            std::panic::panic_any(Injected);
        }
    }
}
fn gone(id: u32, magic: bool) {
    let r = reg();
    if !magic || id as usize >= r.dropped.len() {
        violate("dropped-garbage", format!("a destructor ran on something that is not a token (id {id})"));
    }
    if r.dropped[id as usize] {
        violate("double-drop", format!("token {id} was dropped twice"));
    }
    r.dropped[id as usize] = true;
    bomb();
}

pub trait Elem: 'static + Debug + PartialEq + PartialOrd {
    const NAME: &'static str;
    fn make() -> (Self, u32)
    where
        Self: Sized;
    fn id(&self) -> u32;
}

macro_rules! token {
    ($n:ident, $name:expr, $(#[$a:meta])* { $($f:ident : $t:ty = $v:expr),* }) => {
        $(#[$a])*
        #[derive(Debug, PartialEq, PartialOrd)]
        pub struct $n { id: u32, magic: u32, $($f: $t),* }
        impl Elem for $n {
            const NAME: &'static str = $name;
            fn make() -> (Self, u32) {
                let id = fresh_id();
                ($n { id, magic: !id, $($f: $v),* }, id)
            }
            fn id(&self) -> u32 {
                if self.magic != !self.id { u32::MAX } else { self.id }
            }
        }
        impl Drop for $n {
            fn drop(&mut self) {
                gone(self.id, self.magic == !self.id);
                self.magic = 0;
            }
        }
    };
}
token!(Tok, "token", {});
token!(TokWide, "token aligned to 32", #[repr(align(32))] { x: [u8; 40] = [7; 40] });
token!(TokBig, "token of 1032 bytes", { x: [u64; 128] = [9; 128] });

#[derive(Debug, PartialEq, PartialOrd)]
pub struct TokZ;
impl Elem for TokZ {
    const NAME: &'static str = "zero-sized token";
    fn make() -> (Self, u32) {
        reg().zst_made += 1;
        (TokZ, 0)
    }
    fn id(&self) -> u32 {
        0
    }
}
impl Drop for TokZ {
    fn drop(&mut self) {
        let r = reg();
        r.zst_gone += 1;
        if r.zst_gone > r.zst_made {
            violate("double-drop", format!("{} zero-sized tokens were made and {} dropped", r.zst_made, r.zst_gone));
        }
        bomb();
    }
}

/// What surrounds one library call: failure injection on, accounting on.
struct Env<'a> {
    arm: &'a dyn Fn(),
    disarm: &'a dyn Fn() -> u64,
    /// A std container took over this many bytes.
    taken: &'a dyn Fn(usize),
    /// The run may observe refused allocations at all.
    faulty: bool,
}
impl Env<'_> {
    /// Run one library call; Err(()) if an injected destructor panic came out.
    fn call<R>(&self, f: impl FnOnce() -> R) -> (Result<R, ()>, u64) {
        (self.arm)();
        let r = {
            let _g = galloc::track(true);
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
        };
        reg().bomb = 0;
        let fired = (self.disarm)();
        check_heap("a container operation");
        match r {
            Ok(r) => (Ok(r), fired),
            Err(p) => {
                if p.is::<Injected>() {
                    drop(p);
                    (Err(()), fired)
                } else {
                    std::panic::resume_unwind(p)
                }
            }
        }
    }
}

fn maybe_bomb(n: usize) {
    if n > 0 && chance(1, 6) {
        reg().bomb = 1 + choose(n as u64);
    }
}

fn ids<T: Elem>(v: &[T]) -> Vec<u32> {
    v.iter().map(|t| t.id()).collect()
}

struct Slot<T: Elem, A: Allocator> {
    v: MVec<T, A>,
    model: Vec<u32>,
}

fn check_vec<T: Elem, A: Allocator>(i: usize, s: &Slot<T, A>, after: &str) {
    let got = ids(s.v.as_slice());
    ensure!(got == s.model, "contents-differ", "after {after}: vector {i} of {}: {:?} instead of {:?}", T::NAME, got, s.model);
    ensure!(s.v.len() == s.model.len() && s.v.is_empty() == s.model.is_empty(), "length-differs", "after {after}: vector {i}: {}", s.v.len());
    ensure!(s.v.capacity() >= s.v.len(), "capacity-short", "after {after}: capacity {} below length {}", s.v.capacity(), s.v.len());
    ensure!(s.v.as_slice().as_ptr() as usize % align_of::<T>() == 0, "misaligned", "after {after}: vector of {}", T::NAME);
}

fn vec_history<T: Elem, A: Allocator>(alloc: A, env: &Env<'_>) {
    let mut slots: Vec<Slot<T, A>> = Vec::new();
    let mut boxes: Vec<(MBox<T, A>, u32)> = Vec::new();
    let mut stds: Vec<(Vec<T>, Vec<u32>)> = Vec::new();
    let n = if st().thorough { range(1, 120) } else { range(1, 50) };
    for k in 0..n {
        step();
        let what: String;
        let i = below(slots.len().max(1));
        match choose(16) {
            0 | 1 => {
                let cap = if chance(1, 3) { Some(size(20)) } else { None };
                let (r, _) = env.call(|| match cap {
                    Some(c) => MVec::with_capacity_in(c, alloc),
                    None => Ok(MVec::new_in(alloc)),
                });
                what = format!("new vector {cap:?}: {}", matches!(&r, Ok(Ok(_))));
                match r {
                    Ok(Ok(v)) => {
                        if let Some(c) = cap {
                            ensure!(v.capacity() >= c, "capacity-short", "with_capacity_in({c}) gave {}", v.capacity());
                        }
                        slots.push(Slot { v, model: Vec::new() })
                    }
                    Ok(Err(_)) => ensure!(env.faulty, "refused-without-reason", "with_capacity_in({cap:?}) refused"),
                    Err(()) => {}
                }
            }
            2..=6 if !slots.is_empty() => {
                let (t, id) = T::make();
                let s = &mut slots[i];
                let (r, fired) = env.call(|| s.v.push(t));
                what = format!("push token {id} to {i}: {r:?}");
                match r {
                    Ok(Ok(())) => s.model.push(id),
                    Ok(Err(_)) => ensure!(env.faulty || fired > 0, "refused-without-reason", "push refused"),
                    Err(()) => {}
                }
            }
            7 if !slots.is_empty() => {
                let s = &mut slots[i];
                let (r, _) = env.call(|| s.v.pop());
                let m = s.model.pop();
                what = format!("pop from {i}");
                let got = r.unwrap();
                ensure!(got.as_ref().map(|t| t.id()) == m, "pop-differs", "pop gave {:?} instead of {m:?}", got.as_ref().map(|t| t.id()));
                drop(got);
            }
            8 if !slots.is_empty() => {
                let s = &mut slots[i];
                maybe_bomb(s.model.len());
                let (r, _) = env.call(|| s.v.clear());
                s.model.clear();
                what = format!("clear {i}: panicked {}", r.is_err());
            }
            9 if !slots.is_empty() => {
                let s = &mut slots[i];
                let add = match choose(10) {
                    0 => usize::MAX - below(20),
                    1 => isize::MAX as usize / size_of::<T>().max(1) - below(2),
                    _ => size(40),
                };
                let (r, _) = env.call(|| s.v.reserve(add));
                what = format!("reserve {add} in {i}: {r:?}");
                if let Ok(Ok(())) = r {
                    ensure!(size_of::<T>() == 0 || s.v.capacity().checked_sub(s.v.len()).map_or(false, |c| c >= add), "capacity-short", "reserve({add}) succeeded with length {} and capacity {}", s.v.len(), s.v.capacity());
                }
            }
            10 if !slots.is_empty() => {
                let s = slots.swap_remove(i);
                let (r, _) = env.call(|| {
                    let (buf, len) = s.v.into_raw_parts();
                    MVec::<T, A>::from_raw_parts(buf, len)
                });
                what = format!("raw parts round trip of {i}");
                slots.push(Slot { v: r.unwrap(), model: s.model });
            }
            11 if !slots.is_empty() => {
                let Slot { v, model } = slots.swap_remove(i);
                let cap = v.capacity();
                let (r, _) = env.call(|| v.into_std());
                match r.unwrap() {
                    Ok(v) => {
                        ensure!(A::IS_SYSTEM, "into-std", "a vector of a non-system allocator was converted");
                        what = format!("vector {i} into std");
                        ensure!(v.capacity() >= v.len(), "capacity-short", "std vector");
                        if cap != 0 && cap != usize::MAX {
                            (env.taken)(cap * size_of::<T>());
                        }
                        stds.push((v, model));
                    }
                    Err(v) => {
                        ensure!(!A::IS_SYSTEM, "into-std", "conversion of a system vector refused");
                        what = format!("vector {i} into std refused");
                        slots.push(Slot { v, model });
                    }
                }
            }
            12 => {
                let (t, id) = T::make();
                let (r, _) = env.call(|| MBox::new_in(t, alloc));
                what = format!("box token {id}: {}", matches!(&r, Ok(Ok(_))));
                match r {
                    Ok(Ok(b)) => boxes.push((b, id)),
                    Ok(Err(_)) => ensure!(env.faulty, "refused-without-reason", "box refused"),
                    Err(()) => {}
                }
            }
            13 if !boxes.is_empty() => {
                let (b, id) = boxes.swap_remove(below(boxes.len()));
                ensure!(b.id() == id, "contents-differ", "box holds {} instead of {id}", b.id());
                maybe_bomb(1);
                let (r, _) = env.call(|| drop(b));
                what = format!("drop box: panicked {}", r.is_err());
            }
            14 if !slots.is_empty() => {
                let s = slots.swap_remove(i);
                maybe_bomb(s.model.len());
                let (r, _) = env.call(|| drop(s.v));
                what = format!("drop vector {i}: panicked {}", r.is_err());
            }
            15 if slots.len() > 1 => {
                let j = below(slots.len());
                let (a, b) = (&slots[i], &slots[j]);
                let eq = a.v == b.v;
                let ord = a.v.partial_cmp(&b.v);
                ensure!(eq == (ids(&a.v) == ids(&b.v)), "compare-differs", "equality of vectors {i} and {j}");
                ensure!(ord == ids(&a.v).partial_cmp(&ids(&b.v)) || size_of::<T>() != 8, "compare-differs", "order of vectors {i} and {j}");
                what = format!("compare {i} {j}");
            }
            _ => what = "nothing".into(),
        }
        ev!("#{k} {what}");
        note(hash_bytes(what.as_bytes()));
        for (i, s) in slots.iter().enumerate() {
            check_vec(i, s, &what);
        }
        for (b, id) in &boxes {
            ensure!(b.id() == *id, "contents-differ", "after {what}: box holds {} instead of {id}", b.id());
        }
        for (v, m) in &stds {
            ensure!(&ids(v) == m, "contents-differ", "after {what}: converted std vector");
        }
        state(slots.iter().fold(1, |h, s| mix(h, mix(s.model.len() as u64, s.v.capacity().min(1 << 20) as u64))));
    }
    // everything goes, whatever order
    while !slots.is_empty() {
        let s = slots.swap_remove(below(slots.len()));
        let _ = env.call(|| drop(s.v));
    }
    let _ = env.call(move || drop(boxes));
    for (v, _) in stds {
        let _ = env.call(move || drop(v));
    }
    let r = reg();
    if let Some(i) = r.dropped.iter().position(|d| !d) {
        violate("leaked-element", format!("token {i} of {} was never dropped", r.dropped.len()));
    }
    ensure!(r.zst_made == r.zst_gone, "leaked-element", "{} zero-sized tokens made, {} dropped", r.zst_made, r.zst_gone);
}

/// Bytes and text: `Copy` elements with bulk operations.
fn text_history<A: Allocator>(alloc: A, env: &Env<'_>) {
    enum S<A: Allocator> {
        V(MVec<u16, A>, Vec<u16>),
        B(MVec<u8, A>, Vec<u8>),
        T(MString<A>, String),
    }
    let mut slots: Vec<S<A>> = Vec::new();
    let n = if st().thorough { range(1, 120) } else { range(1, 50) };
    for k in 0..n {
        step();
        let mut what = String::from("nothing");
        let i = below(slots.len().max(1));
        match choose(12) {
            8 => {
                // an empty container with room
                let c = size(30);
                let kind = choose(3);
                let (r, _) = env.call(|| {
                    Ok::<_, musli::alloc::AllocError>(match kind {
                        0 => S::V(MVec::with_capacity_in(c, alloc)?, vec![]),
                        1 => S::B(MVec::with_capacity_in(c, alloc)?, vec![]),
                        _ => S::T(MString::with_capacity_in(c, alloc)?, String::new()),
                    })
                });
                what = format!("container {kind} with room for {c}: {}", matches!(&r, Ok(Ok(_))));
                match r.unwrap() {
                    Ok(s) => {
                        let cap = match &s {
                            S::V(v, _) => v.capacity(),
                            S::B(v, _) => v.capacity(),
                            S::T(v, _) => v.capacity(),
                        };
                        ensure!(cap >= c, "capacity-short", "with_capacity_in({c}) gave {cap}");
                        slots.push(s);
                    }
                    Err(_) => ensure!(env.faulty, "refused-without-reason", "with_capacity_in({c}) refused"),
                }
            }
            9 if !slots.is_empty() => {
                let (r, cleared) = match &mut slots[i] {
                    S::V(v, m) => {
                        m.clear();
                        (env.call(|| v.clear()).0, true)
                    }
                    S::B(v, m) => {
                        m.clear();
                        (env.call(|| v.clear()).0, true)
                    }
                    S::T(..) => (Ok(()), false),
                };
                r.unwrap();
                what = format!("clear {i}: {cleared}");
            }
            10 if !slots.is_empty() => {
                let ok = match &mut slots[i] {
                    S::V(v, m) => env.call(|| v.pop()).0.unwrap() == m.pop(),
                    S::B(v, m) => env.call(|| v.pop()).0.unwrap() == m.pop(),
                    S::T(..) => true,
                };
                ensure!(ok, "pop-differs", "pop from {i}");
                what = format!("pop from {i}");
            }
            0 => slots.push(S::V(MVec::new_in(alloc), vec![])),
            1 => slots.push(S::B(MVec::new_in(alloc), vec![])),
            2 => slots.push(S::T(MString::new_in(alloc), String::new())),
            3 if slots.len() > 1 => {
                // extend one by another
                let o = slots.swap_remove(i);
                let j = below(slots.len());
                match (&mut slots[j], o) {
                    (S::V(v, m), S::V(w, n)) => {
                        let (r, _) = env.call(|| v.extend(w));
                        what = format!("extend {j} by {i}: {r:?}");
                        if let Ok(Ok(())) = r {
                            m.extend_from_slice(&n);
                        }
                    }
                    (S::B(v, m), S::B(w, n)) => {
                        let (r, _) = env.call(|| v.extend(w));
                        what = format!("extend {j} by {i}: {r:?}");
                        if let Ok(Ok(())) = r {
                            m.extend_from_slice(&n);
                        }
                    }
                    (_, o) => slots.push(o),
                }
            }
            _ if !slots.is_empty() => {
                let s = slots.swap_remove(i);
                let s = match s {
                    S::V(mut v, mut m) => {
                        let xs: Vec<u16> = (0..size(50)).map(|_| choose(0) as u16).collect();
                        let (r, _) = env.call(|| v.extend_from_slice(&xs));
                        what = format!("extend_from_slice {i} by {}: {r:?}", xs.len());
                        if let Ok(Ok(())) = r {
                            m.extend_from_slice(&xs);
                        }
                        S::V(v, m)
                    }
                    S::B(mut v, mut m) => match choose(4) {
                        0 => {
                            // text or not?
                            let valid = std::str::from_utf8(&m).is_ok();
                            let (r, _) = env.call(|| MString::from_utf8(v));
                            what = format!("from_utf8 {i}: {valid}");
                            match r.unwrap() {
                                Ok(s) => {
                                    ensure!(valid, "utf8", "invalid text accepted: {}", hex(&m));
                                    S::T(s, String::from_utf8(m).unwrap())
                                }
                                Err(e) => {
                                    ensure!(!valid, "utf8", "valid text refused: {}", hex(&m));
                                    ensure!(e.as_bytes() == &m[..], "contents-differ", "bytes of a utf-8 error");
                                    S::B(e.into_bytes(), m)
                                }
                            }
                        }
                        1 => {
                            let c = size(300);
                            let (r, _) = env.call(|| write!(v, "{c:>0$}", c % 40));
                            what = format!("write! to {i}: {r:?}");
                            let text = format!("{c:>0$}", c % 40);
                            match r.unwrap() {
                                Ok(()) => m.extend_from_slice(text.as_bytes()),
                                Err(_) => {
                                    // pieces already written stay, in order
                                    let extra = v.len().checked_sub(m.len());
                                    ensure!(extra.map_or(false, |e| e <= text.len() && v[..m.len()] == m[..] && v[m.len()..] == text.as_bytes()[..e]), "contents-differ", "failed write! to vector {i}");
                                    m = v.as_slice().to_vec();
                                }
                            }
                            S::B(v, m)
                        }
                        _ => {
                            let xs: Vec<u8> = (0..size(30)).map(|_| if chance(1, 30) { choose(256) as u8 } else { b'a' + choose(26) as u8 }).collect();
                            let (r, _) = env.call(|| v.extend_from_slice(&xs));
                            what = format!("extend_from_slice {i} by {}: {r:?}", xs.len());
                            if let Ok(Ok(())) = r {
                                m.extend_from_slice(&xs);
                            }
                            S::B(v, m)
                        }
                    },
                    S::T(mut s, mut m) => match choose(6) {
                        0 => {
                            what = format!("into_bytes {i}");
                            S::B(s.into_bytes(), m.into_bytes())
                        }
                        1 => {
                            let cap = s.capacity();
                            let (r, _) = env.call(|| s.into_std());
                            match r.unwrap() {
                                Ok(t) => {
                                    ensure!(A::IS_SYSTEM && t == m, "contents-differ", "string into std: {t:?} for {m:?}");
                                    if cap != 0 {
                                        (env.taken)(cap);
                                    }
                                    let _ = env.call(move || drop(t));
                                    what = format!("string {i} into std");
                                    S::T(MString::new_in(alloc), String::new())
                                }
                                Err(s) => {
                                    ensure!(!A::IS_SYSTEM, "into-std", "conversion of a system string refused");
                                    S::T(s, m)
                                }
                            }
                        }
                        2 | 3 => {
                            let c = *pick(&['a', 'é', '\u{0}', '漢', '🦀', '\u{10ffff}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}']);
                            let (r, _) = env.call(|| s.push(c));
                            what = format!("push {c:?} to {i}: {r:?}");
                            if let Ok(Ok(())) = r {
                                m.push(c);
                            }
                            S::T(s, m)
                        }
                        _ => {
                            let t: String = (0..size(20)).map(|_| *pick(&['x', 'ü', '界', '🙂'])).collect();
                            let (r, _) = env.call(|| s.push_str(&t));
                            what = format!("push_str {} bytes to {i}: {r:?}", t.len());
                            if let Ok(Ok(())) = r {
                                m.push_str(&t);
                            }
                            S::T(s, m)
                        }
                    },
                };
                slots.push(s);
            }
            _ => {}
        }
        ev!("#{k} {what}");
        note(hash_bytes(what.as_bytes()));
        for (i, s) in slots.iter().enumerate() {
            let ok = match s {
                S::V(v, m) => v.as_slice() == &m[..] && v.capacity() >= v.len() && *v == m[..],
                S::B(v, m) => v.as_slice() == &m[..] && v.capacity() >= v.len() && v.len() == m.len(),
                S::T(v, m) => v.as_str() == &m[..] && v.len() == m.len() && v.is_empty() == m.is_empty() && *v == m[..],
            };
            ensure!(ok, "contents-differ", "after {what}: container {i} differs from its model");
        }
        state(slots.iter().fold(2, |h, s| {
            mix(
                h,
                match s {
                    S::V(_, m) => m.len() as u64,
                    S::B(_, m) => m.len() as u64 | 1 << 32,
                    S::T(_, m) => m.len() as u64 | 2 << 32,
                },
            )
        }));
        if slots.len() > 8 {
            let s = slots.swap_remove(below(slots.len()));
            let _ = env.call(|| drop(s));
        }
    }
    let _ = env.call(move || drop(slots));
}

/// System vectors made from std ones, and back.
fn std_exchange(env: &Env<'_>) {
    let n = size(12);
    let extra = size(10);
    let mut model = Vec::new();
    let (r, _) = env.call(|| {
        galloc::fail_off();
        let mut v: Vec<Tok> = Vec::with_capacity(n + extra);
        for _ in 0..n {
            let (t, id) = Tok::make();
            v.push(t);
            let _g = galloc::track(false);
            model.push(id);
        }
        MVec::<Tok, System>::from(v)
    });
    let mut v = r.unwrap();
    ensure!(ids(&v) == model, "contents-differ", "vector made from a std vector");
    for _ in 0..size(20) {
        let (t, id) = Tok::make();
        let (r, _) = env.call(|| v.push(t));
        if let Ok(Ok(())) = r {
            model.push(id);
        }
        ensure!(ids(&v) == model, "contents-differ", "vector made from a std vector, after a push");
    }
    let (r, _) = env.call(|| v.into_std().map_err(|_| ()));
    let v = r.unwrap().unwrap();
    ensure!(ids(&v) == model, "contents-differ", "vector returned to std");
    let _ = env.call(move || drop(v));
    let s: String = (0..size(30)).map(|_| *pick(&['x', 'ü', '界', '🙂'])).collect();
    let m = s.clone();
    let (r, _) = env.call(move || {
        galloc::fail_off();
        MString::<System>::from(s.clone())
    });
    let t = r.unwrap();
    ensure!(t.as_str() == m, "contents-differ", "string made from a std string");
    let (r, _) = env.call(|| t.into_std().map_err(|_| ()));
    ensure!(r.unwrap().unwrap() == m, "contents-differ", "string returned to std");
    let r = reg();
    if let Some(i) = r.dropped.iter().position(|d| !d) {
        violate("leaked-element", format!("token {i} of {} was never dropped", r.dropped.len()));
    }
}

fn any_history<A: Allocator>(alloc: A, env: &Env<'_>) {
    match choose(6) {
        0 | 1 => vec_history::<Tok, A>(alloc, env),
        2 => vec_history::<TokZ, A>(alloc, env),
        3 => vec_history::<TokWide, A>(alloc, env),
        4 => vec_history::<TokBig, A>(alloc, env),
        _ => text_history(alloc, env),
    }
}

fn policy() -> Policy {
    match choose(5) {
        0 => Policy::Never,
        1 => Policy::At(choose(20), 1 + choose(3)),
        2 => Policy::From(choose(30)),
        3 => Policy::OneIn(2 + choose(8)),
        _ => Policy::Budget(size(3000)),
    }
}

fn with_fault<const SYS: bool>() {
    let a = FaultAlloc::<SYS>::new();
    a.slack.set(chance(1, 2));
    let p = policy();
    a.set(p);
    ev!("fault-injecting allocator (system-backed {SYS}), policy {p:?}");
    let env = Env {
        arm: &|| (),
        disarm: &|| 0,
        taken: &|n| {
            a.live.set(a.live.get() - 1);
            a.live_bytes.set(a.live_bytes.get() - n as i64);
        },
        faulty: p != Policy::Never,
    };
    // huge requests are refused whatever the policy
    let env = Env { faulty: true, ..env };
    any_history(&a, &env);
    ensure!(a.live.get() == 0 && a.live_bytes.get() == 0, "leaked-allocation", "{} allocations of {} bytes were not returned", a.live.get(), a.live_bytes.get());
}

pub fn c11() {
    let r = reg();
    {
        let _g = galloc::track(false);
        r.dropped.clear();
    }
    r.zst_made = 0;
    r.zst_gone = 0;
    r.bomb = 0;
    nontrivial();
    // callers ask for absurd capacities
    galloc::huge_ok(true);
    match choose(5) {
        0 => with_fault::<false>(),
        1 => with_fault::<true>(),
        2 => {
            let len = range(0, 4000);
            let off = below(17);
            let mut mem = Guarded::new(len + off);
            ev!("arena of {len} bytes misaligned by {off}");
            {
                let s = unsafe { core::slice::from_raw_parts_mut(mem.slice(off, len).as_mut_ptr().cast::<core::mem::MaybeUninit<u8>>(), len) };
                let a = Slice::new(s);
                let env = Env { arm: &|| (), disarm: &|| 0, taken: &|_| (), faulty: true };
                any_history(&a, &env);
            }
        }
        _ => {
            // the system allocator over a heap that refuses requests
            let faulty = chance(2, 3);
            let den = 2 + choose(6);
            let env = Env {
                arm: &|| {
                    if faulty && chance(1, den) {
                        galloc::fail_at(1, choose(2));
                    }
                },
                disarm: &|| {
                    galloc::fail_off();
                    0
                },
                taken: &|_| (),
                faulty: true,
            };
            ev!("system allocator, heap faults {faulty} (1 in {den} operations)");
            let before = galloc::live();
            let fired = galloc::FAILS_FIRED.load(std::sync::atomic::Ordering::Relaxed);
            if chance(1, 4) {
                std_exchange(&env);
            } else {
                any_history(System::new(), &env);
            }
            let after = galloc::live();
            for _ in fired..galloc::FAILS_FIRED.load(std::sync::atomic::Ordering::Relaxed) {
                fault("heap request refused");
            }
            ensure!(before == after, "leaked-allocation", "{} blocks of {} bytes were not returned to the heap", after.0 - before.0, after.1 - before.1);
        }
    }
    let _ = <MVec<u8, System>>::raw;
    let _ = Alloc::<u8>::capacity(MVec::<u8, System>::new_in(System::new()).raw());
}
