//! C17: sessions that run at the same time, on threads of which one runs at a
//! time: who runs next is decided at every call into the context, the
//! allocator, the device and the message's own code.
use crate::dynx::*;
use crate::falloc::Policy;
use crate::fmt::*;
use crate::gen::{self, Gen};
use crate::rt::{pick_fmt, pick_rd, pick_shape};
use crate::types::*;
use musli::alloc::{Allocator, Slice};
use musli::writer::BufWriter;
use musli::{Decode, Decoder, Encode, Encoder, FixedBytes};
use simcore::*;
use std::any::Any;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::thread::Thread;

/// What an element says while it is encoded or decoded: its own code is a place to pause at.
#[derive(Debug, PartialEq)]
pub struct Y<T>(pub T);
impl<M, T: Encode<M>> Encode<M> for Y<T> {
    type Encode = Self;
    const IS_BITWISE_ENCODE: bool = false;
    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        pause();
        let r = e.encode(&self.0);
        pause();
        r
    }
    fn as_encode(&self) -> &Self {
        self
    }
}
impl<'de, M, A: Allocator, T: Decode<'de, M, A>> Decode<'de, M, A> for Y<T> {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        pause();
        let r = d.decode();
        pause();
        Ok(Y(r?))
    }
}
impl<T: Gen> Gen for Y<T> {
    fn gen() -> Self {
        Y(T::gen())
    }
}
#[derive(Debug, PartialEq, Encode, Decode)]
pub struct Own {
    a: Y<u32>,
    s: Y<String>,
    v: Vec<Y<u16>>,
    #[musli(bytes)]
    b: Vec<u8>,
    t: (Y<bool>, Y<i64>),
    n: Vec<(Y<u8>, String)>,
}
crate::gen_struct!(Own { a, s, v, b, t, n });

/// The plain functions of the library, which bring their own context.
#[derive(Clone, Copy, Debug)]
enum Api {
    Packed,
    Storage,
    Wire,
    Descriptive,
    Json,
    Value,
}
const APIS: [Api; 6] = [Api::Packed, Api::Storage, Api::Wire, Api::Descriptive, Api::Json, Api::Value];
const ROOM: usize = 256;

fn api_encode(api: Api, way: u64, room: usize, v: &Own) -> Result<Vec<u8>, String> {
    macro_rules! ways {
        ($m:ident) => {
            match way {
                0 => musli::$m::to_vec(v).map_err(|e| e.to_string()),
                1 => musli::$m::to_fixed_bytes::<ROOM, _>(v).map(|b| b.as_slice().to_vec()).map_err(|e| e.to_string()),
                2 => {
                    let mut o = Vec::new();
                    musli::$m::to_writer(&mut o, v).map(|_| o).map_err(|e| e.to_string())
                }
                3 => {
                    let mut o = vec![0u8; room];
                    musli::$m::to_slice(&mut o, v).map(|n| o[..n].to_vec()).map_err(|e| e.to_string())
                }
                _ => {
                    let mut o = Vec::new();
                    musli::$m::encode(&mut o, v).map(|_| o).map_err(|e| e.to_string())
                }
            }
        };
    }
    match api {
        Api::Packed => ways!(packed),
        Api::Storage => ways!(storage),
        Api::Wire => ways!(wire),
        Api::Descriptive => ways!(descriptive),
        Api::Json if way == 5 => musli::json::to_string(v).map(|s| s.into_bytes()).map_err(|e| e.to_string()),
        Api::Json => ways!(json),
        Api::Value => musli::value::encode(v).map(|v| format!("{v:?}").into_bytes()).map_err(|e| e.to_string()),
    }
}
fn api_decode(api: Api, way: u64, b: &[u8], v: &Own) -> Result<Own, String> {
    macro_rules! ways {
        ($m:ident) => {
            match way {
                0 => musli::$m::from_slice(b).map_err(|e| e.to_string()),
                _ => musli::$m::decode(b).map_err(|e| e.to_string()),
            }
        };
    }
    match api {
        Api::Packed => ways!(packed),
        Api::Storage => ways!(storage),
        Api::Wire => ways!(wire),
        Api::Descriptive => ways!(descriptive),
        Api::Json if way == 2 => match std::str::from_utf8(b) {
            Ok(s) => musli::json::from_str(s).map_err(|e| e.to_string()),
            Err(_) => Err("not text".into()),
        },
        Api::Json => ways!(json),
        Api::Value => musli::value::encode(v).and_then(|v| musli::value::decode(&v)).map_err(|e| e.to_string()),
    }
}

enum Dest {
    Vec,
    Io(IoPlan),
    Slice(usize),
    Buf,
    Fixed,
}
enum Kind {
    Enc { sh: &'static dyn Shape, f: Fmt, v: Box<dyn Any>, dest: Dest },
    Dec { sh: &'static dyn Shape, f: Fmt, rd: Rd, bytes: Vec<u8> },
    ApiEnc { api: Api, way: u64, room: usize, v: Own },
    ApiDec { api: Api, way: u64, bytes: Vec<u8>, v: Own },
}
struct Op {
    kind: Kind,
    policy: Policy,
    /// Abandoned at this pause.
    abandon: Option<u64>,
}
#[derive(Debug, PartialEq, Clone)]
struct Outcome {
    how: &'static str,
    bytes: Vec<u8>,
    said: String,
}

/// Memory of a session, by kind: its own allocator, the shared arena, the system's.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Mem {
    Own { slack: bool },
    Arena,
    System,
}
struct Session {
    id: usize,
    mem: Mem,
    ops: Vec<Op>,
    alone: Vec<Outcome>,
    together: Vec<Outcome>,
}

/// What the running thread is doing.
struct Me {
    id: usize,
    paused: u64,
    abandon: Option<u64>,
    together: bool,
    nested: bool,
}
thread_local! {
    static ME: core::cell::UnsafeCell<Me> = const { core::cell::UnsafeCell::new(Me { id: 0, paused: 0, abandon: None, together: false, nested: false }) };
}
fn me() -> &'static mut Me {
    ME.with(|m| unsafe { &mut *m.get() })
}

const MAIN: usize = usize::MAX;
struct Sched {
    turn: AtomicUsize,
    threads: Vec<Thread>,
    main: Option<Thread>,
    alive: Vec<usize>,
    /// One pause in this many hands over.
    every: u64,
    trail: u64,
    switches: u64,
    spare: Vec<(Op, Outcome)>,
    stopped: Option<Box<dyn Any + Send>>,
}
static mut SCHED: *mut Sched = core::ptr::null_mut();
fn sched() -> &'static mut Sched {
    unsafe { &mut *SCHED }
}

fn hand_over(to: usize) {
    let s = sched();
    s.turn.store(to, SeqCst);
    if to == MAIN {
        s.main.as_ref().unwrap().unpark();
    } else {
        s.threads[to].unpark();
    }
}
fn wait_turn(id: usize) {
    while sched().turn.load(SeqCst) != id {
        std::thread::park();
    }
}

/// A place at which another session may go on, or at which this one is abandoned.
fn pause() {
    let m = me();
    m.paused += 1;
    if m.abandon == Some(m.paused) && !std::thread::panicking() {
        m.abandon = None;
        fault("session abandoned");
        std::panic::panic_any(Injected);
    }
    if !m.together || m.nested || std::thread::panicking() {
        return;
    }
    let _g = galloc::track(false);
    let s = sched();
    if s.alive.len() > 1 && chance(1, s.every) {
        let to = *pick(&s.alive);
        if to != m.id {
            s.switches += 1;
            s.trail = mix(s.trail, (m.id * 16 + to) as u64);
            hand_over(to);
            wait_turn(m.id);
            galloc::track_set(false);
        }
    }
    if !s.spare.is_empty() && chance(1, 40) {
        // user code in the middle of an operation runs another, start to end
        let k = below(s.spare.len());
        let (abandon, paused) = (m.abandon, m.paused);
        m.nested = true;
        m.abandon = None;
        let (op, want) = &s.spare[k];
        let mem = Mem::System;
        let got = galloc::untracked(|| run_ops(mem, None, std::slice::from_ref(op)).pop().unwrap());
        same("nested in another", m.id, op, want, &got);
        probe("operation nested in another");
        let m = me();
        m.nested = false;
        m.abandon = abandon;
        m.paused = paused;
    }
}

fn show(op: &Op) -> String {
    match &op.kind {
        Kind::Enc { sh, f, v, .. } => format!("encode {} {f:?} {:.300}", sh.name(), sh.show(&**v)),
        Kind::Dec { sh, f, rd, bytes } => format!("decode {} {f:?} {rd:?} {}", sh.name(), hex(bytes)),
        Kind::ApiEnc { api, way, v, .. } => format!("{api:?} plain encode way {way} {v:.300?}"),
        Kind::ApiDec { api, way, bytes, .. } => format!("{api:?} plain decode way {way} {}", hex(bytes)),
    }
}
fn same(how: &str, id: usize, op: &Op, want: &Outcome, got: &Outcome) {
    if want != got {
        violate(
            "session-disturbed",
            format!(
                "session {id} {how}: {} with {:?} abandoned at {:?}: {} {} {:.1500} but alone {} {} {:.1500}",
                show(op),
                op.policy,
                op.abandon,
                got.how,
                hex(&got.bytes),
                got.said,
                want.how,
                hex(&want.bytes),
                want.said
            ),
        );
    }
}

fn perform(cx: Cx, da: Da, op: &Op) -> Outcome {
    let mut out = Vec::new();
    let r = match &op.kind {
        Kind::Enc { sh, f, v, dest } => match dest {
            Dest::Vec => {
                let r = guard("encode", || sh.enc(*f, cx, &mut W::Vec(&mut out), &**v));
                r.map(|r| r.map(|_| String::new()))
            }
            Dest::Io(plan) => {
                let mut io = SimIo::new(*plan);
                let r = guard("encode", || sh.enc(*f, cx, &mut W::io(&mut io), &**v));
                out = io.data;
                r.map(|r| r.map(|_| String::new()))
            }
            Dest::Slice(n) => {
                let mut mem = vec![0xA5; *n];
                let r = guard("encode", || sh.enc(*f, cx, &mut W::slice(&mut mem), &**v));
                out = mem;
                r.map(|r| r.map(|left| format!("{left:?}")))
            }
            Dest::Buf => {
                let mut b = BufWriter::new(da);
                let r = guard("encode", || sh.enc(*f, cx, &mut W::Buf(&mut b), &**v));
                out = b.into_inner().as_slice().to_vec();
                r.map(|r| r.map(|_| String::new()))
            }
            Dest::Fixed => {
                let mut b = FixedBytes::<FIXED>::new();
                let r = guard("encode", || sh.enc(*f, cx, &mut W::Fixed(&mut b), &**v));
                out = b.as_slice().to_vec();
                r.map(|r| r.map(|_| String::new()))
            }
        },
        Kind::Dec { sh, f, rd, bytes } => {
            let mut input: &[u8] = bytes;
            let r = guard("decode", || sh.dec(*f, *rd, cx, &mut input));
            out = (input.len() as u64).to_le_bytes().to_vec();
            r.map(|r| r.map(|v| galloc::untracked(|| sh.show(&*v))))
        }
        Kind::ApiEnc { api, way, room, v } => {
            let r = guard("encode", || api_encode(*api, *way, *room, v));
            match r {
                Ok(Ok(b)) => {
                    out = b;
                    Ok(Ok(String::new()))
                }
                Ok(Err(e)) => return Outcome { how: "failed", bytes: out, said: e },
                Err(i) => Err(i),
            }
        }
        Kind::ApiDec { api, way, bytes, v } => {
            let r = guard("decode", || api_decode(*api, *way, bytes, v));
            match r {
                Ok(Ok(v)) => Ok(Ok(format!("{v:?}"))),
                Ok(Err(e)) => return Outcome { how: "failed", bytes: out, said: e },
                Err(i) => Err(i),
            }
        }
    };
    let plain = matches!(op.kind, Kind::ApiEnc { .. } | Kind::ApiDec { .. });
    let (error, report) = if plain { (None, String::new()) } else { (cx.error(), cx.report()) };
    match r {
        // what an abandoned operation left in its context is not looked at
        Err(Injected) => Outcome { how: "abandoned", bytes: out, said: String::new() },
        Ok(Ok(s)) => Outcome { how: "done", bytes: out, said: format!("{s} {error:?}") },
        Ok(Err(())) => Outcome { how: "failed", bytes: out, said: format!("{error:?} {report}") },
    }
}

/// Run the operations of a session, one after another, on one context.
fn run_ops(mem: Mem, arena: Option<&'static Slice<'static>>, ops: &[Op]) -> Vec<Outcome> {
    let mut fa = None;
    let da = match mem {
        Mem::Own { slack } => {
            let b = Box::into_raw(Box::new(Fa::new()));
            unsafe { (*b).slack.set(slack) };
            unsafe { (*b).yields.set(Some(pause)) };
            fa = Some(b);
            Da::F(unsafe { &*b })
        }
        Mem::Arena => Da::S(arena.unwrap()),
        Mem::System => Da::Sys,
    };
    let own = OwnCx::yielding(da);
    let mut r = Vec::new();
    for op in ops {
        let m = me();
        m.paused = 0;
        m.abandon = op.abandon;
        if let Some(f) = fa {
            unsafe { (*f).set(op.policy) };
        }
        let old = YIELD.replace(Some(pause));
        let o = perform(own.cx, da, op);
        YIELD.set(old);
        let m = me();
        m.abandon = None;
        if let Some(f) = fa {
            unsafe { (*f).set(Policy::Never) };
        }
        r.push(o);
        step();
    }
    // what is said in the end belongs to nobody else
    let m = me();
    let together = core::mem::replace(&mut m.together, false);
    drop(own);
    me().together = together;
    if let Some(f) = fa {
        let (l, b) = unsafe { ((*f).live.get(), (*f).live_bytes.get()) };
        ensure!(l == 0, "allocator-leak", "a session left {l} allocations ({b} bytes)");
        drop(unsafe { Box::from_raw(f) });
    }
    r
}

fn gen_op(mem: Mem, small: bool) -> Op {
    let policy = match mem {
        Mem::Own { .. } => match choose(6) {
            0 => Policy::At(choose(30), 1 + choose(3)),
            1 => Policy::From(choose(40)),
            _ => Policy::Never,
        },
        _ => Policy::Never,
    };
    let abandon = if chance(1, 6) { Some(1 + choose(*pick(&[4, 20, 120]))) } else { None };
    let damage = |b: &mut Vec<u8>| {
        if !b.is_empty() && chance(1, 3) {
            match choose(3) {
                0 => b.truncate(below(b.len())),
                1 => {
                    let i = below(b.len());
                    b[i] ^= 1 << choose(8);
                }
                _ => {
                    let i = below(b.len());
                    b[i] = choose(256) as u8;
                }
            }
            fault("message damaged");
        }
    };
    if choose(4) == 0 {
        let api = *pick(&APIS);
        gen::reset(Json);
        gen::ENV.fuel.set(12);
        let v = Own::gen();
        let kind = if choose(2) == 0 {
            let way = choose(if matches!(api, Api::Json) { 6 } else { 5 });
            Kind::ApiEnc { api, way, room: *pick(&[0, 3, 20, 100, 4000]), v }
        } else {
            let mut bytes = api_encode(api, 0, 0, &v).unwrap_or_default();
            damage(&mut bytes);
            Kind::ApiDec { api, way: choose(if matches!(api, Api::Json) { 3 } else { 2 }), bytes, v }
        };
        return Op { kind, policy: Policy::Never, abandon };
    }
    loop {
        let sh = pick_shape(M_ALL);
        // elements of no size are C07's: damaged counts of them are walked one by one
        if sh.finding().is_some() || sh.name() == "Units" {
            continue;
        }
        let f = pick_fmt(sh, M_ALL);
        gen::reset(f);
        if small {
            gen::ENV.fuel.set(12);
            gen::ENV.long.set(false);
        }
        let v = sh.gen();
        let mut bytes = Vec::new();
        let plain = OwnCx::new(Da::Sys, false, false);
        if sh.enc(f, plain.cx, &mut W::Vec(&mut bytes), &*v).is_err() {
            violate("encode-refused", format!("{} {f:?}: {:?}", sh.name(), plain.cx.error()));
        }
        if bytes.len() > 4000 {
            continue;
        }
        let kind = if choose(2) == 0 {
            let n = bytes.len();
            let at = below(n + 1);
            let dest = match choose(7) {
                0 => Dest::Vec,
                1 => Dest::Io(IoPlan::Good),
                2 => Dest::Io(*pick(&[IoPlan::FailAt(at, std::io::ErrorKind::StorageFull), IoPlan::FullAt(at), IoPlan::GlitchAt(at, std::io::ErrorKind::WouldBlock)])),
                3 => Dest::Slice(at),
                4 => Dest::Slice(n + below(9)),
                5 => Dest::Buf,
                _ => Dest::Fixed,
            };
            Kind::Enc { sh, f, v, dest }
        } else {
            damage(&mut bytes);
            Kind::Dec { sh, f, rd: pick_rd(sh, f), bytes }
        };
        return Op { kind, policy, abandon };
    }
}

struct Ptr<T>(*mut T);
unsafe impl<T> Send for Ptr<T> {}
impl<T> Ptr<T> {
    fn get(&self) -> *mut T {
        self.0
    }
}

const ARENA: usize = 4 << 20;
static mut MEMORY: *mut u8 = core::ptr::null_mut();

fn alone(sessions: &mut [Session], arena: Option<&'static Slice<'static>>) {
    for s in sessions {
        s.alone = run_ops(s.mem, arena, &s.ops);
    }
}

pub fn c17() {
    let count = range(2, 5);
    let with_arena = choose(2) == 1;
    let mut arena: Option<&'static Slice<'static>> = None;
    let mut held = None;
    if with_arena {
        unsafe {
            if MEMORY.is_null() {
                MEMORY = sys::shared_map(ARENA);
            }
            let b = Box::into_raw(Box::new(Slice::new(core::slice::from_raw_parts_mut(MEMORY, ARENA))));
            held = Some(b);
            arena = Some(&*b);
        }
    }
    let mut sessions: Vec<Session> = (0..count)
        .map(|id| {
            let mem = match choose(4) {
                0 | 1 if with_arena => Mem::Arena,
                3 => Mem::System,
                _ => Mem::Own { slack: choose(2) == 1 },
            };
            let ops = (0..range(1, 4)).map(|_| gen_op(mem, with_arena)).collect();
            Session { id, mem, ops, alone: Vec::new(), together: Vec::new() }
        })
        .collect();
    let spare = (0..choose(3))
        .map(|_| {
            let mut op = gen_op(Mem::System, true);
            op.abandon = None;
            let o = run_ops(Mem::System, None, std::slice::from_ref(&op)).pop().unwrap();
            (op, o)
        })
        .collect();
    for s in &sessions {
        ev!("session {} in {:?}", s.id, s.mem);
        for op in &s.ops {
            ev!("  {} with {:?}, abandoned at {:?}", show(op), op.policy, op.abandon);
        }
    }
    let before = choose(2) == 1;
    if before {
        alone(&mut sessions, arena);
    }
    let mut sc = Box::new(Sched {
        turn: AtomicUsize::new(MAIN),
        threads: Vec::new(),
        main: Some(std::thread::current()),
        alive: (0..count).collect(),
        every: *pick(&[1, 2, 5, 20, 100]),
        trail: 0,
        switches: 0,
        spare,
        stopped: None,
    });
    unsafe { SCHED = &mut *sc };
    let mut joins = Vec::new();
    for id in 0..count {
        let s = Ptr(&mut sessions[id] as *mut Session);
        let a = Ptr(arena.map_or(core::ptr::null_mut(), |a| a as *const Slice<'static> as *mut Slice<'static>));
        let j = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                let s = unsafe { &mut *s.get() };
                let a = unsafe { a.get().as_ref() };
                wait_turn(s.id);
                galloc::track_set(false);
                let m = me();
                m.id = s.id;
                m.together = true;
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    s.together = run_ops(s.mem, a, &s.ops);
                }));
                me().together = false;
                let c = sched();
                c.alive.retain(|k| *k != s.id);
                if let Err(p) = r {
                    // a verdict, or the tape is full
                    c.stopped = Some(p);
                    c.alive.clear();
                }
                let next = if c.alive.is_empty() { MAIN } else { *pick(&c.alive) };
                c.trail = mix(c.trail, next as u64);
                hand_over(next);
            })
            .unwrap();
        sched().threads.push(j.thread().clone());
        joins.push(j);
    }
    let first = below(count);
    hand_over(first);
    wait_turn(MAIN);
    galloc::track_set(false);
    if let Some(p) = sc.stopped.take() {
        // whoever still waits for a turn goes no further
        core::mem::forget((sc, sessions, joins));
        std::panic::resume_unwind(p);
    }
    for j in joins {
        let _ = j.join();
    }
    let (trail, switches) = (sc.trail, sc.switches);
    unsafe { SCHED = core::ptr::null_mut() };
    if !before {
        alone(&mut sessions, arena);
    }
    for s in &sessions {
        for ((op, a), t) in s.ops.iter().zip(&s.alone).zip(&s.together) {
            same("among others", s.id, op, a, t);
            note(hash_bytes(&t.bytes));
        }
    }
    // and nothing stays behind for whoever comes later
    if choose(2) == 1 {
        let s = &sessions[below(count)];
        let again = run_ops(s.mem, arena, &s.ops);
        for ((op, a), t) in s.ops.iter().zip(&s.alone).zip(&again) {
            same("after all others", s.id, op, a, t);
        }
        probe("repeated after all others");
    }
    drop(sessions);
    drop(sc);
    if let Some(b) = held {
        drop(unsafe { Box::from_raw(b) });
    }
    check_heap("sessions");
    if switches > 0 {
        nontrivial();
        probe("sessions interleaved");
    }
    note(trail);
    state(trail);
    advance_time(switches);
}
