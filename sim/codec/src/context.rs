//! C10: contexts that outlive failures, tracing that stays out of the way,
//! and locations that tell the truth.
use crate::dynx::*;
use crate::falloc::Policy;
use crate::fmt::*;
use crate::gen::{self, Gen};
use crate::gen_struct;
use crate::rt::*;
use crate::types::*;
use musli::{Allocator, Context, Decode, Decoder, Encode, Encoder};
use simcore::*;
use std::any::Any;
use std::cell::Cell;
use std::collections::{BTreeMap, VecDeque};
use std::io::ErrorKind;

/// Something a node does with a context.
struct Op {
    sh: &'static dyn Shape,
    f: Fmt,
    v: Box<dyn Any>,
    bytes: Vec<u8>,
    rd: Rd,
    /// `None` decodes, otherwise encodes to: 0 vector, 1 device, 2 slice.
    dest: Option<(u64, usize)>,
}

#[derive(PartialEq, Debug)]
struct Outcome {
    ok: bool,
    got: String,
    error: Option<String>,
    report: String,
}

fn make_op() -> Op {
    let sh = loop {
        let s = pick_shape(M_ALL);
        if s.finding().is_none() && !s.unordered() && s.name() != "Units" {
            break s;
        }
    };
    let f = pick_fmt(sh, M_ALL);
    gen::reset(f);
    let v = sh.gen();
    let site = Site::kind(2, false, false);
    let bytes = match encode_vec(sh, f, site.cx(), &*v) {
        Ok(b) => b,
        Err(()) => violate("encode-refused", format!("{} {f:?}: {:?}; value {}", sh.name(), site.cx().error(), sh.show(&*v))),
    };
    site.close("encode");
    let rd = pick_rd(sh, f);
    let mut op = Op { sh, f, v, bytes, rd, dest: None };
    match choose(5) {
        0 => op.dest = Some((choose(3), below(op.bytes.len() + 4))),
        1 => (),
        _ => {
            // a message that does not decode, or decodes as something else
            match choose(4) {
                0 => {
                    let n = below(op.bytes.len() + 1);
                    op.bytes.truncate(n);
                    fault("truncated");
                }
                1 | 2 if !op.bytes.is_empty() => {
                    let i = below(op.bytes.len());
                    op.bytes[i] = if f.is_json() { *pick(b"{}[],:\"0a ") } else { choose(256) as u8 };
                    fault("byte overwritten");
                }
                _ => {
                    let other = pick_shape(f.bit());
                    if other.fmts() & f.bit() != 0 && !other.unordered() && other.name() != "Units" {
                        op.sh = other;
                    }
                }
            }
        }
    }
    if op.bytes.iter().filter(|b| if f.is_json() { matches!(b, b'[' | b'{') } else { matches!(**b >> 5, 3 | 4 | 7) }).count() > 400 {
        op.bytes.truncate(300);
    }
    op
}

fn perform(op: &Op, site: &Site) -> Outcome {
    let cx = site.cx();
    let mut o = Outcome { ok: false, got: String::new(), error: None, report: String::new() };
    match op.dest {
        None => {
            let mut g = sys::Guarded::new(op.bytes.len().max(1));
            let mem: &[u8] = g.place_end(&op.bytes);
            let mut input = mem;
            if let Ok(v) = guard("decode", || op.sh.dec(op.f, op.rd, cx, &mut input)).ok().unwrap() {
                o.ok = true;
                o.got = op.sh.show(&*v);
            }
        }
        Some((which, room)) => {
            o.ok = guard("encode", || match which {
                0 => {
                    let mut b = Vec::new();
                    let r = op.sh.enc(op.f, cx, &mut W::Vec(&mut b), &*op.v).is_ok();
                    o.got = hex(&b);
                    r
                }
                1 => {
                    let mut io = SimIo::new(if room % 2 == 0 { IoPlan::FailAt(room, ErrorKind::Other) } else { IoPlan::FullAt(room) });
                    let r = op.sh.enc(op.f, cx, &mut W::io(&mut io), &*op.v).is_ok();
                    o.got = hex(&io.data);
                    r
                }
                _ => {
                    let mut b = vec![0u8; room];
                    let r = op.sh.enc(op.f, cx, &mut W::slice(&mut b), &*op.v).is_ok();
                    o.got = hex(&b);
                    r
                }
            })
            .ok()
            .unwrap();
        }
    }
    o.report = guard("report", || cx.report()).ok().unwrap();
    o.error = cx.error();
    o
}

fn show(op: &Op) -> String {
    match op.dest {
        None => format!("decode {} {:?} {:?} {}", op.sh.name(), op.f, op.rd, hex(&op.bytes)),
        Some((w, n)) => format!("encode {} {:?} to {} with room for {n}", op.sh.name(), op.f, ["a vector", "a device", "a slice"][w as usize]),
    }
}

/// One context used for everything against a new one for each operation.
fn reuse() {
    let (kind, traced, types) = (choose(3), choose(2) == 1, choose(2) == 1);
    let old = Site::kind(kind, traced, types);
    for _ in 0..range(2, 7) {
        let op = make_op();
        let starved = kind == 0 && choose(4) == 0;
        if starved {
            // fails wherever memory runs out; what follows must not notice
            let p = crate::faults::policy(1 + choose(12));
            ev!("with {p:?}: {}", show(&op));
            old.fa().set(p);
            let o = perform(&op, &old);
            note(o.ok as u64);
            old.fa().set(Policy::Never);
        } else {
            ev!("{}", show(&op));
            let a = perform(&op, &old);
            let new = Site::kind(kind, traced, types);
            let b = perform(&op, &new);
            new.close("operation");
            note(hash_bytes(a.report.as_bytes()));
            note(a.ok as u64);
            ensure!(a == b, "reused-context-differs", "{}: a context used before gives {a:?}, a new one {b:?}", show(&op));
            state(mix(hash_bytes(op.sh.name().as_bytes()), mix(op.f as u64, a.ok as u64)));
        }
        if choose(2) == 0 {
            guard("clear", || old.cx().clear()).ok().unwrap();
            ensure!(old.cx().error().is_none() && old.cx().report().is_empty(), "clear-leaves-errors", "after clear the context reports {:?} {:?}", old.cx().error(), old.cx().report());
        }
        step();
    }
    old.close("all operations");
}

/// The same operation with tracing and without.
fn neutral() {
    let op = make_op();
    ev!("{}", show(&op));
    let kind = choose(3);
    let plain = Site::kind(kind, false, false);
    let a = perform(&op, &plain);
    let requests = if kind == 0 { plain.fa().requests.get() } else { 1 };
    plain.close("operation");
    for types in [false, true] {
        let t = Site::kind(kind, true, types);
        let b = perform(&op, &t);
        t.close("operation");
        ensure!((a.ok, &a.got, &a.error) == (b.ok, &b.got, &b.error), "tracing-changed-outcome", "{}: {a:?} without tracing, {b:?} with tracing (types: {types})", show(&op));
        note(hash_bytes(b.report.as_bytes()));
        locations(&op, &b);
        step();
    }
    if requests == 0 {
        // the operation needs no memory of its own: refuse what tracing asks for
        for _ in 0..3 {
            let t = Site::fault(true);
            let p = crate::faults::policy(12);
            t.fa().set(p);
            let b = perform(&op, &t);
            ev!("with {p:?}: ok={} {:?}", b.ok, b.report);
            ensure!((a.ok, &a.got, &a.error) == (b.ok, &b.got, &b.error), "tracing-changed-outcome", "{}: {a:?} without tracing, {b:?} with tracing refused memory", show(&op));
            t.fa().set(Policy::Never);
            // memory is back
            let b = perform(&op, &t);
            let new = Site::fault(true);
            t.close("operation");
            let c = perform(&op, &new);
            new.close("operation");
            ensure!((b.ok, &b.got, &b.error) == (c.ok, &c.got, &c.error), "reused-context-differs", "{}: after refused memory {b:?}, a new one {c:?}", show(&op));
            step();
        }
        probe("tracing starved of memory");
    }
    state(mix(hash_bytes(op.sh.name().as_bytes()), mix(op.f as u64, a.ok as u64)));
}

/// Byte positions of a report lie within the message.
fn locations(op: &Op, o: &Outcome) {
    if op.dest.is_some() {
        return;
    }
    for l in o.report.lines() {
        let Some(i) = l.rfind("(at byte") else { continue };
        let nums: Vec<usize> = l[i..].split(|c: char| !c.is_ascii_digit()).filter_map(|s| s.parse().ok()).collect();
        let (a, b) = (nums.first().copied().unwrap_or(0), nums.last().copied().unwrap_or(0));
        ensure!(a <= b && b <= op.bytes.len(), "position-outside-message", "{}: {} bytes, but {l}", show(op), op.bytes.len());
    }
}

// ---- locations ----

thread_local! {
    static NEXT: Cell<u32> = const { Cell::new(0) };
    static ARMED: Cell<u32> = const { Cell::new(u32::MAX) };
}
/// An element that refuses to be decoded or encoded when armed.
#[derive(Debug, PartialEq, PartialOrd, Eq, Ord)]
pub struct Trip(u32);
impl<M> Encode<M> for Trip {
    type Encode = Self;
    const IS_BITWISE_ENCODE: bool = false;
    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        if self.0 == ARMED.get() {
            return Err(e.cx().message("tripped"));
        }
        e.encode_u32(self.0)
    }
    fn as_encode(&self) -> &Self {
        self
    }
}
impl<'de, M, A: Allocator> Decode<'de, M, A> for Trip {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        let cx = d.cx();
        let n = d.decode_u32()?;
        if n == ARMED.get() {
            return Err(cx.message("tripped"));
        }
        Ok(Trip(n))
    }
}
impl Gen for Trip {
    fn gen() -> Self {
        let n = NEXT.get();
        NEXT.set(n + 1);
        Trip(n)
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Step {
    Struct(&'static str),
    Enum(&'static str),
    Variant(&'static str),
    Named(&'static str),
    Unnamed(u32),
    Index(usize),
    Key(String),
}
use Step::*;
type Found<'a> = &'a mut dyn FnMut(u32, &[Step]);
trait Walk {
    fn walk(&self, p: &mut Vec<Step>, f: Found);
}
fn at<T: Walk + ?Sized>(s: Step, v: &T, p: &mut Vec<Step>, f: Found) {
    p.push(s);
    v.walk(p, f);
    p.pop();
}
impl Walk for Trip {
    fn walk(&self, p: &mut Vec<Step>, f: Found) {
        f(self.0, p)
    }
}
impl Walk for u8 {
    fn walk(&self, _: &mut Vec<Step>, _: Found) {}
}
impl Walk for String {
    fn walk(&self, _: &mut Vec<Step>, _: Found) {}
}
impl<T: Walk> Walk for Option<T> {
    fn walk(&self, p: &mut Vec<Step>, f: Found) {
        if let Some(v) = self {
            v.walk(p, f)
        }
    }
}
impl<T: Walk> Walk for Box<T> {
    fn walk(&self, p: &mut Vec<Step>, f: Found) {
        (**self).walk(p, f)
    }
}
impl<T: Walk> Walk for Vec<T> {
    fn walk(&self, p: &mut Vec<Step>, f: Found) {
        for (i, v) in self.iter().enumerate() {
            at(Index(i), v, p, f);
        }
    }
}
impl<T: Walk> Walk for VecDeque<T> {
    fn walk(&self, p: &mut Vec<Step>, f: Found) {
        for (i, v) in self.iter().enumerate() {
            at(Index(i), v, p, f);
        }
    }
}
/// Keys are only traced where that is asked for.
fn walk_map<K: std::fmt::Display, V: Walk>(m: &BTreeMap<K, V>, p: &mut Vec<Step>, f: Found) {
    for (k, v) in m {
        at(Key(k.to_string()), v, p, f);
    }
}
macro_rules! walk_struct {
    ($n:ident { $($f:ident),* }) => {
        gen_struct!($n { $($f),* });
        impl Walk for $n {
            fn walk(&self, p: &mut Vec<Step>, f: Found) {
                p.push(Struct(stringify!($n)));
                $(at(Named(stringify!($f)), &self.$f, p, f);)*
                p.pop();
            }
        }
    };
}

#[derive(Debug, PartialEq, Encode, Decode)]
pub struct Place {
    first: Trip,
    list: Vec<Trip>,
    opt: Option<Trip>,
    pair: Pair,
    deep: Vec<Kind>,
    boxed: Option<Box<Inner>>,
    queue: VecDeque<Inner>,
    grid: Vec<Vec<Trip>>,
    tagged: Vec<Tagged>,
    adj: Adjacent,
    maps: Maps,
    #[musli(Text, name = "renamed")]
    last: Trip,
}
walk_struct!(Place { first, list, opt, pair, deep, boxed, queue, grid, tagged, adj, maps, last });
/// The tagged enums decode their variants out of the self-describing formats only.
#[derive(Debug, PartialEq, Encode, Decode)]
pub struct PlainPlace {
    list: Vec<Trip>,
    deep: Vec<Kind>,
    maps: Maps,
    tail: Option<Pair>,
}
walk_struct!(PlainPlace { list, deep, maps, tail });
#[derive(Debug, PartialEq, Encode, Decode)]
pub struct Inner {
    text: String,
    trip: Trip,
}
walk_struct!(Inner { text, trip });
#[derive(Debug, PartialEq, Encode, Decode)]
pub struct Pair(u8, Trip, Option<Trip>);
impl Gen for Pair {
    fn gen() -> Self {
        Pair(Gen::gen(), Gen::gen(), Gen::gen())
    }
}
impl Walk for Pair {
    fn walk(&self, p: &mut Vec<Step>, f: Found) {
        p.push(Struct("Pair"));
        at(Unnamed(0), &self.0, p, f);
        at(Unnamed(1), &self.1, p, f);
        at(Unnamed(2), &self.2, p, f);
        p.pop();
    }
}
#[derive(Debug, PartialEq, Encode, Decode)]
pub struct Maps {
    #[musli(trace)]
    names: BTreeMap<String, Trip>,
    #[musli(trace)]
    nums: BTreeMap<u32, Inner>,
}
gen_struct!(Maps { names, nums });
impl Walk for Maps {
    fn walk(&self, p: &mut Vec<Step>, f: Found) {
        p.push(Struct("Maps"));
        p.push(Named("names"));
        walk_map(&self.names, p, f);
        p.pop();
        p.push(Named("nums"));
        walk_map(&self.nums, p, f);
        p.pop();
        p.pop();
    }
}
macro_rules! walk_enum {
    ($(#[$m:meta])* $n:ident { $($v:ident { $($f:ident: $t:ty),* }),* $(; $w:ident ( $wt:ty ) )? }) => {
        #[derive(Debug, PartialEq, Encode, Decode)]
        $(#[$m])*
        pub enum $n {
            $($v { $($f: $t),* },)*
            $($w($wt),)?
        }
        impl Gen for $n {
            fn gen() -> Self {
                let mut k = 0;
                $({ let _ = stringify!($v); k += 1; })*
                $({ let _ = stringify!($w); k += 1; })?
                let mut c = choose(k);
                $(
                    if c == 0 {
                        return $n::$v { $($f: Gen::gen()),* };
                    }
                    c = c.wrapping_sub(1);
                )*
                let _ = c;
                $(return $n::$w(<$wt>::gen());)?
                #[allow(unreachable_code)]
                { unreachable!() }
            }
        }
        impl Walk for $n {
            fn walk(&self, p: &mut Vec<Step>, f: Found) {
                p.push(Enum(stringify!($n)));
                match self {
                    $($n::$v { $($f),* } => {
                        p.push(Variant(stringify!($v)));
                        $(at(Named(stringify!($f)), $f, p, f);)*
                        p.pop();
                    })*
                    $($n::$w(v) => {
                        p.push(Variant(stringify!($w)));
                        at(Unnamed(0), v, p, f);
                        p.pop();
                    })?
                }
                p.pop();
            }
        }
    };
}
walk_enum!(Kind { Nothing {}, Some { a: Trip, b: Vec<Trip> }, Other { pair: Pair, inner: Option<Inner> }; New(Trip) });
walk_enum!(#[musli(tag = "type")] Tagged { A { x: Trip, y: Vec<Trip> }, B { n: u8, z: Inner } });
walk_enum!(#[musli(tag = "t", content = "c")] Adjacent { One { x: Trip, y: Vec<Trip> }, Two { z: Option<Trip>, w: Inner } });
/// Decoded by trying one variant after the other.
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(untagged)]
pub enum Loose {
    First { name: String, deep: Vec<Leaf> },
    Second { name: String, deep: Vec<Option<Leaf>>, more: Leaf },
    Third { name: String },
}
impl Gen for Loose {
    fn gen() -> Self {
        match choose(3) {
            0 => Loose::First { name: Gen::gen(), deep: Gen::gen() },
            1 => Loose::Second { name: Gen::gen(), deep: vec![Some(Gen::gen()), None], more: Gen::gen() },
            _ => Loose::Third { name: Gen::gen() },
        }
    }
}
impl Walk for Loose {
    fn walk(&self, _: &mut Vec<Step>, _: Found) {}
}
#[derive(Debug, PartialEq, Encode, Decode)]
pub struct Leaf {
    n: u8,
}
gen_struct!(Leaf { n });
#[derive(Debug, PartialEq, Encode, Decode)]
pub struct LoosePlace {
    head: Vec<Loose>,
    first: Trip,
    list: Vec<LooseItem>,
    last: Inner,
}
walk_struct!(LoosePlace { head, first, list, last });
#[derive(Debug, PartialEq, Encode, Decode)]
pub struct LooseItem {
    loose: Loose,
    trip: Trip,
}
walk_struct!(LooseItem { loose, trip });

/// Write a path out the way reports do.
fn path_text(p: &[Step], types: bool) -> String {
    use std::fmt::Write;
    let mut s = String::new();
    let (mut ty, mut field, mut level) = (false, false, 0);
    for x in p {
        if !types && matches!(x, Struct(_) | Enum(_)) {
            continue;
        }
        match x {
            Struct(_) | Enum(_) | Variant(_) => {
                if std::mem::take(&mut field) {
                    s.push_str(" = ");
                }
            }
            _ => {
                if std::mem::take(&mut ty) {
                    s.push_str(" { ");
                    level += 1;
                }
                field = true;
            }
        }
        let _ = match x {
            Struct(n) | Variant(n) => {
                ty = true;
                write!(s, "{n}")
            }
            Enum(n) => write!(s, "{n}::"),
            Named(n) => write!(s, ".{n}"),
            Unnamed(n) => write!(s, ".{n}"),
            Index(n) => write!(s, "[{n}]"),
            Key(k) => write!(s, "[{k}]"),
        };
    }
    for _ in 0..level {
        s.push_str(" }");
    }
    s
}

fn located<T>(mask: u32, name: &str)
where
    T: 'static + Gen + Walk + PartialEq + std::fmt::Debug + Encode<musli::mode::Binary> + Encode<musli::mode::Text>,
    T: for<'de> Decode<'de, musli::mode::Binary, Da> + for<'de> Decode<'de, musli::mode::Text, Da>,
{
    let fs: Vec<Fmt> = ALL.iter().copied().filter(|f| mask & f.bit() != 0).collect();
    let f = *pick(&fs);
    gen::reset(f);
    NEXT.set(0);
    ARMED.set(u32::MAX);
    let v = T::gen();
    let n = NEXT.get();
    let site = Site::kind(2, false, false);
    let mut bytes = Vec::new();
    if enc(f, site.cx(), &mut W::Vec(&mut bytes), &v).is_err() {
        violate("encode-refused", format!("{name} {f:?}: {:?}", site.cx().error()));
    }
    site.close("encode");
    let mut live: Vec<(u32, Vec<Step>)> = Vec::new();
    v.walk(&mut Vec::new(), &mut |id, p| live.push((id, p.to_vec())));
    let _ = n;
    if live.is_empty() {
        return;
    }
    ev!("{name} {f:?}: {v:?}");
    note(hash_bytes(&bytes));
    let types = choose(2) == 1;
    let reused = Site::kind(choose(3), true, types);
    for _ in 0..range(1, 4) {
        let (id, want) = &live[below(live.len())];
        let own = Site::kind(0, true, types);
        let starve = choose(3) == 0;
        let site = if !starve && choose(2) == 0 { &reused } else { &own };
        let cx = site.cx();
        if starve {
            let p = crate::faults::policy(10);
            own.fa().set(p);
        }
        ARMED.set(*id);
        let encoding = choose(3) == 0;
        let failed = if encoding {
            let mut o = Vec::new();
            let r = guard("encode", || enc(f, cx, &mut W::Vec(&mut o), &v)).ok().unwrap().is_err();
            ensure!(bytes.starts_with(&o), "not-a-prefix", "{name} {f:?}: failed with {} delivered", hex(&o));
            r
        } else {
            let mut input: &[u8] = &bytes;
            let rd = if f == StorageBe || f.is_json() { Rd::Slice } else if choose(2) == 0 { Rd::Slice } else { Rd::Ptr };
            guard("decode", || dec::<T>(f, rd, cx, &mut input)).ok().unwrap().is_err()
        };
        ARMED.set(u32::MAX);
        let report = cx.report();
        ev!("armed {id} at {want:?}, encoding {encoding}: {report:?}");
        ensure!(failed, "error-swallowed", "{name} {f:?}: an element refused to be {} but the operation succeeded", if encoding { "encoded" } else { "decoded" });
        if !starve || own.fa().fired.get() == 0 {
            // (trying the variants of an untagged enum leaves errors behind)
            let loose = name == "LoosePlace" && !encoding;
            ensure!(cx.error().as_deref() == Some("tripped") || loose, "wrong-error", "{name} {f:?}: the element's error reached the caller as {:?}", cx.error());
            // (encoders of enums do not announce the enum's name)
            let mut want = want.clone();
            if encoding {
                want.retain(|s| !matches!(s, Enum(_)));
            }
            let text = path_text(&want, types);
            let told = format!("{text}: tripped");
            ensure!(report.starts_with(&told) || loose && report.contains(&format!("\n{told}")), "wrong-location", "{name} {f:?}: decoding stopped at {text} but the report says {report:?} (encoding: {encoding})");
            ensure!(report.matches(": tripped").count() == 1, "wrong-location", "{name} {f:?}: one error was reported as {report:?}");
        } else {
            // what is shown is the beginning of the way to the failure
            if let Some((p, _)) = report.split_once(": tripped").filter(|_| name != "LoosePlace") {
                let mut want = want.clone();
                if encoding {
                    want.retain(|s| !matches!(s, Enum(_)));
                }
                if !types {
                    want.retain(|s| !matches!(s, Struct(_) | Enum(_)));
                }
                let fits = (0..=want.len()).any(|k| {
                    let cap = match want.len() - k {
                        0 => String::new(),
                        1 => " .. *one capped step*".into(),
                        n => format!(" .. *{n} capped steps*"),
                    };
                    format!("{}{cap}", path_text(&want[..k], types)) == p
                });
                ensure!(fits, "wrong-location", "{name} {f:?}: decoding stopped at {} but the starved report says {p:?} (encoding: {encoding})", path_text(&want, types));
                probe("location with capped steps");
            }
        }
        if starve {
            own.fa().set(Policy::Never);
        }
        own.close("location");
        step();
    }
    reused.close("location");
    state(mix(f as u64, mix(hash_bytes(name.as_bytes()), live.len() as u64)));
}

pub fn c10() {
    match choose(8) {
        0..=2 => reuse(),
        3..=4 => neutral(),
        5 => located::<LoosePlace>(DescText.bit() | Json.bit(), "LoosePlace"),
        6 => located::<Place>(DescText.bit() | Json.bit(), "Place"),
        _ => located::<PlainPlace>(M_ALL & !M_PACKED, "PlainPlace"),
    }
    advance_time(1);
    nontrivial();
}
