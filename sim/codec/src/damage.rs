//! C07: messages damaged in transit. C18: messages that lie about lengths.
use crate::dynx::*;
use crate::fmt::*;
use crate::gen;
use crate::gen::Gen;
use crate::rt::*;
use crate::types::*;
use musli::value::Value;
use musli::{Decode, Encode};
use simcore::*;
use std::any::Any;
use std::cell::Cell;
use std::collections::BTreeMap;

/// Reads any structure, keeping next to nothing of it.
#[derive(Debug, PartialEq, Encode, Decode)]
pub struct Skipper {
    #[musli(default, Binary, name = 250)]
    a: u8,
}
#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(name_all = "name")]
pub struct TextSkipper {
    #[musli(default)]
    zzz: u8,
}
impl Gen for Skipper {
    fn gen() -> Self {
        Skipper { a: Gen::gen() }
    }
}
impl Gen for TextSkipper {
    fn gen() -> Self {
        TextSkipper { zzz: Gen::gen() }
    }
}

thread_local! {
    static NOTHINGS: Cell<u64> = const { Cell::new(0) };
    static BOUND: Cell<u64> = const { Cell::new(u64::MAX) };
}
/// An element that takes no space: only its count can be invented.
#[derive(Debug, PartialEq)]
pub struct Nothing;
impl<M> Encode<M> for Nothing {
    type Encode = Self;
    const IS_BITWISE_ENCODE: bool = false;
    fn encode<E: musli::Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        e.encode_empty()
    }
    fn as_encode(&self) -> &Self {
        self
    }
}
impl<'de, M, A: musli::Allocator> Decode<'de, M, A> for Nothing {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D: musli::Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        d.decode_empty()?;
        NOTHINGS.set(NOTHINGS.get() + 1);
        if NOTHINGS.get() > BOUND.get() {
            violate_soft("unbounded-work-on-empty-elements", format!("{} elements that take no space were decoded from a message of {} bytes", NOTHINGS.get(), BOUND.get() / 64));
        }
        Ok(Nothing)
    }
}
impl Gen for Nothing {
    fn gen() -> Self {
        Nothing
    }
}
#[derive(Debug, PartialEq, Encode, Decode)]
pub struct Nothings {
    a: Vec<Nothing>,
    b: BTreeMap<u8, Vec<Nothing>>,
}
crate::gen_struct!(Nothings { a, b });

/// A message of which the receiver knows no schema.
pub struct Dynamic;
type Val = Value<Da>;
fn chk_val(v: &Val) {
    match v {
        Value::Bool(b) => b.chk(),
        Value::Char(c) => c.chk(),
        Value::String(s) => gen::chk_text(s.as_str().as_bytes()),
        Value::Sequence(s) => s.iter().for_each(chk_val),
        Value::Map(m) => m.iter().for_each(|(k, v)| {
            chk_val(k);
            chk_val(v)
        }),
        Value::Variant(p) => {
            chk_val(&p.0);
            chk_val(&p.1)
        }
        Value::Option(Some(v)) => chk_val(v),
        _ => (),
    }
}
impl Shape for Dynamic {
    fn name(&self) -> &'static str {
        "Value"
    }
    fn fmts(&self) -> u32 {
        M_DESC | M_JSON
    }
    fn gen(&self) -> Box<dyn Any> {
        unreachable!()
    }
    fn same(&self, a: &dyn Any, b: &dyn Any) -> bool {
        a.downcast_ref::<Val>().unwrap() == b.downcast_ref::<Val>().unwrap()
    }
    fn show(&self, a: &dyn Any) -> String {
        format!("{:.1000?}", a.downcast_ref::<Val>().unwrap())
    }
    fn chk(&self, a: &dyn Any) {
        chk_val(a.downcast_ref::<Val>().unwrap())
    }
    fn enc(&self, f: Fmt, cx: Cx, w: &mut W<'_>, v: &dyn Any) -> Result<Option<usize>, ()> {
        enc(f, cx, w, v.downcast_ref::<Val>().unwrap())
    }
    fn dec(&self, f: Fmt, rd: Rd, cx: Cx, b: &mut &[u8]) -> Result<Box<dyn Any>, ()> {
        let v: Val = dec(f, rd, cx, b)?;
        Ok(galloc::untracked(|| Box::new(v)))
    }
}

pub static EXTRA: &[&dyn Shape] = &[
    &s::<Skipper>("Skipper", M_ALL & !M_PACKED),
    &s::<TextSkipper>("TextSkipper", M_ALL & !M_PACKED),
    &Dynamic,
];
static NOTHING: S<Nothings> = s::<Nothings>("Nothings", M_ALL & !M_PACKED);

/// A type to decode as.
fn target(f: Fmt) -> &'static dyn Shape {
    loop {
        let s = if choose(5) == 0 { *pick(EXTRA) } else { *pick(shapes()) };
        if s.fmts() & f.bit() != 0 && s.name() != "Units" {
            return s;
        }
    }
}

fn original(f: Fmt) -> (Option<&'static dyn Shape>, Vec<u8>) {
    match choose(12) {
        0 => {
            let n = size(80);
            (None, (0..n).map(|_| choose(256) as u8).collect())
        }
        1 if f.is_json() => (None, soup(4).into_bytes()),
        _ => {
            let sh = loop {
                let s = pick_shape(f.bit());
                if s.finding().is_none() {
                    break s;
                }
            };
            gen::reset(f);
            let v = sh.gen();
            let site = Site::kind(2, false, false);
            let b = encode_vec(sh, f, site.cx(), &*v).unwrap_or_default();
            site.close("encode");
            (Some(sh), b)
        }
    }
}

/// Text that is nearly JSON.
fn soup(depth: usize) -> String {
    let mut s = String::new();
    let n = 1 + size(12);
    for _ in 0..n {
        let t = match choose(26) {
            0 => "{",
            1 => "}",
            2 => "[",
            3 => "]",
            4 => ":",
            5 => ",",
            6 => "null",
            7 => "true",
            8 => "false",
            9 => "\"",
            10 => "\"a\":",
            11 => "\"\\ud83d\\ude00\"",
            12 => "\"\\ud800\"",
            13 => "\"\\u00zz\\x\"",
            14 => "-",
            15 => "0.0e0",
            16 => "1e99999999999",
            17 => "1e-2147483649",
            18 => "340282366920938463463374607431768211456",
            19 => "0.000000000000000000000000000000000000000000000000000000001e57",
            20 => "  \t\r\n",
            21 => "\u{1F600}",
            22 if depth > 0 => {
                let k = soup(depth - 1);
                s.push_str(&format!("{{\"{}\":{}}}", (b'a' + choose(26) as u8) as char, k));
                continue;
            }
            23 if depth > 0 => {
                let k = soup(depth - 1);
                s.push_str(&format!("[{k},{}]", choose(300)));
                continue;
            }
            _ => {
                s.push_str(&choose(1 << (1 + choose(62))).to_string());
                continue;
            }
        };
        s.push_str(t);
    }
    s
}

const POISON: [u8; 16] = [0, 1, 2, 0x1f, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xe0, 0xf8, 0xfe, 0xff, b'"'];

fn lie() -> Vec<u8> {
    // a length in continuation form, of any size
    let mut v: u128 = match choose(6) {
        0 => 1 << 20,
        1 => u32::MAX as u128,
        2 => u64::MAX as u128,
        3 => (u64::MAX as u128) - choose(40) as u128,
        4 => 1 << (10 + choose(54)),
        _ => (1u128 << 63) / (1 + choose(64)) as u128,
    };
    let mut out = Vec::new();
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
    out
}

fn damage(b: &mut Vec<u8>, f: Fmt, other: &[u8]) {
    let n = 1 + below(3);
    for _ in 0..n {
        let len = b.len();
        match choose(14) {
            0 => {
                let k = below(len + 1);
                b.truncate(k);
                fault("truncated");
            }
            1 | 2 => {
                if len > 0 {
                    let i = below(len);
                    b[i] ^= 1 << choose(8);
                    fault("bit flipped");
                }
            }
            3 | 4 => {
                if len > 0 {
                    let i = below(len);
                    b[i] = *pick(&POISON);
                    fault("byte overwritten");
                }
            }
            5 => {
                if len > 0 {
                    let i = below(len);
                    b[i] = b[i].wrapping_add(*pick(&[1, 255, 2, 16]));
                    fault("byte overwritten");
                }
            }
            6 => {
                let i = below(len + 1);
                b.insert(i, *pick(&POISON));
                fault("byte inserted");
            }
            7 => {
                if len > 0 {
                    let i = below(len);
                    let k = 1 + size((len - i).min(16) - 1);
                    b.drain(i..i + k);
                    fault("span lost");
                }
            }
            8 => {
                if len > 0 {
                    let i = below(len);
                    let k = 1 + size((len - i).min(24) - 1);
                    let span = b[i..i + k].to_vec();
                    let at = below(len + 1);
                    for _ in 0..1 + size(6) {
                        b.splice(at..at, span.iter().copied());
                    }
                    fault("span duplicated");
                }
            }
            9 => {
                if !other.is_empty() {
                    let i = below(other.len());
                    let k = 1 + below(other.len() - i);
                    let at = below(len + 1);
                    let to = at + below(len - at + 1);
                    b.splice(at..to, other[i..i + k].iter().copied());
                    fault("span spliced from another message");
                }
            }
            10 | 11 => {
                let at = below(len + 1);
                let to = (at + below(3)).min(len);
                let mut l = lie();
                if f.is_json() {
                    l = pick(&["1e309", "18446744073709551616", "-1", "1.5", "\"\\u", "\"\\ud800\"", "nul", "{\"a\":", "[[[[", "\u{0}", "99999999999999999999999999999999999999999999", "\"", "\\"]).as_bytes().to_vec();
                } else if choose(3) == 0 {
                    // fixed-width forms
                    let v: u64 = *pick(&[u64::MAX, 1 << 63, 1 << 40, 1 << 32, u32::MAX as u64]);
                    l = if choose(2) == 0 { v.to_be_bytes().to_vec() } else { v.to_le_bytes().to_vec() };
                } else if choose(2) == 0 {
                    // continuation announced by a tag
                    l.insert(0, *pick(&[0x3f, 0x7f, 0x9f, 0xbf, 0xff, 0x5f, 0xdf, 0x1f]));
                }
                b.splice(at..to, l);
                fault("length replaced by a lie");
            }
            12 => {
                if len > 1 {
                    let i = below(len);
                    let j = below(len);
                    b.swap(i, j);
                    fault("bytes swapped");
                }
            }
            _ => {
                b.extend_from_slice(other);
                fault("messages run together");
            }
        }
        b.truncate(60_000);
    }
}

/// A fixed allowance for containers being filled (each reserves at most about
/// a megabyte up front, and may hold its old and new storage while growing)
/// plus what elements of the largest type take per byte of input.
pub fn memory_bound(len: usize) -> i64 {
    (24 << 20) + 4096 * len as i64
}

fn attack(lengths_only: bool) {
    let f = ALL[below(ALL.len())];
    let (from, mut b) = original(f);
    let (_, other) = original(f);
    let times = range(1, 4);
    for _ in 0..times {
        let mut m = b.clone();
        if lengths_only {
            for _ in 0..1 + below(2) {
                let at = below(m.len() + 1);
                let to = (at + below(3)).min(m.len());
                let mut l = lie();
                match choose(5) {
                    0 | 1 => l.insert(0, *pick(&[0x3f, 0x7f, 0x9f, 0xbf, 0xff, 0x5f, 0xdf, 0x1f])),
                    2 => {
                        let v: u64 = *pick(&[u64::MAX, 1 << 40, 1 << 32, u32::MAX as u64, 1 << 24]);
                        l = if choose(2) == 0 { v.to_be_bytes().to_vec() } else { v.to_le_bytes().to_vec() };
                    }
                    _ => (),
                }
                m.splice(at..to, l);
                fault("length replaced by a lie");
            }
            if choose(4) == 0 {
                damage(&mut m, f, &other);
            }
        } else {
            damage(&mut m, f, &other);
        }
        let t = match from {
            Some(sh) if choose(3) != 0 => sh,
            _ => target(f),
        };
        // any encoding but mostly the one it was sent in
        let f = if chance(1, 12) { pick_fmt(t, M_ALL) } else { f };
        probe_decode(t, f, &m);
        if choose(4) == 0 {
            b = m;
        }
        advance_time(1);
        step();
    }
    nontrivial();
}

/// Decode damaged bytes and judge the outcome.
fn probe_decode(t: &'static dyn Shape, f: Fmt, m: &[u8]) {
    if t.name() == "Units" {
        return;
    }
    // what nests through dynamic values recurses (known finding, see `deep`)
    let opens = m.iter().filter(|b| if f.is_json() { matches!(b, b'[' | b'{') } else { matches!(**b >> 5, 3 | 4 | 7) }).count();
    if opens > 600 && (f.is_json() || M_DESC >> f as u32 & 1 != 0) {
        probe("too deep to tell apart from the known finding");
        return;
    }
    let mut g = sys::Guarded::new(m.len().max(1));
    let mem: &[u8] = if choose(4) == 0 { g.place_start(m) } else { g.place_end(m) };
    let site = Site::fault(choose(2) == 1);
    let cx = site.cx();
    let rd = pick_rd(t, f);
    ev!("decode {} bytes as {} {f:?} {rd:?}: {}", m.len(), t.name(), hex(m));
    note(hash_bytes(m));
    let live0 = galloc::live();
    let base = galloc::begin_measure();
    let mut input = mem;
    BOUND.set(64 * m.len() as u64 + 4096);
    NOTHINGS.set(0);
    let r = guard("decode", || galloc::tracked(|| t.dec(f, rd, cx, &mut input))).ok().unwrap();
    let peak = galloc::peak_since(base).max(site.fa().largest.get() as i64);
    let bound = memory_bound(m.len());
    ensure!(peak <= bound, "memory-out-of-proportion", "{} {f:?} {rd:?}: {peak} bytes requested while decoding {} bytes {}", t.name(), m.len(), hex(m));
    let ok = r.is_ok();
    match r {
        Ok(v) => {
            t.chk(&*v);
            let shown = t.show(&*v);
            note(hash_bytes(shown.as_bytes()));
            if consumes(f, rd) {
                ensure!(input.is_empty() || (mem.as_ptr_range().contains(&input.as_ptr()) && input.len() <= m.len()), "reader-outside-input", "{} {f:?}: the reader left the input", t.name());
            }
            // what was accepted is a value like any other
            if !t.unordered() && t.finding().is_none() && t.name() != "Value" {
                round(t, f, &*v, m);
            }
            galloc::untracked(|| drop(v));
            probe("damaged message accepted");
        }
        Err(()) => {
            ensure!(cx.error().is_some(), "error-not-captured", "{} {f:?}: decoding failed but the context captured nothing", t.name());
            let _ = guard("report", || cx.report());
        }
    }
    state(mix(f as u64, mix(hash_bytes(t.name().as_bytes()), ok as u64)));
    site.close("decoding damaged bytes");
    check_heap(t.name());
    ensure!(galloc::live() == live0, "heap-leak", "{} {f:?}: memory of a decode is still allocated after it ended (accepted: {ok})", t.name());
}

fn round(t: &'static dyn Shape, f: Fmt, v: &dyn Any, m: &[u8]) {
    let site = Site::kind(2, false, false);
    let enc = guard("encode", || encode_vec(t, f, site.cx(), v)).ok().unwrap();
    let Ok(enc) = enc else {
        violate("accepted-value-invalid", format!("{} {f:?}: accepted {} from {} but cannot encode it: {:?}", t.name(), t.show(v), hex(m), site.cx().error()))
    };
    if !f.is_json() {
        let mut input: &[u8] = &enc;
        let r = guard("decode", || t.dec(f, Rd::Ptr, site.cx(), &mut input)).ok().unwrap();
        match r {
            Ok(w) => ensure!(t.same(v, &*w), "accepted-value-invalid", "{} {f:?}: accepted {} from {}, which is not preserved: {}", t.name(), t.show(v), hex(m), t.show(&*w)),
            Err(()) => violate("accepted-value-invalid", format!("{} {f:?}: accepted {} from {} but cannot decode its encoding: {:?}", t.name(), t.show(v), hex(m), site.cx().error())),
        }
    } else {
        ensure!(std::str::from_utf8(&enc).is_ok(), "invalid-text", "{} {f:?}: accepted a value from {} whose JSON is not text", t.name(), hex(m));
    }
    site.close("round");
}

/// Nesting as deep as the input is long.
fn deep() {
    let n = *pick(&[300usize, 2_000, 20_000, 200_000]);
    let f = *pick(&[Json, Desc, Wire, JsonBin]);
    let mut m: Vec<u8> = Vec::new();
    let t: &'static dyn Shape;
    let by_name = |n: &str| -> &'static dyn Shape { EXTRA.iter().chain(shapes()).copied().find(|s| s.name() == n).unwrap() };
    if f.is_json() {
        match choose(4) {
            0 => {
                t = by_name("Value");
                m.extend("[".repeat(n).bytes());
            }
            1 => {
                t = by_name("Value");
                m.extend("{\"a\":".repeat(n).bytes());
            }
            2 => {
                t = by_name("TextSkipper");
                m.extend(b"{\"b\":");
                m.extend("[".repeat(n).bytes());
            }
            _ => {
                t = by_name("TextSkipper");
                m.extend(b"{\"b\":");
                m.extend("{\"a\":".repeat(n).bytes());
            }
        }
    } else {
        // a field the reader does not know, holding a sequence of one sequence of one ...
        #[derive(Encode)]
        struct One {
            #[musli(Binary, name = 7)]
            a: Vec<Vec<Vec<u8>>>,
        }
        let site = Site::kind(2, false, false);
        let one = One { a: vec![vec![vec![9]]] };
        let mut out = Vec::new();
        let r = match f {
            Desc => musli::descriptive::Encoding::new().encode_with(site.cx(), &mut out, &one).is_ok(),
            _ => musli::wire::Encoding::new().encode_with(site.cx(), &mut out, &one).is_ok(),
        };
        assert!(r);
        site.close("encode");
        // repeat the innermost sequence header
        let head = out.windows(3).position(|w| w[0] == w[1] && w[1] == w[2]).expect("three sequence headers");
        let h = out[head];
        m.extend_from_slice(&out[..head]);
        m.extend(std::iter::repeat(h).take(n));
        t = if f == Desc && choose(2) == 0 { by_name("Value") } else { by_name("Skipper") };
    }
    if choose(2) == 0 && f.is_json() {
        let close: Vec<u8> = m.iter().rev().filter_map(|b| match b {
            b'[' => Some(b']'),
            b'{' => Some(b'}'),
            _ => None,
        }).collect();
        if m.ends_with(b":") {
            m.push(b'0');
        }
        m.extend(close);
    }
    ev!("{n} levels as {} {f:?}", t.name());
    fault("nested as deep as it is long");
    isolated(if t.name() == "Value" { "deep-nesting-in-dynamic-value" } else { "deep-nesting-in-skipped-field" }, || {
        let site = Site::kind(2, false, false);
        let cx = site.cx();
        let mut input: &[u8] = &m;
        let r = guard("decode", || t.dec(f, Rd::Slice, cx, &mut input)).ok().unwrap();
        if r.is_err() {
            ensure!(cx.error().is_some(), "error-not-captured", "{} {f:?}: decoding failed but the context captured nothing", t.name());
        }
        drop(r);
        site.close("deep");
    });
    nontrivial();
}

/// Counts of elements that take no space.
fn nothings() {
    let f = *pick(&[Storage, StorageBe, Wire, Desc, StorageFix, WireFix, DescFix]);
    gen::reset(f);
    let v = NOTHING.gen();
    let site = Site::kind(2, false, false);
    let mut b = encode_vec(&NOTHING, f, site.cx(), &*v).unwrap_or_default();
    site.close("encode");
    let at = below(b.len() + 1);
    let to = (at + below(9)).min(b.len());
    let mut l = lie();
    if choose(3) == 0 {
        l = u64::MAX.to_le_bytes().to_vec();
    } else if choose(2) == 0 {
        l.insert(0, *pick(&[0x9f, 0xbf]));
    }
    b.splice(at..to, l);
    fault("length replaced by a lie");
    probe_decode(&NOTHING, f, &b);
    nontrivial();
}

pub fn c07() {
    match choose(if st().thorough { 300 } else { 600 }) {
        0 => deep(),
        1 => nothings(),
        _ => attack(false),
    }
}

pub fn c18() {
    attack(true)
}
