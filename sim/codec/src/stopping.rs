//! C20: decoders that stop early, skip, look ahead or read from a buffer, and
//! what comes after.
use crate::dynx::*;
use crate::fmt::*;
use crate::gen;
use crate::rt::*;
use musli::de::*;
use musli::en::{EntriesEncoder, MapEncoder, SequenceEncoder, VariantEncoder};
use musli::{Allocator, Context, Decode, Decoder, Encode, Encoder};
use simcore::*;
use std::cell::Cell;

#[derive(Debug, Clone, PartialEq)]
pub enum Key {
    S(String),
    N(u32),
}
#[derive(Debug, Clone)]
pub enum Node {
    Unit,
    Bool(bool),
    Char(char),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    Usize(usize),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    Isize(isize),
    F32(f32),
    F64(f64),
    Str(String),
    Bytes(Vec<u8>),
    Arr([u8; 5]),
    None,
    Some(Box<Node>),
    Seq(Vec<Node>),
    Pack(Vec<u32>),
    Map(Vec<(Key, Node)>, u8),
    Var(Key, Box<Node>),
}

/// What the message is in while it is being read.
#[derive(Clone, Copy)]
struct Sess {
    fmt: Fmt,
    /// Skips and early stops so far.
    left: u32,
    /// Reading from a captured value rather than from the message.
    buffered: u32,
    /// Whether the reader may skip and stop.
    free: bool,
    /// Whether the reader has asked for more than was sent.
    over: bool,
    calls: u32,
}
thread_local! {
    static SESS: Cell<Sess> = const { Cell::new(Sess { fmt: Desc, left: 0, buffered: 0, free: false, over: false, calls: 0 }) };
    static WHAT: Cell<*const Node> = const { Cell::new(core::ptr::null()) };
    static MAKE: Cell<Fmt> = const { Cell::new(Desc) };
    static BUDGET: Cell<u32> = const { Cell::new(0) };
}
fn sess() -> Sess {
    SESS.get()
}
fn edit(f: impl FnOnce(&mut Sess)) {
    let mut s = SESS.get();
    f(&mut s);
    SESS.set(s);
}
fn leave(what: &'static str) {
    edit(|s| s.left += 1);
    probe(what);
}

fn gen_key() -> Key {
    if choose(2) == 0 {
        Key::N(choose(u32::MAX as u64 + 1) as u32 >> choose(32))
    } else {
        Key::S(gen::Gen::gen())
    }
}
fn gen_num<T: gen::Gen>() -> T {
    T::gen()
}
fn gen_node(depth: u32, bare: bool) -> Node {
    let f = MAKE.get();
    BUDGET.set(BUDGET.get().saturating_sub(1));
    let deep = depth > 0 && BUDGET.get() > 0;
    let n = |d: u32| -> usize {
        let n = match choose(8) {
            0 => 0,
            1 | 2 => 1,
            3 | 4 => 2,
            5 => 3 + below(4),
            6 => 7 + below(3),
            _ => 15 + below(4),
        };
        if d > 2 {
            n.min(3)
        } else {
            n
        }
    };
    let deepness = depth;
    loop {
        return match choose(if deep { 32 } else { 21 }) {
            0 if f.is_json() && bare => continue,
            0 => Node::Unit,
            1 => Node::Bool(gen_num()),
            2 => Node::Char(gen_num()),
            3 => Node::U8(gen_num()),
            4 => Node::U16(gen_num()),
            5 => Node::U32(gen_num()),
            6 => Node::U64(gen_num()),
            7 => Node::U128(gen_num()),
            8 => Node::Usize(gen_num()),
            9 => Node::I8(gen_num()),
            10 => Node::I16(gen_num()),
            11 => Node::I32(gen_num()),
            12 => Node::I64(gen_num()),
            13 => Node::I128(gen_num()),
            14 => Node::Isize(gen_num()),
            15 => Node::F32(gen_num::<gen::F32>().0),
            16 => Node::F64(gen_num::<gen::F64>().0),
            17 => Node::Str(gen_num()),
            18 => Node::Bytes(gen::bytes(300)),
            19 => Node::Arr(core::array::from_fn(|_| choose(256) as u8)),
            20 if f.is_json() && bare => continue,
            20 => Node::None,
            21 | 22 => {
                if f.is_json() && bare {
                    continue;
                }
                Node::Some(Box::new(gen_node(depth - 1, true)))
            }
            23..=25 => {
                let k = n(deepness);
                Node::Seq((0..k).map(|_| gen_node(depth - 1, false)).collect())
            }
            26 => {
                let k = n(0);
                Node::Pack((0..k).map(|_| gen_num()).collect())
            }
            27..=29 => {
                let k = n(deepness);
                Node::Map((0..k).map(|_| (gen_key(), gen_node(depth - 1, false))).collect(), choose(3) as u8)
            }
            _ => Node::Var(gen_key(), Box::new(gen_node(depth - 1, false))),
        };
    }
}
pub fn gen_root() -> Node {
    BUDGET.set(60);
    // what is abandoned lies within what is read on
    let k = 1 + below(4);
    let d = 1 + choose(4) as u32;
    Node::Seq((0..k).map(|_| gen_node(d, false)).collect())
}

struct KeyRef<'a>(&'a Key);
impl<M> Encode<M> for KeyRef<'_> {
    type Encode = Self;
    const IS_BITWISE_ENCODE: bool = false;
    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        match self.0 {
            Key::S(s) => e.encode_string(s),
            Key::N(n) => e.encode_u32(*n),
        }
    }
    fn as_encode(&self) -> &Self {
        self
    }
}
impl<M> Encode<M> for Node {
    type Encode = Self;
    const IS_BITWISE_ENCODE: bool = false;
    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        match self {
            Node::Unit => e.encode_empty(),
            Node::Bool(v) => e.encode_bool(*v),
            Node::Char(v) => e.encode_char(*v),
            Node::U8(v) => e.encode_u8(*v),
            Node::U16(v) => e.encode_u16(*v),
            Node::U32(v) => e.encode_u32(*v),
            Node::U64(v) => e.encode_u64(*v),
            Node::U128(v) => e.encode_u128(*v),
            Node::Usize(v) => e.encode_usize(*v),
            Node::I8(v) => e.encode_i8(*v),
            Node::I16(v) => e.encode_i16(*v),
            Node::I32(v) => e.encode_i32(*v),
            Node::I64(v) => e.encode_i64(*v),
            Node::I128(v) => e.encode_i128(*v),
            Node::Isize(v) => e.encode_isize(*v),
            Node::F32(v) => e.encode_f32(*v),
            Node::F64(v) => e.encode_f64(*v),
            Node::Str(v) => e.encode_string(v),
            Node::Bytes(v) => e.encode_bytes(v),
            Node::Arr(v) => e.encode_array(v),
            Node::None => e.encode_none(),
            Node::Some(v) => e.encode_some()?.encode(&**v),
            Node::Seq(v) => e.encode_sequence_fn(v.len(), |s| {
                for x in v {
                    s.push(x)?;
                }
                Ok(())
            }),
            Node::Pack(v) => e.encode_pack_fn(|s| {
                for x in v {
                    s.push(x)?;
                }
                Ok(())
            }),
            Node::Map(v, 0) => e.encode_map_fn(v.len(), |s| {
                for (k, x) in v {
                    s.insert_entry(KeyRef(k), x)?;
                }
                Ok(())
            }),
            Node::Map(v, _) => {
                let mut s = e.encode_map_entries(v.len())?;
                for (k, x) in v {
                    s.insert_entry(KeyRef(k), x)?;
                }
                s.finish_entries()
            }
            Node::Var(k, v) => e.encode_variant_fn(|s| {
                s.encode_tag()?.encode(KeyRef(k))?;
                s.encode_data()?.encode(&**v)
            }),
        }
    }
    fn as_encode(&self) -> &Self {
        self
    }
}

/// Makes a tree which can travel in the given encoding.
pub fn tree_for(f: Fmt) -> Node {
    MAKE.set(f);
    gen_root()
}
/// Reads a tree in full and compares it.
pub fn expect(n: &Node, f: Fmt, rd: Rd, cx: Cx, b: &mut &[u8]) -> Result<(), ()> {
    SESS.set(Sess { fmt: f, left: 0, buffered: 0, free: false, over: false, calls: 0 });
    WHAT.set(n);
    dec::<Got>(f, rd, cx, b).map(|_| ())
}
/// The receiver: reads the message it is told to expect.
struct Got;
impl<'de, M, A: Allocator> Decode<'de, M, A> for Got {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        let n: &Node = unsafe { &*WHAT.get() };
        walk(d, n)?;
        Ok(Got)
    }
}

fn differs(n: &Node, got: String) -> ! {
    let s = sess();
    violate(
        if s.left > 0 { "desync" } else { "misread" },
        format!("{:?} (buffered {}, {} left behind): expected {n:?}, read {got}", s.fmt, s.buffered, s.left),
    )
}
fn key_is<'de, D: Decoder<'de>>(d: D, k: &Key) -> Result<(), D::Error> {
    if sess().free && can_skip() && choose(6) == 0 {
        leave("key skipped");
        return d.skip();
    }
    match k {
        Key::N(n) => {
            let g = d.decode_u32()?;
            if g != *n {
                differs(&Node::U32(*n), format!("key {g}"));
            }
        }
        Key::S(s) => {
            let g = text(d)?;
            if g != *s {
                differs(&Node::Str(s.clone()), format!("key {g:?}"));
            }
        }
    }
    Ok(())
}
fn text<'de, D: Decoder<'de>>(d: D) -> Result<String, D::Error> {
    d.decode_unsized(|s: &str| Ok(s.to_owned()))
}
/// Whether what is being read knows its own extent.
fn can_skip() -> bool {
    let s = sess();
    s.buffered > 0 || s.fmt.tagged()
}
/// Whether what is being read knows what it is.
fn is_self() -> bool {
    let s = sess();
    s.buffered > 0 || s.fmt.is_json() || s.fmt.is_desc()
}
fn stop() -> bool {
    if sess().free && choose(5) == 0 {
        leave("stopped early");
        return true;
    }
    false
}
/// Packs are a sequence of bytes once captured, in the encodings which have bytes.
pub fn no_packs(n: &Node) -> bool {
    match n {
        Node::Pack(_) => false,
        Node::Some(n) | Node::Var(_, n) => no_packs(n),
        Node::Seq(v) => v.iter().all(no_packs),
        Node::Map(v, _) => v.iter().all(|(_, n)| no_packs(n)),
        _ => true,
    }
}
fn json_key(n: &Node) -> bool {
    match n {
        Node::Var(Key::N(_), _) => true,
        Node::Some(n) | Node::Var(_, n) => json_key(n),
        Node::Seq(v) => v.iter().any(json_key),
        Node::Map(v, _) => v.iter().any(|(_, n)| json_key(n)),
        _ => false,
    }
}

fn walk<'de, D: Decoder<'de>>(d: D, n: &Node) -> Result<(), D::Error> {
    step();
    edit(|s| s.calls += 1);
    let s = sess();
    if s.calls > 5_000 {
        return plain(d, n);
    }
    if s.free {
        match choose(24) {
            0..=2 if can_skip() => {
                leave("skipped");
                return d.skip();
            }
            3 => {
                // where skipping is not supported nothing is consumed, and nothing more can be read
                let cx = d.cx();
                if d.try_skip()?.is_unsupported() {
                    edit(|s| s.left += 1);
                    return Err(cx.message("not skipped"));
                }
                leave("skipped");
                return Ok(());
            }
            _ => (),
        }
    }
    if s.buffered < 2 {
        match choose(16) {
            0 if is_self() && (no_packs(n) || !s.fmt.is_json()) => {
                probe("captured");
                let b = d.decode_buffer()?;
                for _ in 0..1 + choose(2) {
                    let before = sess();
                    edit(|s| s.buffered += 1);
                    walk(b.as_decoder()?, n)?;
                    edit(|s| {
                        s.buffered = before.buffered;
                        s.left = before.left;
                    });
                }
                return Ok(());
            }
            1 => {
                if let Some(c) = d.try_clone() {
                    probe("looked ahead");
                    let cx = d.cx();
                    let before = sess();
                    let m = cx.mark();
                    edit(|s| s.buffered += 2 * (s.buffered > 0) as u32);
                    let r = walk(c, n);
                    cx.restore(&m);
                    edit(|s| {
                        s.buffered = before.buffered;
                        if r.is_ok() {
                            s.left = before.left;
                        }
                    });
                    r?;
                }
            }
            2 | 3 if is_self() && (no_packs(n) || !s.fmt.is_json()) && !matches!(n, Node::Pack(_) | Node::Unit) => {
                if json_like(n) {
                    probe("read as any");
                    return d.decode_any(Any(n));
                }
            }
            4 if is_self() && num(n).is_some() && !(s.buffered > 0) => {
                probe("read as number");
                return d.decode_number(Any(n));
            }
            _ => (),
        }
    }
    plain(d, n)
}

/// Whether the description an encoding keeps of this is the one it was written with.
fn json_like(n: &Node) -> bool {
    let s = sess();
    !s.fmt.is_json() || !matches!(n, Node::Bytes(_) | Node::Arr(_) | Node::Char(_) | Node::Var(..) | Node::None | Node::Some(_) | Node::Unit)
}

fn plain<'de, D: Decoder<'de>>(d: D, n: &Node) -> Result<(), D::Error> {
    macro_rules! leaf {
        ($v:expr, $e:expr) => {{
            let g = $e;
            if g != *$v {
                differs(n, format!("{g:?}"));
            }
            Ok(())
        }};
    }
    match n {
        Node::Unit => d.decode_empty(),
        Node::Bool(v) => leaf!(v, d.decode_bool()?),
        Node::Char(v) => leaf!(v, d.decode_char()?),
        Node::U8(v) => leaf!(v, d.decode_u8()?),
        Node::U16(v) => leaf!(v, d.decode_u16()?),
        Node::U32(v) => leaf!(v, d.decode_u32()?),
        Node::U64(v) => leaf!(v, d.decode_u64()?),
        Node::U128(v) => leaf!(v, d.decode_u128()?),
        Node::Usize(v) => leaf!(v, d.decode_usize()?),
        Node::I8(v) => leaf!(v, d.decode_i8()?),
        Node::I16(v) => leaf!(v, d.decode_i16()?),
        Node::I32(v) => leaf!(v, d.decode_i32()?),
        Node::I64(v) => leaf!(v, d.decode_i64()?),
        Node::I128(v) => leaf!(v, d.decode_i128()?),
        Node::Isize(v) => leaf!(v, d.decode_isize()?),
        Node::F32(v) => leaf!(&v.to_bits(), d.decode_f32()?.to_bits()),
        Node::F64(v) => leaf!(&v.to_bits(), d.decode_f64()?.to_bits()),
        Node::Str(v) => leaf!(v, text(d)?),
        Node::Bytes(v) => leaf!(v, d.decode_unsized_bytes(|b: &[u8]| Ok(b.to_owned()))?),
        Node::Arr(v) => leaf!(v, d.decode_array::<5>()?),
        Node::None => {
            if d.decode_option()?.is_some() {
                differs(n, "a present value".into());
            }
            Ok(())
        }
        Node::Some(v) => match d.decode_option()? {
            Some(d) => walk(d, v),
            None => differs(n, "no value".into()),
        },
        Node::Seq(v) => {
            if choose(2) == 0 {
                d.decode_sequence(|s| items(s, n, v))
            } else {
                d.decode_sequence_hint(v.len(), |s| items(s, n, v))
            }
        }
        Node::Pack(v) => d.decode_pack(|s| {
            for x in v {
                if can_skip() && stop() {
                    return Ok(());
                }
                if can_skip() && greedy() {
                    probe("asked for more bytes than are left");
                    let d = s.decode_next()?;
                    let got = match choose(3) {
                        0 => d.decode_array::<200>().map(|a| hex(&a)),
                        1 => d.decode_array::<93>().map(|a| hex(&a)),
                        _ => d.decode_pack(|p| p.decode_next()?.decode_array::<97>()).map(|a| hex(&a)),
                    };
                    return got.map(|g| differs(n, g));
                }
                let g: u32 = {
                    let d = s.decode_next()?;
                    d.decode_u32()?
                };
                if g != *x {
                    differs(n, format!("{g}"));
                }
            }
            if can_skip() && greedy() {
                probe("asked for more than was packed");
                let d = s.decode_next()?;
                return more(d, n);
            }
            Ok(())
        }),
        Node::Map(v, _) => match choose(3) {
            0 => d.decode_map(|m| entries(m, n, v)),
            1 => d.decode_map_hint(v.len(), |m| entries(m, n, v)),
            _ => d.decode_map_entries(|m| {
                for (i, (k, x)) in v.iter().enumerate() {
                    if stop() {
                        return Ok(());
                    }
                    match m.decode_entry_key()? {
                        Some(d) => key_is(d, k)?,
                        None => differs(n, format!("the end after {i} entries")),
                    }
                    walk(m.decode_entry_value()?, x)?;
                }
                over(n, choose(4) != 0 || m.decode_entry_key()?.is_none());
                Ok(())
            }),
        },
        Node::Var(k, v) => d.decode_variant(|m| variant(m, k, v)),
    }
}
/// Whether to ask for more than was sent, which ends the message.
fn greedy() -> bool {
    if sess().free && choose(24) == 0 {
        edit(|s| s.over = true);
        return true;
    }
    false
}
/// Asks for something where nothing is left.
fn more<'de, D: Decoder<'de>>(d: D, n: &Node) -> Result<(), D::Error> {
    let got = match choose(14) {
        0 => d.decode_bool().map(|v| format!("{v:?}")),
        1 => d.decode_u8().map(|v| format!("{v:?}")),
        2 => d.decode_u16().map(|v| format!("{v:?}")),
        3 => d.decode_u32().map(|v| format!("{v:?}")),
        4 => d.decode_u64().map(|v| format!("{v:?}")),
        5 => d.decode_u128().map(|v| format!("{v:?}")),
        6 => d.decode_isize().map(|v| format!("{v:?}")),
        7 => d.decode_char().map(|v| format!("{v:?}")),
        8 => d.decode_f32().map(|v| format!("{v:?}")),
        9 => d.decode_f64().map(|v| format!("{v:?}")),
        10 => text(d).map(|v| format!("{v:?}")),
        11 => d.decode_unsized_bytes(|b: &[u8]| Ok(b.to_owned())).map(|v| hex(&v)),
        12 => d.decode_sequence(|s| Ok(s.try_decode_next()?.is_some())).map(|v| format!("a sequence {v}")),
        _ => d.decode_array::<3>().map(|v| hex(&v)),
    };
    got.map(|g| differs(n, g))
}
fn over(n: &Node, yes: bool) {
    if !yes {
        differs(n, "more elements than were sent".into());
    }
}
fn items<'de, S>(s: &mut S, n: &Node, v: &[Node]) -> Result<(), S::Error>
where
    S: ?Sized + SequenceDecoder<'de>,
{
    for (i, x) in v.iter().enumerate() {
        if stop() {
            return Ok(());
        }
        if choose(2) == 0 {
            match s.try_decode_next()? {
                Some(d) => walk(d, x)?,
                None => differs(n, format!("the end after {i} elements")),
            }
        } else {
            walk(s.decode_next()?, x)?;
        }
    }
    if greedy() {
        probe("asked for more than the sequence holds");
        return more(s.decode_next()?, n);
    }
    over(n, choose(4) != 0 || s.try_decode_next()?.is_none());
    Ok(())
}
fn entries<'de, S>(m: &mut S, n: &Node, v: &[(Key, Node)]) -> Result<(), S::Error>
where
    S: ?Sized + MapDecoder<'de>,
{
    for (i, (k, x)) in v.iter().enumerate() {
        if stop() {
            return Ok(());
        }
        if choose(6) == 0 {
            probe("remaining entries");
            let mut r = m.decode_remaining_entries()?;
            for (j, (k, x)) in v[i..].iter().enumerate() {
                if stop() {
                    break;
                }
                match r.decode_entry_key()? {
                    Some(d) => key_is(d, k)?,
                    None => differs(n, format!("the end after {} entries", i + j)),
                }
                walk(r.decode_entry_value()?, x)?;
            }
            return r.end_entries();
        }
        let Some(mut e) = m.decode_entry()? else { differs(n, format!("the end after {i} entries")) };
        key_is(e.decode_key()?, k)?;
        walk(e.decode_value()?, x)?;
    }
    over(n, choose(4) != 0 || m.decode_entry()?.is_none());
    Ok(())
}
fn variant<'de, S>(m: &mut S, k: &Key, v: &Node) -> Result<(), S::Error>
where
    S: ?Sized + VariantDecoder<'de>,
{
    key_is(m.decode_tag()?, k)?;
    walk(m.decode_value()?, v)
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Num {
    U(u128),
    I(i128),
    F(f64),
}
fn num(n: &Node) -> Option<Num> {
    Some(match *n {
        Node::U8(v) => Num::U(v as u128),
        Node::U16(v) => Num::U(v as u128),
        Node::U32(v) => Num::U(v as u128),
        Node::U64(v) => Num::U(v as u128),
        Node::U128(v) => Num::U(v),
        Node::Usize(v) => Num::U(v as u128),
        Node::I8(v) => Num::I(v as i128),
        Node::I16(v) => Num::I(v as i128),
        Node::I32(v) => Num::I(v as i128),
        Node::I64(v) => Num::I(v as i128),
        Node::I128(v) => Num::I(v),
        Node::Isize(v) => Num::I(v as i128),
        Node::F32(v) => Num::F(v as f64),
        Node::F64(v) => Num::F(v),
        _ => return None,
    })
}
fn num_is(n: &Node, g: Num) {
    let same = match (num(n), g) {
        (Some(Num::U(a)), Num::U(b)) => a == b,
        (Some(Num::I(a)), Num::I(b)) => a == b,
        (Some(Num::U(a)), Num::I(b)) => i128::try_from(a) == Ok(b),
        (Some(Num::I(a)), Num::U(b)) => u128::try_from(a) == Ok(b),
        (Some(Num::F(a)), Num::F(b)) => a == b || (a.is_nan() && b.is_nan()) || matches!(n, Node::F32(f) if *f == b as f32),
        (Some(Num::F(a)), Num::U(b)) => a == b as f64 || matches!(n, Node::F32(f) if *f == b as f32),
        (Some(Num::F(a)), Num::I(b)) => a == b as f64 || matches!(n, Node::F32(f) if *f == b as f32),
        _ => false,
    };
    if !same {
        differs(n, format!("{g:?}"));
    }
}

/// Reads whatever comes and compares it with what is expected.
struct Any<'n>(&'n Node);
macro_rules! visit {
    ($($f:ident $t:ty, $n:ident $w:ty;)*) => {
        $(fn $f(self, _: C, v: $t) -> Result<(), Self::Error> {
            num_is(self.0, Num::$n(v as $w));
            Ok(())
        })*
    };
}
#[musli::de::visitor]
impl<'de, 'n, C: Context> Visitor<'de, C> for Any<'n> {
    type Ok = ();
    type String = AnyStr<'n>;
    type Bytes = AnyStr<'n>;

    fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "anything")
    }
    visit! {
        visit_u8 u8, U u128; visit_u16 u16, U u128; visit_u32 u32, U u128; visit_u64 u64, U u128;
        visit_u128 u128, U u128; visit_usize usize, U u128;
        visit_i8 i8, I i128; visit_i16 i16, I i128; visit_i32 i32, I i128; visit_i64 i64, I i128;
        visit_i128 i128, I i128; visit_isize isize, I i128;
        visit_f32 f32, F f64; visit_f64 f64, F f64;
    }
    fn visit_empty(self, _: C) -> Result<(), Self::Error> {
        if !matches!(self.0, Node::Unit) {
            differs(self.0, "nothing".into());
        }
        Ok(())
    }
    fn visit_bool(self, _: C, b: bool) -> Result<(), Self::Error> {
        if !matches!(self.0, Node::Bool(v) if *v == b) {
            differs(self.0, format!("{b}"));
        }
        Ok(())
    }
    fn visit_char(self, _: C, c: char) -> Result<(), Self::Error> {
        if !matches!(self.0, Node::Char(v) if *v == c) {
            differs(self.0, format!("{c:?}"));
        }
        Ok(())
    }
    fn visit_none(self, _: C) -> Result<(), Self::Error> {
        if !matches!(self.0, Node::None) {
            differs(self.0, "no value".into());
        }
        Ok(())
    }
    fn visit_some<D>(self, d: D) -> Result<(), Self::Error>
    where
        D: Decoder<'de, Cx = C, Error = Self::Error, Allocator = Self::Allocator>,
    {
        match self.0 {
            Node::Some(v) => walk(d, v),
            _ => differs(self.0, "a present value".into()),
        }
    }
    fn visit_sequence<D>(self, d: &mut D) -> Result<(), Self::Error>
    where
        D: ?Sized + SequenceDecoder<'de, Cx = C, Error = Self::Error, Allocator = Self::Allocator>,
    {
        match self.0 {
            Node::Seq(v) => items(d, self.0, v),
            _ => differs(self.0, "a sequence".into()),
        }
    }
    fn visit_map<D>(self, d: &mut D) -> Result<(), Self::Error>
    where
        D: ?Sized + MapDecoder<'de, Cx = C, Error = Self::Error, Allocator = Self::Allocator>,
    {
        match self.0 {
            Node::Map(v, _) => entries(d, self.0, v),
            _ => differs(self.0, "a map".into()),
        }
    }
    fn visit_variant<D>(self, d: &mut D) -> Result<(), Self::Error>
    where
        D: ?Sized + VariantDecoder<'de, Cx = C, Error = Self::Error, Allocator = Self::Allocator>,
    {
        match self.0 {
            Node::Var(k, v) => variant(d, k, v),
            _ => differs(self.0, "a variant".into()),
        }
    }
    fn visit_string(self, _: C, _: SizeHint) -> Result<Self::String, Self::Error> {
        Ok(AnyStr(self.0))
    }
    fn visit_bytes(self, _: C, _: SizeHint) -> Result<Self::Bytes, Self::Error> {
        Ok(AnyStr(self.0))
    }
}
struct AnyStr<'n>(&'n Node);
#[musli::de::unsized_visitor]
impl<'n, C: Context> UnsizedVisitor<'_, C, str> for AnyStr<'n> {
    type Ok = ();
    fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "text")
    }
    fn visit_ref(self, _: C, s: &str) -> Result<(), Self::Error> {
        if !matches!(self.0, Node::Str(v) if v == s) {
            differs(self.0, format!("{s:?}"));
        }
        Ok(())
    }
}
#[musli::de::unsized_visitor]
impl<'n, C: Context> UnsizedVisitor<'_, C, [u8]> for AnyStr<'n> {
    type Ok = ();
    fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "bytes")
    }
    fn visit_ref(self, _: C, b: &[u8]) -> Result<(), Self::Error> {
        let same = match self.0 {
            Node::Bytes(v) => v == b,
            Node::Arr(v) => v == b,
            _ => false,
        };
        if !same {
            differs(self.0, format!("{b:?}"));
        }
        Ok(())
    }
}

pub fn c20() {
    let f = *pick(&ALL[2..]);
    gen::reset(f);
    MAKE.set(f);
    let sender = {
        let _g = galloc::track(false);
        Site::kind(2, false, false)
    };
    // a stream of messages
    let mut sent = Vec::new();
    let mut bytes = Vec::new();
    let count = 1 + below(3);
    for _ in 0..count {
        let n = gen_root();
        let start = bytes.len();
        let mut out = Vec::new();
        if enc(f, sender.cx(), &mut W::Vec(&mut out), &n).is_err() {
            violate("encode-refused", format!("{f:?}: {:?}; {n:?}", sender.cx().error()));
        }
        bytes.extend_from_slice(&out);
        ev!("message {} ({:?}) at {start}: {n:?} = {}", sent.len(), f, hex(&out));
        sent.push((start, n));
    }
    sender.close("encode");
    ensure_large(bytes.len());
    let rd = if choose(2) == 0 { Rd::Slice } else { Rd::Ptr };
    let mut g = sys::Guarded::new(bytes.len().max(1));
    let mem: &[u8] = g.place_end(&bytes);
    let passes = 1 + below(3);
    let site = Site::any();
    for pass in 0..passes {
        let free = choose(5) != 0;
        let mut input = mem;
        for (i, (start, n)) in sent.iter().enumerate() {
            if !consumes(f, rd) {
                input = &mem[*start..sent.get(i + 1).map_or(mem.len(), |m| m.0)];
            } else {
                let at = mem.len() - input.len();
                let ws = f.is_json() && mem[at.min(*start)..at.max(*start)].iter().all(|b| b.is_ascii_whitespace());
                ensure!(at == *start || ws, "desync", "{f:?}: message {i} begins at {start}, but the reader stands at {at}");
            }
            SESS.set(Sess { fmt: f, left: 0, buffered: 0, free, over: false, calls: 0 });
            WHAT.set(n);
            advance_time(1);
            let r = guard("decode", || dec::<Got>(f, rd, site.cx(), &mut input)).ok().unwrap();
            let s = sess();
            ev!("pass {pass} message {i}: {} left {}", if r.is_ok() { "ok" } else { "refused" }, s.left);
            state(mix(i as u64, mix(s.left as u64, mix(f as u64, r.is_ok() as u64))));
            if s.left > 0 {
                nontrivial();
            }
            if r.is_err() && s.over {
                probe("asking for more refused");
                break;
            }
            ensure!(!s.over, "overread", "{f:?} {rd:?}: more was asked for than was sent, and found: {n:?}");
            if r.is_err() {
                let e = site.cx().error();
                ensure!(
                    s.left > 0 && f.is_storage(),
                    "refused",
                    "{f:?} {rd:?}: {:?} after {} skips and stops, reading {n:?}",
                    e.map(|e| e + "; " + &site.cx().report()),
                    s.left
                );
                fault("storage refused");
                break;
            }
            if i + 1 == sent.len() && consumes(f, rd) {
                ensure!(input.iter().all(|b| b.is_ascii_whitespace() && f.is_json()), "desync", "{f:?}: {} bytes are left after the last message", input.len());
            }
        }
    }
    site.close("decode");
    check_heap("stopping");
}
fn ensure_large(n: usize) {
    large(n > 30_000);
}
