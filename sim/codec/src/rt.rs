//! C05: messages delivered intact.
use crate::dynx::*;
use crate::fmt::*;
use crate::gen;
use crate::types::*;
use musli::writer::BufWriter;
use musli::FixedBytes;
use simcore::*;
use std::any::Any;

pub use crate::site::*;

pub fn encode_vec(sh: &dyn Shape, f: Fmt, cx: Cx, v: &dyn Any) -> Result<Vec<u8>, ()> {
    let mut out = Vec::new();
    let r = sh.enc(f, cx, &mut W::Vec(&mut out), v);
    large(out.len() > 30_000);
    r.map(|_| out)
}

/// A message that did not arrive: a violation, or a recorded finding of its type.
fn failed(sh: &dyn Shape, class: &str, detail: String) -> ! {
    match sh.finding() {
        Some(k) => violate_soft(k, detail),
        None => violate(class, detail),
    }
}

pub fn pick_shape(mask: u32) -> &'static dyn Shape {
    loop {
        let s = shapes()[below(shapes().len())];
        // recorded findings are looked at now and then
        if s.fmts() & mask != 0 && (s.finding().is_none() || chance(1, 20)) {
            return s;
        }
    }
}
pub fn pick_fmt(sh: &dyn Shape, mask: u32) -> Fmt {
    let v: Vec<Fmt> = ALL.iter().copied().filter(|f| sh.fmts() & mask & f.bit() != 0).collect();
    *pick(&v)
}
/// Reader usable for this type in this encoding.
pub fn pick_rd(sh: &dyn Shape, f: Fmt) -> Rd {
    if f.is_json() && sh.untagged() {
        return Rd::Ptr;
    }
    if choose(2) == 0 {
        Rd::Slice
    } else {
        Rd::Ptr
    }
}

/// Encode through a seeded choice of writer; `expect` is the reference encoding.
fn encode_again(sh: &dyn Shape, f: Fmt, v: &dyn Any, expect: &[u8]) {
    let site = Site::any();
    let cx = site.cx();
    let which = choose(5);
    let what = ["io", "slice", "vec", "buf", "fixed"][which as usize];
    let mut got = Vec::new();
    let r = guard("encode", || match which {
        0 => {
            let mut io = SimIo::new(if choose(2) == 0 { IoPlan::Good } else { IoPlan::Short });
            let r = sh.enc(f, cx, &mut W::io(&mut io), v);
            got = io.data;
            r
        }
        1 => {
            let extra = *pick(&[0usize, 1, 7, 100]);
            let mut mem = vec![0xEE; expect.len() + extra];
            let r = sh.enc(f, cx, &mut W::slice(&mut mem), v);
            if let Ok(left) = r {
                ensure!(left == Some(extra), "wrong-remaining", "{} {f:?}: slice writer reports {left:?} left, {extra} expected", sh.name());
                ensure!(mem[expect.len()..].iter().all(|b| *b == 0xEE), "wrote-past-end", "{} {f:?}: bytes past the message were touched", sh.name());
            }
            got = mem[..expect.len()].to_vec();
            r
        }
        2 => {
            let mut o = Vec::new();
            let r = sh.enc(f, cx, &mut W::Vec(&mut o), v);
            got = o;
            r
        }
        3 => {
            let mut b = BufWriter::new(site.da);
            let r = sh.enc(f, cx, &mut W::Buf(&mut b), v);
            let o = b.into_inner();
            got = o.as_slice().to_vec();
            r
        }
        _ => {
            if expect.len() > FIXED {
                got = expect.to_vec();
                return Ok(None);
            }
            let mut b = FixedBytes::<FIXED>::new();
            let r = sh.enc(f, cx, &mut W::Fixed(&mut b), v);
            got = b.as_slice().to_vec();
            r
        }
    })
    .ok()
    .unwrap();
    if r.is_err() {
        let e = cx.error();
        violate("encode-differs", format!("{} {f:?}: encoding again through the {what} writer failed: {e:?}; value {}", sh.name(), sh.show(v)));
    }
    if got != expect && !sh.unordered() {
        violate("encode-differs", format!("{} {f:?}: encoding again through the {what} writer gave other bytes: {} not {}; value {}", sh.name(), hex(&got), hex(expect), sh.show(v)));
    }
    site.close("encode");
}

pub fn c05() {
    let n = range(1, 3);
    // the link: messages are delivered intact, possibly with other traffic around them
    for m in 0..n {
        let sh = pick_shape(M_ALL);
        let f = pick_fmt(sh, M_ALL);
        gen::reset(f);
        let v = sh.gen();
        ev!("message {m}: {} as {f:?}: {}", sh.name(), sh.show(&*v));
        let from = Site::any();
        let bytes = match guard("encode", || encode_vec(sh, f, from.cx(), &*v)).ok().unwrap() {
            Ok(b) => b,
            Err(()) => violate("encode-refused", format!("{} {f:?}: {:?}; value {}", sh.name(), from.cx().error(), sh.show(&*v))),
        };
        ensure!(from.cx().error().is_none(), "error-on-success", "{} {f:?}: encoding succeeded but an error was captured", sh.name());
        ev!("  encoded {}", hex(&bytes));
        note(hash_bytes(&bytes));
        from.close("encode");
        if choose(2) == 1 {
            encode_again(sh, f, &*v, &bytes);
        }
        // delivery: at any address, directly against the end of memory or followed by other traffic
        let tail: &[u8] = match choose(4) {
            0 => b"",
            1 => b" \xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff",
            2 => b" 0\x00\x00\x00\x00\x00\x00\x00\x00",
            _ => b" {\"a\":1}",
        };
        let tail = if f.is_json() { tail } else { tail.get(1..).unwrap_or(b"") };
        let rd = pick_rd(sh, f);
        let tail = if f == Json && rd == Rd::Ptr { b"" } else { tail };
        let mut g = sys::Guarded::new(bytes.len() + tail.len() + 16);
        let mut all = bytes.clone();
        all.extend_from_slice(tail);
        let mem = g.place_end(&all);
        let mut input: &[u8] = mem;
        let to = Site::any();
        let cx = to.cx();
        let r = guard("decode", || sh.dec(f, rd, cx, &mut input)).ok().unwrap();
        match r {
            Err(()) => failed(sh, "decode-failed", format!("{} {f:?} {rd:?}: {:?} {}; value {} bytes {}", sh.name(), cx.error(), cx.report(), sh.show(&*v), hex(&bytes))),
            Ok(got) => {
                if !sh.same(&*v, &*got) {
                    failed(sh, "value-changed", format!("{} {f:?} {rd:?}: sent {} received {} bytes {}", sh.name(), sh.show(&*v), sh.show(&*got), hex(&bytes)));
                }
                let e = cx.error();
                ensure!(e.is_none() || sh.untagged(), "error-on-success", "{} {f:?}: decoding succeeded but an error was captured: {e:?}", sh.name());
                if consumes(f, rd) {
                    let mut left = input;
                    let mut want = tail;
                    if f.is_json() {
                        // white space between messages belongs to nobody
                        left = left.trim_ascii_start();
                        want = want.trim_ascii_start();
                    }
                    ensure!(left == want, "wrong-consumption", "{} {f:?} {rd:?}: {} bytes left after a message followed by {}: value {}", sh.name(), left.len(), want.len(), sh.show(&*v));
                }
                galloc::untracked(|| drop(got));
            }
        }
        to.close("decode");
        check_heap(sh.name());
        state(mix(hash_bytes(sh.name().as_bytes()), mix(f as u64, bytes.len().min(64) as u64)));
        advance_time(1);
        step();
    }
    nontrivial();
}
