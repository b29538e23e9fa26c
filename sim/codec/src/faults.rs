//! C03: memory that runs out. C04: devices that fail. C08: logs cut by crashes.
use crate::dynx::*;
use crate::falloc::Policy;
use crate::fmt::*;
use crate::gen;
use crate::rt::*;
use crate::types::*;
use musli::writer::BufWriter;
use musli::{Context, FixedBytes};
use simcore::*;
use std::any::Any;
use std::io::ErrorKind;

/// Which requests are refused, given how many there were without faults.
pub fn policy(n: u64) -> Policy {
    let n = n.max(1);
    match choose(6) {
        0 | 1 => Policy::At(choose(n), 1),
        2 => Policy::At(choose(n), 1 + choose(4)),
        3 => Policy::From(choose(n)),
        4 => Policy::OneIn(2 + choose(8)),
        _ => Policy::Budget(below(2000)),
    }
}

struct Sent {
    sh: &'static dyn Shape,
    f: Fmt,
    v: Box<dyn Any>,
    bytes: Vec<u8>,
}

fn message_of(name: &str, mask: u32) -> Sent {
    message_as(shapes().iter().copied().find(|s| s.name() == name).unwrap(), mask)
}

/// A message encoded without any fault.
fn message(mask: u32) -> Sent {
    let sh = loop {
        let s = pick_shape(mask);
        if s.finding().is_none() {
            break s;
        }
    };
    message_as(sh, mask)
}

fn message_as(sh: &'static dyn Shape, mask: u32) -> Sent {
    let f = pick_fmt(sh, mask);
    gen::reset(f);
    let v = sh.gen();
    let site = Site::kind(2, false, false);
    let bytes = match encode_vec(sh, f, site.cx(), &*v) {
        Ok(b) => b,
        Err(()) => violate("encode-refused", format!("{} {f:?}: {:?}; value {}", sh.name(), site.cx().error(), sh.show(&*v))),
    };
    site.close("encode");
    note(hash_bytes(&bytes));
    ev!("message {} {f:?}: {}", sh.name(), sh.show(&*v));
    ev!("  encoded {}", hex(&bytes));
    Sent { sh, f, v, bytes }
}

/// What was delivered to a destination, and what the library says is left of it.
pub struct Delivery {
    pub ok: bool,
    pub got: Vec<u8>,
    pub left: Option<usize>,
    pub room: Option<usize>,
    pub device_failed: bool,
    pub after_failure: u64,
}

/// Encode into destination `which`, of the given room where it is bounded.
fn deliver(s: &Sent, cx: Cx, da: Da, which: u64, room: usize, plan: IoPlan) -> Delivery {
    let (sh, f, v) = (s.sh, s.f, &*s.v);
    let mut d = Delivery { ok: false, got: Vec::new(), left: None, room: None, device_failed: false, after_failure: 0 };
    match which {
        0 => {
            let mut io = SimIo::new(plan);
            d.ok = sh.enc(f, cx, &mut W::io(&mut io), v).is_ok();
            d.device_failed = io.failed;
            d.after_failure = io.calls_after_failure;
            d.got = io.data;
        }
        1 => {
            // a fixed destination against the end of mapped memory
            let mut g = sys::Guarded::new(room.max(1));
            let fresh = vec![0xEE; room];
            let mem = g.place_end(&fresh);
            let r = sh.enc(f, cx, &mut W::slice(mem), v);
            d.room = Some(room);
            let cut = match r {
                Ok(left) => {
                    d.ok = true;
                    d.left = left;
                    room - left.unwrap_or(0).min(room)
                }
                // how much was delivered is not reported: find the end of what was written
                Err(()) => mem.iter().rposition(|b| *b != 0xEE).map_or(0, |p| p + 1),
            };
            if let Some(p) = mem[cut..].iter().position(|b| *b != 0xEE) {
                violate("wrote-past-end", format!("{} {f:?}: byte {} after the reported end {cut} of {room} was touched", sh.name(), cut + p));
            }
            d.got = mem[..cut].to_vec();
            if !d.ok {
                // a byte of the message may itself be the filler
                let n = s.bytes.iter().zip(mem.iter()).take_while(|(a, b)| a == b).count();
                if n >= cut {
                    d.got = s.bytes[..cut].to_vec();
                }
            }
        }
        2 => {
            let mut o = Vec::new();
            d.ok = sh.enc(f, cx, &mut W::Vec(&mut o), v).is_ok();
            d.got = o;
        }
        3 => {
            let mut b = BufWriter::new(da);
            d.ok = sh.enc(f, cx, &mut W::Buf(&mut b), v).is_ok();
            let o = b.into_inner();
            d.got = o.as_slice().to_vec();
        }
        _ => {
            let mut b = FixedBytes::<FIXED>::new();
            d.ok = sh.enc(f, cx, &mut W::Fixed(&mut b), v).is_ok();
            d.room = Some(FIXED);
            if d.ok {
                d.left = Some(b.remaining());
            }
            ensure!(b.len() + b.remaining() == FIXED, "wrong-remaining", "FixedBytes reports {} used and {} free of {FIXED}", b.len(), b.remaining());
            d.got = b.as_slice().to_vec();
        }
    }
    d
}

const DEST: [&str; 5] = ["io", "slice", "vec", "buf", "fixed"];

/// The verdict on one encoding attempt.
fn judge(s: &Sent, d: &Delivery, cx: Cx, dest: &str, may_fail: bool) {
    let (name, f) = (s.sh.name(), s.f);
    if d.ok {
        ensure!(!d.device_failed, "failure-reported-as-success", "{name} {f:?} to {dest}: the device failed but encoding succeeded; {} of {} bytes arrived", d.got.len(), s.bytes.len());
        if d.got != s.bytes {
            violate("wrong-bytes-on-success", format!("{name} {f:?} to {dest}: success with {} bytes {} of {} {}", d.got.len(), hex(&d.got), s.bytes.len(), hex(&s.bytes)));
        }
        if let (Some(room), Some(left)) = (d.room, d.left) {
            ensure!(left == room - s.bytes.len(), "wrong-remaining", "{name} {f:?} to {dest}: {left} reported left of {room} after {} bytes", s.bytes.len());
        }
    } else {
        ensure!(may_fail, "failed-without-fault", "{name} {f:?} to {dest}: nothing was refused, yet {:?}; value {}", cx.error(), s.sh.show(&*s.v));
        ensure!(cx.error().is_some(), "error-not-captured", "{name} {f:?} to {dest}: encoding failed but the context captured nothing");
        ensure!(s.bytes.starts_with(&d.got), "not-a-prefix", "{name} {f:?} to {dest}: failed with {} delivered, which is not a prefix of {}", hex(&d.got), hex(&s.bytes));
    }
}

fn refusing(kind: u64, traced: bool) -> (Site, bool) {
    let _g = galloc::track(false);
    if kind == 1 {
        (Site::small(*pick(&[0usize, 8, 24, 40, 64, 100, 200, 500, 1500]) + below(40), traced), true)
    } else {
        (Site::kind(0, traced, choose(2) == 1), false)
    }
}

pub fn c03() {
    // half of the messages need memory in the middle of an operation
    let s = match choose(4) {
        0 => message_of("InAlloc", M_ALL),
        1 => message(M_JSON),
        2 => message_of(*pick(&["Untag", "Int", "IntNum", "Mixed", "Withs"]), M_ALL),
        _ => message(M_ALL),
    };
    let (sh, f) = (s.sh, s.f);
    for _ in 0..range(1, 3) {
        let (site, arena) = refusing(choose(3), choose(2) == 1);
        let cx = site.cx();
        let live0 = galloc::live();
        if choose(2) == 0 {
            // sending
            let which = choose(5);
            let room = if which == 1 && choose(4) == 0 { below(s.bytes.len() + 8) } else { s.bytes.len() + below(9) };
            let fits = match which {
                1 => room >= s.bytes.len(),
                4 => FIXED >= s.bytes.len(),
                _ => true,
            };
            let mut n = 0;
            if !arena {
                let d = guard("encode", || galloc::tracked(|| deliver(&s, cx, site.da, which, room, IoPlan::Good))).ok().unwrap();
                judge(&s, &d, cx, DEST[which as usize], !fits);
                n = site.fa().requests.get();
                cx.clear();
                site.fa().set(policy(n));
                ev!("send to {} with {:?} of {n} requests", DEST[which as usize], site.fa().policy.get());
            }
            let d = guard("encode", || galloc::tracked(|| deliver(&s, cx, site.da, which, room, IoPlan::Good))).ok().unwrap();
            let fired = arena || site.fa().fired.get() > 0;
            judge(&s, &d, cx, DEST[which as usize], !fits || fired);
            let _ = guard("report", || cx.report());
            if arena && !d.ok {
                fault("arena exhausted");
            }
            if !arena {
                state(mix(1, mix(n.min(40), mix(site.fa().fired.get().min(8), which * 2 + d.ok as u64))));
                // memory is back
                site.fa().set(Policy::Never);
                guard("clear", || cx.clear()).ok().unwrap();
                let d = guard("encode", || deliver(&s, cx, site.da, which, room, IoPlan::Good)).ok().unwrap();
                judge(&s, &d, cx, DEST[which as usize], !fits);
            }
        } else {
            let rd = pick_rd(sh, f);
            let mut g = sys::Guarded::new(s.bytes.len().max(1));
            let mem: &[u8] = g.place_end(&s.bytes);
            let mut n = 0;
            if !arena {
                receive(&s, &site, rd, mem, false);
                n = site.fa().requests.get();
                cx.clear();
                site.fa().set(policy(n));
                ev!("receive with {:?} of {n} requests", site.fa().policy.get());
            }
            let ok = receive(&s, &site, rd, mem, true);
            let _ = guard("report", || cx.report());
            if arena && !ok {
                fault("arena exhausted");
            }
            if !arena {
                state(mix(2, mix(n.min(40), mix(site.fa().fired.get().min(8), ok as u64))));
                site.fa().set(Policy::Never);
                guard("clear", || cx.clear()).ok().unwrap();
                receive(&s, &site, rd, mem, false);
            }
        }
        site.close("operation");
        check_heap(sh.name());
        let live = galloc::live();
        ensure!(live == live0, "heap-leak", "{} {f:?}: {} blocks ({} bytes) of the operation are still allocated", sh.name(), live.0 - live0.0, live.1 - live0.1);
        advance_time(1);
        step();
    }
    nontrivial();
}

/// Decode; returns whether it succeeded.
fn receive(s: &Sent, site: &Site, rd: Rd, mem: &[u8], may_fail: bool) -> bool {
    let (sh, f, cx) = (s.sh, s.f, site.cx());
    let mut input = mem;
    match guard("decode", || galloc::tracked(|| sh.dec(f, rd, cx, &mut input))).ok().unwrap() {
        Ok(got) => {
            if !sh.same(&*s.v, &*got) {
                violate("value-changed", format!("{} {f:?} {rd:?}: sent {} received {} (faults allowed: {may_fail})", sh.name(), sh.show(&*s.v), sh.show(&*got)));
            }
            ensure!(!consumes(f, rd) || input.trim_ascii_start().is_empty() || !f.is_json() && input.is_empty(), "wrong-consumption", "{} {f:?} {rd:?}: {} bytes of the message left", sh.name(), input.len());
            galloc::untracked(|| drop(got));
            true
        }
        Err(()) => {
            let fired = match site.da {
                Da::F(a) => a.fired.get() > 0,
                Da::S(_) => true,
                Da::Sys => false,
            };
            ensure!(may_fail && fired, "failed-without-fault", "{} {f:?} {rd:?}: nothing was refused, yet {:?}; value {} bytes {}", sh.name(), cx.error(), sh.show(&*s.v), hex(&s.bytes));
            ensure!(cx.error().is_some(), "error-not-captured", "{} {f:?} {rd:?}: decoding failed but the context captured nothing", sh.name());
            false
        }
    }
}

pub fn c04() {
    let s = message(M_ALL);
    let n = s.bytes.len();
    for _ in 0..range(1, 4) {
        let site = Site::any();
        let cx = site.cx();
        let which = *pick(&[0u64, 0, 0, 1, 1, 2, 3, 4]);
        let at = below(n + 2);
        let kind = *pick(&[ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::StorageFull, ErrorKind::WriteZero]);
        let plan = match choose(5) {
            0 => IoPlan::FailAt(at, kind),
            1 => IoPlan::FullAt(at),
            2 => IoPlan::GlitchAt(at, kind),
            3 => IoPlan::Short,
            _ => IoPlan::Good,
        };
        let room = match choose(4) {
            0 => below(n + 1),
            1 => n.saturating_sub(1 + below(3)),
            2 => n,
            _ => n + below(40),
        };
        ev!("send to {} plan {plan:?} room {room} of {n}", DEST[which as usize]);
        let live0 = galloc::live();
        let d = guard("encode", || galloc::tracked(|| deliver(&s, cx, site.da, which, room, plan))).ok().unwrap();
        let may_fail = match which {
            0 => d.device_failed,
            1 => room < n,
            4 => FIXED < n,
            _ => false,
        };
        if which == 1 && room < n {
            fault("destination too small");
        }
        if which == 4 && FIXED < n {
            fault("destination too small");
        }
        judge(&s, &d, cx, DEST[which as usize], may_fail);
        if which == 1 {
            ensure!(d.ok == (room >= n), "fixed-destination", "{} {:?}: {n} bytes into {room} gave success={}", s.sh.name(), s.f, d.ok);
        }
        if which == 4 {
            ensure!(d.ok == (FIXED >= n), "fixed-destination", "{} {:?}: {n} bytes into {FIXED} gave success={}", s.sh.name(), s.f, d.ok);
        }
        state(mix(hash_bytes(DEST[which as usize].as_bytes()), mix(s.f as u64, mix(d.got.len().min(64) as u64, d.ok as u64))));
        if !d.ok && which == 0 {
            // the device works again
            cx.clear();
            let d = guard("encode", || deliver(&s, cx, site.da, 0, 0, IoPlan::Short)).ok().unwrap();
            judge(&s, &d, cx, "io", false);
        }
        drop(d);
        site.close("encode");
        check_heap(s.sh.name());
        ensure!(galloc::live() == live0, "heap-leak", "{} {:?}: memory of the encoding is still allocated", s.sh.name(), s.f);
        step();
    }
    nontrivial();
}

/// A file of which only a prefix is certain to survive a crash.
struct Disk {
    data: Vec<u8>,
    synced: usize,
}

/// A log recovered by a program that does not know what the records hold: it
/// skips over what it does not know, and must notice as well that a record is torn.
fn strangers() {
    let f = loop {
        let f = *pick(&ALL);
        if f.tagged() {
            break f;
        }
    };
    let s = loop {
        let s = message(f.bit());
        if !s.bytes.is_empty() && !s.bytes[0].is_ascii_digit() && s.bytes[0] != b'-' {
            break s;
        }
    };
    let t = *pick(crate::damage::EXTRA);
    if t.fmts() & f.bit() == 0 {
        return;
    }
    ev!("record {} {f:?} {} read by {}", s.sh.name(), hex(&s.bytes), t.name());
    let rd = if f.is_json() { Rd::Slice } else { pick_rd(t, f) };
    let (name, n) = (s.sh.name(), s.bytes.len());
    let site = Site::any();
    let read = |b: &[u8]| {
        let mut g = sys::Guarded::new(b.len().max(1));
        let mem: &[u8] = g.place_end(b);
        let mut input: &[u8] = mem;
        site.cx().clear();
        let r = guard("decode", || t.dec(f, rd, site.cx(), &mut input)).ok().unwrap();
        let left = input.len();
        r.map(|v| {
            let shown = galloc::untracked(|| t.show(&*v));
            drop(v);
            (left, shown)
        })
    };
    match read(&s.bytes) {
        // a reader of records of this kind
        Ok((0, _)) => probe("record read by a stranger"),
        _ => {
            site.close("stranger");
            return;
        }
    }
    for k in 0..range(1, 6) {
        let cut = if k == 0 { n - 1 } else { below(n) };
        fault("crash lost the unsynced tail");
        match read(&s.bytes[..cut]) {
            Ok((_, v)) => violate("torn-record-believed", format!("{name} {f:?} {rd:?}: {cut} of {n} bytes survived, yet they decoded as {v} by {}; bytes {}", t.name(), hex(&s.bytes))),
            Err(()) => ensure!(site.cx().error().is_some(), "error-not-captured", "{name} {f:?}: no error was captured for a torn record"),
        }
        state(mix(f as u64, mix(n.min(40) as u64, mix((n - cut).min(20) as u64, hash_bytes(t.name().as_bytes())))));
        step();
        advance_time(1);
    }
    site.close("stranger");
    check_heap("recovery by a stranger");
    nontrivial();
}

pub fn c08() {
    match choose(12) {
        10 | 11 => return strangers(),
        9 => return crate::readers::scene(),
        _ => (),
    }
    let mixed = choose(3) == 0;
    let mut plan: Option<(&'static dyn Shape, Fmt)> = None;
    let mut disk = Disk { data: Vec::new(), synced: 0 };
    // records as the application believes them to be on disk: end offset and content
    let mut recs: Vec<(usize, Sent)> = Vec::new();
    let cycles = range(1, 3);
    let f0 = ALL[below(ALL.len())];
    for cycle in 0..cycles {
        let n = range(1, 5);
        for _ in 0..n {
            let s = loop {
                let s = match plan {
                    Some((sh, f)) if !mixed => {
                        gen::reset(f);
                        let v = sh.gen();
                        let site = Site::kind(2, false, false);
                        let bytes = encode_vec(sh, f, site.cx(), &*v).unwrap_or_default();
                        site.close("encode");
                        Sent { sh, f, v, bytes }
                    }
                    _ => message(f0.bit()),
                };
                if !s.f.is_json() || !s.bytes.first().is_some_and(|b| b.is_ascii_digit() || *b == b'-') {
                    break s;
                }
                plan = None;
            };
            plan = Some((s.sh, s.f));
            // append through a device that may fill up or fail midway
            let plan = match choose(6) {
                0 => IoPlan::FailAt(below(s.bytes.len() + 1), ErrorKind::Other),
                1 => IoPlan::FullAt(below(s.bytes.len() + 1)),
                2 => IoPlan::Short,
                _ => IoPlan::Good,
            };
            let site = Site::any();
            let mut io = SimIo::new(plan);
            let r = guard("encode", || s.sh.enc(s.f, site.cx(), &mut W::io(&mut io), &*s.v)).ok().unwrap();
            site.close("encode");
            let start = disk.data.len();
            disk.data.extend_from_slice(&io.data);
            ev!("append {} {:?} {} bytes, plan {plan:?}: {}", s.sh.name(), s.f, s.bytes.len(), if r.is_ok() { "ok" } else { "error" });
            match r {
                Ok(_) => {
                    ensure!(io.data == s.bytes, "wrong-bytes-on-success", "{} {:?}: append succeeded with other bytes", s.sh.name(), s.f);
                    recs.push((disk.data.len(), s));
                    if choose(3) == 0 {
                        disk.synced = disk.data.len();
                    }
                }
                Err(()) => {
                    ensure!(io.failed, "failed-without-fault", "{} {:?}: append failed on a working device", s.sh.name(), s.f);
                    if choose(2) == 0 {
                        // the application truncates the torn record and goes on
                        disk.data.truncate(start);
                    } else {
                        // or leaves it for recovery to find
                        recs.push((usize::MAX, s));
                        break;
                    }
                }
            }
            step();
        }
        // crash: anything after the synced prefix may be lost, to the byte
        let last = cycle + 1 == cycles && choose(4) == 0;
        if !last {
            let cut = match choose(3) {
                0 => disk.data.len() - below((disk.data.len() - disk.synced).min(12) + 1),
                _ => range(disk.synced, disk.data.len()),
            };
            if cut < disk.data.len() {
                fault("crash lost the unsynced tail");
            } else {
                fault("crash");
            }
            disk.data.truncate(cut);
            ev!("crash: {cut} bytes survive");
        }
        recover(&mut disk, &mut recs);
    }
    nontrivial();
}

fn recover(disk: &mut Disk, recs: &mut Vec<(usize, Sent)>) {
    let mut g = sys::Guarded::new(disk.data.len().max(1));
    let mem: &[u8] = g.place_end(&disk.data);
    let mut input: &[u8] = mem;
    let mut off = 0;
    let mut whole = 0;
    let shared = if choose(2) == 0 { Some(Site::any()) } else { None };
    for (i, (_, s)) in recs.iter().enumerate() {
        let own;
        let site = match &shared {
            Some(s) => s,
            None => {
                own = Site::any();
                &own
            }
        };
        let cx = site.cx();
        cx.clear();
        let rd = if s.f.is_json() { Rd::Slice } else { pick_rd(s.sh, s.f) };
        if s.f.is_json() && s.sh.untagged() {
            // the exact-consumption JSON reader cannot be cloned: nothing to recover with
            let Some(rest) = input.get(s.bytes.len()..) else { break };
            input = rest;
            off += s.bytes.len();
            whole = i + 1;
            continue;
        }
        let fits = off + s.bytes.len() <= disk.data.len();
        let before = input.len();
        let r = guard("decode", || s.sh.dec(s.f, rd, cx, &mut input)).ok().unwrap();
        let err = cx.error();
        let (name, f) = (s.sh.name(), s.f);
        match r {
            Ok(v) => {
                if !fits {
                    violate("torn-record-believed", format!("{name} {f:?} {rd:?}: {before} of {} bytes of record {i} survived, yet it decoded as {}; sent {}", s.bytes.len(), s.sh.show(&*v), s.sh.show(&*s.v)));
                }
                if !s.sh.same(&*v, &*s.v) {
                    violate("record-changed", format!("{name} {f:?} {rd:?}: record {i} {} came back as {}", s.sh.show(&*s.v), s.sh.show(&*v)));
                }
                ensure!(before - input.len() == s.bytes.len(), "wrong-consumption", "{name} {f:?} {rd:?}: record {i} of {} bytes consumed {}", s.bytes.len(), before - input.len());
                off += s.bytes.len();
                whole = i + 1;
            }
            Err(()) => {
                if fits {
                    violate("whole-record-lost", format!("{name} {f:?} {rd:?}: record {i} lies wholly before the cut but: {err:?}; value {} bytes {}", s.sh.show(&*s.v), hex(&s.bytes)));
                }
                ensure!(err.is_some(), "error-not-captured", "{name} {f:?}: no error was captured for a torn record");
                probe("torn record refused");
                break;
            }
        }
        state(mix(f as u64, mix(i as u64, mix((disk.data.len() - off).min(40) as u64, fits as u64))));
        advance_time(1);
    }
    // everything synced must be there
    ensure!(off >= disk.synced, "synced-record-lost", "recovery stopped at {off} although {} bytes were synced", disk.synced);
    recs.truncate(whole);
    disk.data.truncate(off);
    disk.synced = off;
    drop(g);
    check_heap("recovery");
}
