//! C09: relays which know no schema.
use crate::dynx::*;
use crate::falloc::Policy;
use crate::faults::policy;
use crate::fmt::*;
use crate::gen;
use crate::rt::*;
use crate::stopping::{expect, no_packs, tree_for, Node};
use crate::types::*;
use musli::mode::{Binary, Text};
use musli::value::Value;
use musli::Context;
use simcore::*;
use std::any::Any;

/// Types which contain packs: opaque bytes to whoever does not know their type.
const PACKED: &[&str] = &["Net", "Packs", "PackLists", "PackPlain", "Vec<PackA>"];
/// The self-descriptive encodings.
const TALK: [Fmt; 5] = [Desc, DescFix, DescText, Json, JsonBin];

enum Msg {
    Shape(&'static dyn Shape, Box<dyn Any>),
    Tree(Node),
}
impl Msg {
    fn show(&self) -> String {
        match self {
            Msg::Shape(sh, v) => format!("{} {}", sh.name(), sh.show(&**v)),
            Msg::Tree(n) => format!("{n:.1500?}"),
        }
    }
    fn enc(&self, f: Fmt, cx: Cx) -> Result<Vec<u8>, ()> {
        let mut out = Vec::new();
        match self {
            Msg::Shape(sh, v) => sh.enc(f, cx, &mut W::Vec(&mut out), &**v)?,
            Msg::Tree(n) => enc(f, cx, &mut W::Vec(&mut out), n)?,
        };
        Ok(out)
    }
}

/// The encodings a message passes through, from its sender to its receiver.
fn route() -> (Msg, Vec<Fmt>) {
    let kind = choose(8);
    let hops = 1 + choose(4) as usize;
    let desc = |f: &mut Vec<Fmt>| f.push(TALK[choose(3) as usize]);
    let mut r = Vec::new();
    match kind {
        // plain data takes any way in text mode
        0 => {
            let ends = [DescText, Json];
            r.push(*pick(&ends));
            for _ in 1..hops {
                r.push(*pick(&TALK));
            }
            r.push(*pick(&ends));
            gen::reset_for(r[0], true);
            (Msg::Shape(PLAIN, PLAIN.gen()), r)
        }
        1 | 2 => {
            // a tree has no mode
            let json = choose(2) == 1;
            if json {
                r.push(*pick(&TALK));
                for _ in 1..hops {
                    r.push(*pick(&TALK));
                }
                r.push(*pick(&[Json, JsonBin]));
                gen::reset_for(Json, true);
                let n = loop {
                    let n = tree_for(Json);
                    if no_packs(&n) {
                        break n;
                    }
                };
                return (Msg::Tree(n), r);
            }
            for _ in 0..=hops {
                desc(&mut r);
            }
            gen::reset(Desc);
            let n = tree_for(Desc);
            if !no_packs(&n) {
                *r.last_mut().unwrap() = r[0];
            }
            (Msg::Tree(n), r)
        }
        _ => {
            let sh = loop {
                let sh = pick_shape(M_DESC | M_JSON);
                if sh.finding().is_none() {
                    break sh;
                }
            };
            let from = pick_fmt(sh, M_DESC | M_JSON);
            r.push(from);
            let packed = PACKED.contains(&sh.name());
            let ends: Vec<Fmt> = TALK
                .into_iter()
                .filter(|f| sh.fmts() & f.bit() != 0 && f.text() == from.text() && (!from.is_json() || f.is_json()) && (!packed || *f == from))
                .collect();
            let to = *pick(&ends);
            for _ in 1..hops {
                // beyond JSON there is JSON, and packs do not become JSON
                if to.is_json() && (!packed || from.is_json()) {
                    r.push(*pick(&TALK));
                } else {
                    desc(&mut r);
                }
            }
            r.push(to);
            gen::reset_for(from, r.iter().any(|f| f.is_json()));
            let v = sh.gen();
            (Msg::Shape(sh, v), r)
        }
    }
}

fn mode_of(f: Fmt) -> bool {
    f.text()
}

/// Decode as a dynamic value and encode again.
fn forward(site: &Site, a: Fmt, b: Fmt, rd: Rd, input: &[u8], out: &mut Vec<u8>, copy: bool) -> Result<(), ()> {
    let cx = site.cx();
    let mut left = input;
    let v: Value<Da> = dec(a, rd, cx, &mut left)?;
    if consumes(a, rd) {
        ensure!(left.trim_ascii_start().is_empty() || !a.is_json() && left.is_empty(), "wrong-consumption", "{a:?} {rd:?}: a relay left {} bytes of the message", left.len());
    }
    let w = &mut W::Vec(out);
    if copy {
        let c: Value<Da> = match mode_of(a) {
            true => musli::value::decode_with::<_, _, Text>(cx, &v),
            false => musli::value::decode_with::<_, _, Binary>(cx, &v),
        }
        .map_err(|_| ())?;
        probe("copied");
        let nan = galloc::untracked(|| format!("{v:?}").contains("NaN"));
        ensure!(nan || c == v, "copy-differs", "a copy of a dynamic value differs: {c:?} is not {v:?}");
        enc(b, cx, w, &c)?;
    } else {
        enc(b, cx, w, &v)?;
    }
    Ok(())
}

fn received(sh: &dyn Shape, sent: &dyn Any, got: &dyn Any, how: &str) {
    if !sh.same(sent, got) {
        violate("value-changed", format!("{} {how}: sent {} received {}", sh.name(), sh.show(sent), sh.show(got)));
    }
}

fn direct() {
    // a value to dynamic and back
    let sh = loop {
        let sh = pick_shape(M_ALL);
        if sh.finding().is_none() {
            break sh;
        }
    };
    gen::reset(Desc);
    let v = sh.gen();
    let Some(d) = guard("encode", || sh.to_value(&*v)).ok().unwrap() else { return };
    ev!("{} {} as a dynamic value", sh.name(), sh.show(&*v));
    let Ok(d) = d else { violate("encode-refused", format!("{} {}: could not become a dynamic value", sh.name(), sh.show(&*v))) };
    let site = Site::any();
    let faulty = matches!(site.da, Da::F(_)) && choose(3) == 0;
    for pass in 0..if faulty { 2 } else { 1 } {
        if faulty {
            site.fa().set(if pass == 0 { policy(20) } else { Policy::Never });
        }
        match guard("decode", || sh.from_own_value(site.cx(), &d)).ok().unwrap() {
            Ok(got) => {
                received(sh, &*v, &*got, "as a dynamic value");
                galloc::untracked(|| drop(got));
            }
            Err(()) => ensure!(
                faulty && pass == 0 && site.fa().fired.get() > 0,
                "refused",
                "{} {}: {:?} from dynamic value {d:.1000?}",
                sh.name(),
                sh.show(&*v),
                site.cx().error()
            ),
        }
    }
    state(mix(7, hash_bytes(sh.name().as_bytes())));
    site.close("decode");
    check_heap(sh.name());
}

pub fn c09() {
    nontrivial();
    if choose(6) == 0 {
        return direct();
    }
    let (msg, route) = route();
    ev!("{:?}: {}", route, msg.show());
    let sender = {
        let _g = galloc::track(false);
        Site::kind(2, false, false)
    };
    let mut bytes = match msg.enc(route[0], sender.cx()) {
        Ok(b) => b,
        Err(()) => violate("encode-refused", format!("{:?}: {:?}; {}", route[0], sender.cx().error(), msg.show())),
    };
    sender.close("encode");
    large(bytes.len() > 3_000);
    ev!("  sent {}", hex(&bytes));
    note(hash_bytes(&bytes));
    let mut key = 0;
    for w in route.windows(2) {
        let (a, b) = (w[0], w[1]);
        key = mix(key, mix(a as u64, b as u64));
        let site = Site::any();
        let rd = if choose(2) == 0 { Rd::Slice } else { Rd::Ptr };
        let copy = choose(3) == 0;
        let mut g = sys::Guarded::new(bytes.len().max(1));
        let mem: &[u8] = g.place_end(&bytes);
        let mut out = Vec::new();
        if matches!(site.da, Da::F(_)) && choose(3) == 0 {
            site.fa().set(policy(if choose(2) == 0 { 6 } else { 100 }));
            let r = guard("forward", || forward(&site, a, b, rd, mem, &mut out, copy)).ok().unwrap();
            ensure!(
                r.is_ok() || site.fa().fired.get() > 0,
                "refused",
                "{a:?} to {b:?} of {route:?}: {:?}; {} as {}",
                site.cx().error(),
                msg.show(),
                hex(&bytes)
            );
            site.fa().set(Policy::Never);
            let l = site.fa().live.get();
            site.cx().clear();
            _ = l;
            if r.is_err() {
                // the relay tries again
                out.clear();
            }
        }
        if out.is_empty() {
            advance_time(1);
            let r = guard("forward", || forward(&site, a, b, rd, mem, &mut out, copy)).ok().unwrap();
            if r.is_err() {
                violate("refused", format!("{a:?} to {b:?} of {route:?} copied {copy}: {:?}; {} as {}", site.cx().error(), msg.show(), hex(&bytes)));
            }
        }
        ev!("  forwarded {a:?} to {b:?}: {}", hex(&out));
        site.close("forward");
        bytes = out;
        step();
    }
    let to = *route.last().unwrap();
    let site = Site::any();
    let mut g = sys::Guarded::new(bytes.len().max(1));
    let mem: &[u8] = g.place_end(&bytes);
    let mut input = mem;
    match &msg {
        Msg::Tree(n) => {
            let rd = if choose(2) == 0 { Rd::Slice } else { Rd::Ptr };
            let r = guard("decode", || expect(n, to, rd, site.cx(), &mut input)).ok().unwrap();
            ensure!(r.is_ok(), "refused", "{route:?}: {:?}; {n:?} received as {}", site.cx().error(), hex(&bytes));
            key = mix(key, 1);
        }
        Msg::Shape(sh, v) => {
            let rd = pick_rd(*sh, to);
            // a dynamic value at the receiver, too
            let through = choose(4) == 0 && route.iter().all(|f| f.is_desc()) && (!PACKED.contains(&sh.name()) || route[0] == Desc);
            let r = if through {
                probe("received as dynamic");
                let r = guard("decode", || dec::<Value<Da>>(to, rd, site.cx(), &mut input)).ok().unwrap();
                match r {
                    Ok(d) => {
                        // one that borrows from it
                        let r = guard("decode", || sh.from_value(mode_of(to), site.cx(), &d)).ok().unwrap();
                        guard("drop", || drop(d)).ok().unwrap();
                        match r {
                            Some(r) => r,
                            None => {
                                site.close("decode");
                                return;
                            }
                        }
                    }
                    Err(()) => Err(()),
                }
            } else {
                guard("decode", || sh.dec(to, rd, site.cx(), &mut input)).ok().unwrap()
            };
            match r {
                Ok(got) => {
                    received(*sh, &**v, &*got, &format!("through {route:?}{}", if through { " as a dynamic value" } else { "" }));
                    galloc::untracked(|| drop(got));
                }
                Err(()) => violate(
                    "refused",
                    format!("{} through {route:?} (dynamic {through}): {:?}; sent {} received {}", sh.name(), site.cx().error(), sh.show(&**v), hex(&bytes)),
                ),
            }
            key = mix(key, hash_bytes(sh.name().as_bytes()));
        }
    }
    state(key);
    site.close("decode");
    check_heap("relay");
}
