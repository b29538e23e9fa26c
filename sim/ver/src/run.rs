//! C06: a cluster whose nodes run different versions.
use crate::dynx::*;
use crate::falloc::Policy;
use crate::fmt::*;
use crate::gen;
use crate::model::*;
use crate::site::*;
use crate::types::*;
use simcore::*;
use std::any::Any;

struct Packet {
    f: Fmt,
    /// Version of whoever wrote it.
    from: usize,
    bytes: Vec<u8>,
    /// What it says.
    says: M,
}
struct Node {
    version: usize,
    inbox: Vec<usize>,
    /// Records on its disk, and how many of them are synced.
    disk: Vec<usize>,
    synced: usize,
    /// Memory and context, for as long as it runs.
    site: Option<Site>,
}
struct World {
    name: &'static str,
    family: &'static [&'static dyn Ver; VERSIONS],
    schemas: Vec<T>,
    /// The versions of this cluster, oldest first.
    range: (usize, usize),
    packets: Vec<Packet>,
    nodes: Vec<Node>,
    /// Encodings in use.
    talk: Vec<Fmt>,
}

fn boot() -> Site {
    let _g = galloc::track(false);
    Site::kind(*pick(&[0, 2]), choose(2) == 1, choose(2) == 1)
}

impl World {
    /// Run an operation on a node's own context or on a fresh one.
    fn on<R>(&self, n: usize, what: &str, op: impl FnOnce(&Site) -> R) -> R {
        if choose(2) == 0 {
            let s = self.nodes[n].site.as_ref().unwrap();
            return op(s);
        }
        let s = Site::any();
        let r = op(&s);
        s.close(what);
        r
    }
    fn encode(&mut self, n: usize, f: Fmt, v: &dyn Any) -> usize {
        let version = self.nodes[n].version;
        let ver = self.family[version];
        let bytes = self.on(n, "encode", |s| {
            let cx = s.cx();
            let mut out = Vec::new();
            let r = guard("encode", || ver.enc(f, cx, &mut W::Vec(&mut out), v)).ok().unwrap();
            if r.is_err() {
                violate("encode-refused", format!("{} v{version} {f:?}: {:?}; value {:.2000}", self.name, cx.error(), ver.show(v)));
            }
            out
        });
        large(bytes.len() > 30_000);
        note(hash_bytes(&bytes));
        let _g = galloc::track(false);
        let says = sent(&ver.model(v), &self.schemas[version]);
        ev!("  packet {} by node {n} v{version} {f:?}: {:.1500}", self.packets.len(), ver.show(v));
        ev!("    {}", hex(&bytes));
        self.packets.push(Packet { f, from: version, bytes, says });
        self.packets.len() - 1
    }
    fn make(&mut self, n: usize, f: Fmt) -> usize {
        gen::reset_for(f, true);
        let v = self.family[self.nodes[n].version].gen();
        self.encode(n, f, &*v)
    }
    /// A node reads a packet: what it makes of it, if it can.
    fn read(&self, n: usize, p: usize, what: &str) -> Option<Box<dyn Any>> {
        let version = self.nodes[n].version;
        let ver = self.family[version];
        let k = &self.packets[p];
        let f = k.f;
        let (want, all) = galloc::untracked(|| (received(&k.says, &self.schemas[version]), known(&k.says, &self.schemas[version])));
        let tail: &[u8] = match choose(3) {
            0 => b"",
            1 => b" \xff\xff\xff\xff\xff\xff\xff\xff\xff\xff",
            _ => b" 0\x00\x00\x00\x00\x00\x00\x00",
        };
        let rd = if choose(2) == 0 { Rd::Slice } else { Rd::Ptr };
        // an internally tagged enum looks at its message twice
        let rd = if f.is_json() && self.buffers() { Rd::Ptr } else { rd };
        let tail = if f.is_json() { tail } else { tail.get(1..).unwrap_or(b"") };
        let tail = if f.is_json() && rd == Rd::Ptr { b"" } else { tail };
        let mut g = sys::Guarded::new(k.bytes.len() + tail.len() + 16);
        let mut whole = k.bytes.clone();
        whole.extend_from_slice(tail);
        let mem = g.place_end(&whole);
        let who = || format!("{} {f:?} {rd:?} {what}: v{} read by v{version}", self.name, k.from);
        self.on(n, "decode", |s| {
            let cx = s.cx();
            let mut input: &[u8] = mem;
            let low = match s.da {
                Da::F(a) if chance(1, 6) => {
                    a.set(Policy::OneIn(range(1, 12) as u64));
                    Some(a)
                }
                _ => None,
            };
            let r = guard("decode", || ver.dec(f, rd, cx, &mut input)).ok().unwrap();
            let mut refused = 0;
            if let Some(a) = low {
                refused = a.fired.get();
                a.set(Policy::Never);
                if refused > 0 {
                    fault("memory refused");
                }
            }
            let outcome = match &r {
                Ok(_) => 0,
                Err(()) => 1 + (want.is_err() as u64) * 2 + all as u64 * 4,
            };
            state(mix(mix(hash_bytes(self.name.as_bytes()), f as u64), mix((k.from * 8 + version) as u64, outcome)));
            let _g = galloc::track(false);
            match (r, &want) {
                (Err(()), _) if refused > 0 => None,
                (Err(()), Ok(w)) => {
                    // a record which says more than the version knows need not be readable where fields are not delimited
                    if !f.tagged() && !all {
                        probe("storage record with unknown content refused");
                        ensure!(cx.error().is_some(), "error-not-captured", "{}: refused without an error", who());
                        return None;
                    }
                    violate("message-refused", format!("{}: {:?} {}; it says {:.3000?}, so {:.2000?} was expected; bytes {}", who(), cx.error(), cx.report(), k.says, w, hex(&k.bytes)));
                }
                (Err(()), Err(lack)) => {
                    probe(if lack.starts_with('f') { "mandatory field missing" } else { "variant unknown" });
                    ensure!(cx.error().is_some(), "error-not-captured", "{}: refused for {lack} without an error", who());
                    None
                }
                (Ok(v), Err(lack)) => violate("decoded-as-something-else", format!("{}: {lack} is missing or unknown, but the message was accepted as {:.2000}; it says {:.3000?} bytes {}", who(), ver.show(&*v), k.says, hex(&k.bytes))),
                (Ok(v), Ok(w)) => {
                    let got = ver.model(&*v);
                    ensure!(got == *w, "value-changed", "{}: received {:.3000?} but expected {:.3000?}; it says {:.3000?} bytes {}", who(), got, w, k.says, hex(&k.bytes));
                    if k.from != version {
                        probe("read across versions");
                        if !all {
                            probe("unknown content skipped");
                        }
                    }
                    let e = cx.error();
                    ensure!(e.is_none(), "error-on-success", "{}: accepted but an error was captured: {e:?}", who());
                    if consumes(f, rd) {
                        let mut left = input;
                        let mut rest = tail;
                        if f.is_json() {
                            left = left.trim_ascii_start();
                            rest = rest.trim_ascii_start();
                        }
                        ensure!(left == rest, "wrong-consumption", "{}: {} bytes left of a message followed by {}; it says {:.3000?} bytes {}", who(), left.len(), rest.len(), k.says, hex(&k.bytes));
                    }
                    Some(v)
                }
            }
        })
    }
    fn buffers(&self) -> bool {
        buffers(self.name)
    }
    fn crash(&mut self, n: usize) {
        fault("crash and restart");
        let site = self.nodes[n].site.take().unwrap();
        site.close("node");
        let lost = self.nodes[n].disk.len() - self.nodes[n].synced;
        if lost > 0 {
            let keep = self.nodes[n].synced + below(lost + 1);
            if keep < self.nodes[n].disk.len() {
                fault("unsynced records lost");
            }
            self.nodes[n].disk.truncate(keep);
        }
        self.nodes[n].synced = self.nodes[n].disk.len();
        self.nodes[n].inbox.clear();
        self.nodes[n].site = Some(boot());
        check_heap("crash");
    }
    fn change(&mut self, n: usize) {
        let to = range(self.range.0, self.range.1);
        let from = self.nodes[n].version;
        if to != from {
            probe(if to > from { "upgrade" } else { "downgrade" });
        }
        ev!("node {n} goes from v{from} to v{to}");
        self.nodes[n].version = to;
    }
    fn recover(&self, n: usize) {
        for r in &self.nodes[n].disk {
            if let Some(v) = self.read(n, *r, "from disk") {
                galloc::untracked(|| drop(v));
            }
        }
    }
}

/// Families with internally tagged enums, which need encodings that can be looked at twice.
fn buffers(name: &str) -> bool {
    matches!(name, "Big" | "Job")
}

pub fn c06() {
    let (name, family) = &FAMILIES[below(FAMILIES.len())];
    let lo = choose(VERSIONS as u64) as usize;
    let hi = lo + choose((VERSIONS - lo) as u64) as usize;
    let talk: Vec<Fmt> = match choose(4) {
        0 if !buffers(name) => vec![*pick(&[Storage, StorageFix, StorageBe])],
        1 if !buffers(name) => vec![*pick(&[Wire, WireFix, WireText, Desc, DescFix, DescText, Json, JsonBin])],
        _ => ALL.into_iter().filter(|f| !f.is_packed() && (f.is_json() || f.is_desc() || !buffers(name))).collect(),
    };
    let schemas = galloc::untracked(|| family.iter().map(|v| v.schema()).collect());
    let mut w = World { name, family, schemas, range: (lo, hi), packets: Vec::new(), nodes: Vec::new(), talk };
    for _ in 0..range(2, 4) {
        let version = range(lo, hi);
        w.nodes.push(Node { version, inbox: Vec::new(), disk: Vec::new(), synced: 0, site: Some(boot()) });
    }
    ev!("family {name}, versions {:?}, talking {:?}", w.nodes.iter().map(|n| n.version).collect::<Vec<_>>(), w.talk);
    let count = w.nodes.len();
    let mut held: Vec<(usize, Box<dyn Any>)> = Vec::new();
    let steps = range(3, 24);
    for _ in 0..steps {
        let n = below(count);
        let f = *pick(&w.talk);
        match choose(12) {
            0..=2 => {
                let p = w.make(n, f);
                let to = below(count);
                match choose(8) {
                    0 => fault("message lost"),
                    1 => {
                        fault("message duplicated");
                        w.nodes[to].inbox.extend([p, p]);
                    }
                    2 => {
                        for m in &mut w.nodes {
                            m.inbox.push(p);
                        }
                    }
                    _ => w.nodes[to].inbox.push(p),
                }
            }
            3..=6 => {
                let Some(n) = (0..count).map(|k| (n + k) % count).find(|n| !w.nodes[*n].inbox.is_empty()) else { continue };
                let k = below(w.nodes[n].inbox.len());
                if k > 0 {
                    fault("message reordered");
                }
                let p = w.nodes[n].inbox.remove(k);
                ev!("node {n} v{} receives packet {p}", w.nodes[n].version);
                if let Some(v) = w.read(n, p, "from the network") {
                    if choose(2) == 0 {
                        // passed on as what this version made of it
                        let q = w.encode(n, f, &*v);
                        let to = below(count);
                        w.nodes[to].inbox.push(q);
                        probe("forwarded");
                    } else if held.len() < 4 {
                        held.push((w.nodes[n].version, v));
                        continue;
                    }
                    galloc::untracked(|| drop(v));
                }
            }
            7 | 8 => {
                // to disk: a value of its own or one received
                let p = match held.iter().position(|h| h.0 == w.nodes[n].version) {
                    Some(i) => {
                        let (_, v) = held.remove(i);
                        let p = w.encode(n, f, &*v);
                        galloc::untracked(|| drop(v));
                        p
                    }
                    None => w.make(n, f),
                };
                w.nodes[n].disk.push(p);
                if choose(3) == 0 {
                    w.nodes[n].synced = w.nodes[n].disk.len();
                }
            }
            9 => {
                w.crash(n);
                w.change(n);
                w.recover(n);
            }
            10 => w.change(n),
            _ => w.recover(n),
        }
        advance_time(1);
        step();
    }
    // the faults stop: what is under way arrives, and every disk is read
    for n in 0..count {
        while let Some(p) = w.nodes[n].inbox.pop() {
            if let Some(v) = w.read(n, p, "from the network") {
                galloc::untracked(|| drop(v));
            }
            step();
        }
        w.change(n);
        w.recover(n);
    }
    galloc::untracked(|| drop(held));
    for n in &mut w.nodes {
        n.site.take().unwrap().close("node");
    }
    check_heap("cluster");
    nontrivial();
}
