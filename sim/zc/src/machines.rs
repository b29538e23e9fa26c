//! C16: archives of a stated byte order, built and read by machines of other
//! byte orders and word sizes.
use simcore::machines::{ask, TARGETS};
use simcore::*;

fn damage(b: &mut Vec<u8>) {
    match choose(4) {
        0 => {
            fault("archive truncated in transit");
            let n = below(b.len() + 1);
            b.truncate(n);
        }
        1 if !b.is_empty() => {
            fault("bits flipped in transit");
            for _ in 0..1 + below(4) {
                let (i, x) = (below(b.len()), 1 << choose(8));
                b[i] ^= x;
            }
        }
        2 if !b.is_empty() => {
            fault("part lost in transit");
            let i = below(b.len());
            let n = 1 + below((b.len() - i).min(32));
            b[i..i + n].fill(0);
        }
        3 if !b.is_empty() => {
            fault("number altered in transit");
            let i = below(b.len());
            b[i] = *pick(&[0, 1, 2, 4, 16, 0x7f, 0x80, 0xff]);
        }
        _ => {}
    }
}

pub fn c16() {
    let n = range(4, if st().thorough { 400 } else { 160 });
    let plan: Vec<u8> = (0..n).map(|_| choose(256) as u8).collect();
    let here = cfg!(target_endian = "big");
    let _ = guard("building and reading an archive", || {
        let b = node::build(&plan);
        let want = b.want();
        ev!("archive of order and size {}: {} bytes, {} values", node::kind(&plan), b.bytes.len(), want.len());
        if !want.is_empty() {
            nontrivial();
        }
        state(mix(hash_bytes(node::kind(&plan).as_bytes()), hash_bytes(&want.iter().flat_map(|w| w.iter().take(3).copied()).collect::<Vec<u8>>())));
        ensure!(b.wrong.is_empty(), "conversion", "{}: {}", node::kind(&plan), b.wrong.join("; "));
        let same = |got: &[Vec<u8>], want: &[Vec<u8>], who: &str| {
            ensure!(got.len() == want.len(), "wrong-value", "{who} has {} values, not {}", got.len(), want.len());
            for (i, (g, w)) in got.iter().zip(want).enumerate() {
                ensure!(g == w, "wrong-value", "{}: {who} reads {:?} as value {i}, not {:?}", node::kind(&plan), lossy(g), lossy(w));
            }
        };
        same(&b.read(&b.bytes), &want, "the machine that built it");
        let (native, pods) = node::build_native(&plan);
        ensure!(node::read_native(&plan, here, &native) == pods, "wrong-value", "plain records are not read back");
        let turned = turn(&plan, &native);
        ensure!(node::read_native(&plan, !here, &turned) == pods, "wrong-value", "plain records of the other byte order are not read back");
        step();
        for _ in 0..below(3) {
            let mut x = b.bytes.clone();
            damage(&mut x);
            b.read(&x);
        }
        let times = if chance(1, 4) { 1 + below(2) } else { 0 };
        for _ in 0..times {
            let which = below(TARGETS.len());
            let (mut archive, mut plain) = (b.bytes.clone(), native.clone());
            if chance(1, 2) {
                damage(&mut archive);
                damage(&mut plain);
            }
            let (name, order) = TARGETS[which];
            ev!("{} bytes sent to {name}", archive.len());
            let request = node::pack(&[&plan, &archive, if here { b"big" } else { b"little" }, &plain]);
            let answer = match ask("sim-node", which, &request) {
                Ok(a) => a,
                Err(e) if e.starts_with("harness-error") => violate("harness-error", e),
                Err(e) => violate("machine-failed", format!("{name} {e}")),
            };
            probe(name);
            if chance(1, 8) {
                fault("request delivered twice");
                let again = ask("sim-node", which, &request);
                ensure!(again.as_ref() == Ok(&answer), "machine-differs", "{name} answers differently the second time");
            }
            let parts = node::unpack(&answer);
            let [wrong, bytes, _align, theirs, read, nread] = parts[..] else {
                violate("harness-error", format!("{name} answers {} parts", parts.len()));
            };
            ensure!(wrong.is_empty(), "conversion", "{name}: {}: {}", node::kind(&plan), lossy(wrong));
            ensure!(bytes == &b.bytes[..], "machine-differs", "archive of {} built on {name} is {}, here {}", node::kind(&plan), hex(bytes), hex(&b.bytes));
            let read: Vec<Vec<u8>> = node::unpack(read).iter().map(|r| r.to_vec()).collect();
            same(&read, &b.read(&archive), name);
            ensure!(nread == node::read_native(&plan, here, &plain), "wrong-value", "{name} reads plain records of {} as {:?}", if here { "big endian" } else { "little endian" }, lossy(nread));
            ensure!(node::read_native(&plan, order == "big", theirs) == pods, "wrong-value", "plain records built on {name} read differently: {}", hex(theirs));
            step();
        }
    });
    check_heap("archives of a stated byte order");
}
fn lossy(b: &[u8]) -> String {
    b.iter().flat_map(|b| std::ascii::escape_default(*b)).map(char::from).collect()
}
/// Plain records as a machine of the other byte order would have stored them.
fn turn(plan: &[u8], native: &[u8]) -> Vec<u8> {
    let mut b = native.to_vec();
    let n = node::pods(plan);
    for r in b.chunks_exact_mut((native.len() / n.max(1)).max(1)).take(n) {
        for (at, size) in node::POD {
            r[*at..*at + *size].reverse();
        }
    }
    b
}
