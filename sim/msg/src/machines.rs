//! C23: messages exchanged by machines of other byte orders and word sizes.
use peer::{describe, receive, send};
use simcore::machines::{ask, TARGETS};
use simcore::*;

fn damage(b: &mut Vec<u8>) {
    match choose(5) {
        0 => {
            fault("message truncated in transit");
            let n = below(b.len() + 1);
            b.truncate(n);
        }
        1 if !b.is_empty() => {
            fault("bits flipped in transit");
            for _ in 0..1 + below(3) {
                let (i, x) = (below(b.len()), 1 << choose(8));
                b[i] ^= x;
            }
        }
        2 if !b.is_empty() => {
            fault("part lost in transit");
            let i = below(b.len());
            let n = 1 + below((b.len() - i).min(16));
            b.drain(i..i + n);
        }
        3 if !b.is_empty() => {
            fault("number altered in transit");
            let i = below(b.len());
            b[i] = *pick(&[0, 1, 2, 4, 16, 0x7f, 0x80, 0xff]);
        }
        4 if !b.is_empty() => {
            fault("part delivered twice");
            let i = below(b.len());
            let n = 1 + below((b.len() - i).min(16));
            let part = b[i..i + n].to_vec();
            b.splice(i..i, part);
        }
        _ => {}
    }
}
macro_rules! same {
    ($cond:expr, $class:expr, $($t:tt)*) => {
        if !$cond {
            violate_soft($class, format!($($t)*));
        }
    };
}
fn show(b: &Option<Vec<u8>>) -> String {
    b.as_ref().map_or("refused".into(), |b| hex(b))
}
/// A machine's words: one with shorter ones may refuse what it cannot hold.
fn bits(which: usize) -> u32 {
    if TARGETS[which].0.starts_with("s390x") { 64 } else { 32 }
}

pub fn c23() {
    let n = range(4, if st().thorough { 900 } else { 300 });
    let plan: Vec<u8> = (0..n).map(|_| choose(256) as u8).collect();
    let (encoding, ty) = describe(&plan);
    let differs = match ty {
        "PackArrays" => "packed-array",
        "BelowZero" => "negative-isize",
        _ => "machine-differs",
    };
    let _ = guard("a message between machines", || {
        let message = send(&plan, false);
        let wide = send(&plan, true);
        ev!("{ty} in {encoding}: {} bytes", message.as_ref().map_or(0, |m| m.len()));
        state(mix(hash_bytes(encoding.as_bytes()), hash_bytes(ty.as_bytes())));
        // What can be sent can be received, and no number needs more than 32 bits.
        let Some(message) = message else { violate_soft(if ty == "BelowZero" { differs } else { "not-sent" }, format!("{ty} in {encoding} is not encoded")) };
        nontrivial();
        let mut messages = vec![message.clone()];
        messages.extend(wide);
        for _ in 0..below(4) {
            let mut b = pick(&messages[..messages.len().min(2)]).clone();
            for _ in 0..1 + below(2) {
                damage(&mut b);
            }
            messages.push(b);
        }
        let here: Vec<Option<Vec<u8>>> = messages.iter().map(|m| receive(&plan, m)).collect();
        same!(here[0].is_some(), "not-received", "{ty} in {encoding} is refused by the machine that sent it: {}", hex(&message));
        step();
        let times = if chance(1, 3) { 1 + below(2) } else { 0 };
        for _ in 0..times {
            let which = below(TARGETS.len());
            let (name, _) = TARGETS[which];
            ev!("{} messages sent to {name}", messages.len());
            let mut parts: Vec<&[u8]> = vec![&plan];
            parts.extend(messages.iter().map(|m| &m[..]));
            let request = peer::pack(&parts);
            let answer = match ask("sim-peer", which, &request) {
                Ok(a) => a,
                Err(e) if e.starts_with("harness-error") => violate_soft("harness-error", e),
                Err(e) => violate_soft("machine-failed", format!("{ty} in {encoding}: {name} {e}")),
            };
            probe(name);
            if chance(1, 8) {
                fault("request delivered twice");
                let again = ask("sim-peer", which, &request);
                same!(again.as_ref() == Ok(&answer), "machine-differs", "{name} answers differently the second time");
            }
            let got: Vec<Option<Vec<u8>>> = peer::unpack(&answer).iter().map(|b| b.split_first().filter(|(ok, _)| **ok == 1).map(|(_, b)| b.to_vec())).collect();
            if got.len() != messages.len() + 1 {
                violate_soft("harness-error", format!("{name} answers {} parts", got.len()));
            }
            // The descriptive encoding says how wide numbers are, and those as
            // wide as a pointer (and the numbers of fields) are as wide as a machine's.
            let told = encoding.starts_with("descriptive") && bits(which) == 32;
            match &got[0] {
                Some(theirs) if told => {
                    if ty != "dynamic value" {
                        let got = receive(&plan, theirs);
                        same!(got == here[0], differs, "{ty} in {encoding}: sent by {name} as {}, read here as {}, not as {}", hex(theirs), show(&got), show(&here[0]));
                    }
                }
                theirs => same!(theirs.as_ref() == Some(&message), differs, "{ty} in {encoding}: sent by {name} as {}, here as {}", show(theirs), hex(&message)),
            }
            for (i, (theirs, ours)) in got[1..].iter().zip(&here).enumerate() {
                if i > 0 && theirs.is_none() && bits(which) == 32 {
                    continue;
                }
                same!(theirs == ours, differs, "{ty} in {encoding}: {name} reads {} as {}, here it is {}", hex(&messages[i]), show(theirs), show(ours));
            }
            step();
        }
    });
    check_heap("messages between machines");
}
