mod machines;

use simcore::runner::{main as run, Prop};

fn main() {
    run(&[Prop {
        id: "C23",
        run: machines::c23,
        rule: "one run = one seeded message (type, value and one of fifteen encodings seeded), up to four damaged copies of it and one with numbers that need 64 bits, received here and, for every third, on emulated machines (64-bit and 32-bit big endian, 32-bit little endian), which must send the same bytes and receive the same values; distinct by digest of plan and damage",
        quick_runs: 100_000,
        quick_secs: 40.0,
        thorough_runs: 100_000_000,
        thorough_secs: 600.0,
        time_unit: "none (no clock is involved)",
        interleavings: "encoding with message type",
        real: &[
            "musli::{packed, storage, wire, descriptive, json, value}, options, derives, compiled for x86-64, s390x, powerpc and armv7",
            "the system allocator and default contexts: to_vec, from_slice",
        ],
        stub: &["the foreign machines are interpreted (Miri), which also reports undefined behaviour", "network: messages damaged, requests delivered twice"],
        assumptions: &[
            "the byte order and widths are stated: the packed encoding's native default is not portable by design",
            "a machine of shorter words may refuse damaged messages, and numbers it cannot hold, which another accepts",
        ],
    }])
}
