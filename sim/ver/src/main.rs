#![allow(dead_code)]
#[path = "../../codec/src/dynx.rs"]
mod dynx;
#[path = "../../arena/src/falloc.rs"]
mod falloc;
#[path = "../../codec/src/fmt.rs"]
mod fmt;
#[path = "../../codec/src/gen.rs"]
mod gen;
mod model;
mod run;
#[path = "../../codec/src/site.rs"]
mod site;
mod types;

use simcore::runner::{main as run, Prop};

fn main() {
    run(&[Prop {
        id: "C06",
        run: run::c06,
        rule: "one run = a cluster of two to four nodes of seeded versions of one of eleven families of types, which over 3 to 24 steps send, lose, duplicate, reorder, receive, forward, store, crash, restart, upgrade and downgrade; every message received and every record read back is compared with what its version should make of it; distinct by digest of the history",
        quick_runs: 10_000_000,
        quick_secs: 40.0,
        thorough_runs: 1_000_000_000,
        thorough_secs: 600.0,
        time_unit: "steps of the cluster",
        interleavings: "family, encoding, version of the sender and of the receiver, outcome",
        real: &[
            "musli::{storage, wire, descriptive, json} encoders, decoders, options and modes",
            "musli-core implementations for standard types, musli-macros derives",
            "musli::{reader, writer, context, alloc::Slice, alloc::System}",
        ],
        stub: &["network between the nodes and their disks", "fault-injecting Allocator implementation and checking global allocator", "message memory: guarded mapping"],
        assumptions: &[
            "a field keeps its type and an enum its representation: an enum of unit variants alone, internally or adjacently tagged, stays so",
            "names of fields are not byte strings (recorded as C05 byte-field-names)",
        ],
    }])
}
