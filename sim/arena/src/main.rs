mod falloc;
mod hist;
mod own;
use simcore::runner::{main as run, Prop};

fn main() {
    run(&[
        Prop {
            id: "C01",
            run: hist::c01,
            rule: "one run = one seeded history of up to 120 (quick) or 400 (thorough) operations by up to 10 owners on one arena; non-trivial when it has more than 4 operations or hit exhaustion; distinct by digest of the whole event history",
            quick_runs: 400_000,
            quick_secs: 40.0,
            thorough_runs: 100_000_000,
            thorough_secs: 600.0,
            time_unit: "none (no clock is involved)",
            interleavings: "layout of live buffers in address order (adjacency, emptiness, sizes)",
            real: &["musli::alloc::Slice and SliceAlloc", "musli_core::alloc::{Vec, Box}"],
            stub: &["arena memory: guarded mapping with canaries", "owners: simulated tasks scheduled one operation at a time"],
            assumptions: &["an owner may write to the whole capacity its buffer reports"],
        },
        Prop {
            id: "C02",
            run: hist::c02,
            rule: "one run = up to 25 (quick) or 60 (thorough) rounds of a seeded history followed by a drain and service checks; non-trivial when a service check ran; distinct by digest",
            quick_runs: 200_000,
            quick_secs: 40.0,
            thorough_runs: 100_000_000,
            thorough_secs: 600.0,
            time_unit: "none (no clock is involved)",
            interleavings: "layout of live buffers in address order (adjacency, emptiness, sizes)",
            real: &["musli::alloc::Slice and SliceAlloc", "musli_core::alloc::{Vec, Box}"],
            stub: &["arena memory: guarded mapping with canaries", "owners: simulated tasks scheduled one operation at a time"],
            assumptions: &["bookkeeping of at most 24 bytes per buffer of the largest number ever live, plus two records and 72 bytes of alignment slack, may stay reserved"],
        },
        Prop {
            id: "C11",
            run: own::c11,
            rule: "one run = one seeded history of up to 50 (quick) or 120 (thorough) container operations on one allocator with refused allocations and panicking destructors; distinct by digest",
            quick_runs: 2_000_000,
            quick_secs: 40.0,
            thorough_runs: 100_000_000,
            thorough_secs: 600.0,
            time_unit: "none (no clock is involved)",
            interleavings: "lengths and capacities of the live containers",
            real: &["musli_core::alloc::{Vec, String, Box, System}", "musli::alloc::Slice"],
            stub: &["fault-injecting Allocator implementation", "checking global allocator that refuses requests"],
            assumptions: &["one destructor panics at a time; a second panic during unwinding aborts in any Rust program"],
        },
    ])
}
