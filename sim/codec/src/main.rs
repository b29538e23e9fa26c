#![allow(dead_code)]
mod callbacks;
mod context;
mod damage;
mod dynx;
#[path = "../../arena/src/falloc.rs"]
mod falloc;
mod faults;
mod readers;
mod fmt;
mod gen;
mod relay;
mod rt;
mod sessions;
mod site;
mod stopping;
mod types;

use simcore::runner::{main as run, Prop};

const CODEC: &[&str] = &[
    "musli::{packed, storage, wire, descriptive, json} encoders, decoders, options and modes",
    "musli-core implementations for standard types, musli-macros derives, musli::serde",
    "musli::{reader, writer, context, alloc::Slice, alloc::System}",
];
const WORLD: &[&str] = &[
    "the device behind std::io::Write",
    "fault-injecting Allocator implementation and checking global allocator",
    "message memory: guarded mapping",
];
const PER_MSG: &str = "message type, encoding and length class of each message";

const fn prop(id: &'static str, run: fn(), rule: &'static str, interleavings: &'static str, assumptions: &'static [&'static str]) -> Prop {
    Prop {
        id,
        run,
        rule,
        quick_runs: 10_000_000,
        quick_secs: 25.0,
        thorough_runs: 1_000_000_000,
        thorough_secs: 600.0,
        time_unit: "device operations and messages delivered",
        interleavings,
        real: CODEC,
        stub: WORLD,
        assumptions,
    }
}

fn main() {
    run(&[
        prop(
            "C03",
            faults::c03,
            "one run = one seeded message encoded or decoded up to three times on a node whose memory refuses a seeded subset of the requests (or is a small arena), each followed by the same operation with memory available; distinct by digest of message, outcomes and faults",
            "number of requests, number refused, destination, outcome",
            &["allocations of the standard library (Vec, String) are outside the Allocator seam and do not fail"],
        ),
        prop(
            "C04",
            faults::c04,
            "one run = one seeded message sent to up to four destinations that fail, fill up, glitch, write short, are interrupted or are too small; distinct by digest of message, outcomes and faults",
            "destination, encoding, bytes delivered, outcome",
            &["a device that reports a failed write has not taken the bytes of that write"],
        ),
        prop(
            "C05",
            rt::c05,
            "one run = one to three seeded messages (type, value, encoding, writer, reader, allocator, context, placement, surrounding traffic all seeded) delivered intact; distinct by digest",
            PER_MSG,
            &["JSON text does not carry NaN or infinities, nor the difference between None and Some(None)", "text forms of socket addresses do not carry flow labels"],
        ),
        prop(
            "C07",
            damage::c07,
            "one run = a valid message, random bytes or near-JSON text, damaged up to four times (truncation, bit flips, overwritten, inserted, lost, duplicated and spliced spans, invented lengths, deep nesting) and decoded as its own or another type; distinct by digest of bytes and outcome",
            "encoding, target type, accepted or refused",
            &["the stack is 8 MiB"],
        ),
        prop(
            "C09",
            relay::c09,
            "one run = one seeded message (typed or a tree) forwarded by up to four relays which know no schema, in seeded self-descriptive encodings, with memory refused at seeded points, received as its type or as a dynamic value; distinct by digest",
            "message type, encodings of every hop",
            &["packs are opaque bytes to a relay: they are forwarded between descriptive encodings and received in the encoding they were sent in", "what JSON describes in another way (characters, bytes, options, variants, numeric names) is received in JSON once it has passed through it"],
        ),
        prop(
            "C10",
            context::c10,
            "one run = two to seven operations (valid and damaged messages, failing devices, refused memory) on one context compared with new ones, or one operation with tracing, without it and with tracing starved of memory, or a message tree in which one seeded element fails and the reported location is compared with where it is; distinct by digest of outcomes and reports",
            "message type, encoding, outcome",
            &["error texts are compared between contexts, not with fixed texts; locations are compared in the notation reports use"],
        ),
        prop(
            "C17",
            sessions::c17,
            "one run = two to five sessions of one to four operations each (encoding and decoding of seeded messages into seeded destinations, plain functions of the library, refused memory, failing devices, damaged messages, abandonment), run alone and on threads of which one runs at a time, handing over at seeded calls into context, allocator, device or element, with operations nested in others and on a shared arena; distinct by digest of the history",
            "sequences of hand-overs",
            &["sessions hand over at calls into context, allocator, device and element code, not between two instructions"],
        ),
        prop(
            "C18",
            damage::c18,
            "one run = a valid message in which lengths and counts are replaced by lies, decoded up to four times while every request to the allocators is measured; distinct by digest of bytes and outcome",
            "encoding, target type, accepted or refused",
            &["the allowance is 24 MiB plus 4096 bytes per byte of input: each open container may reserve about 1 MiB up front"],
        ),
        prop(
            "C19",
            callbacks::c19,
            "one run = one seeded message of elements that count themselves, encoded and decoded up to six times on one context while user code (element implementations, visitors, closures, with-modules, default functions) reports an error or panics at a seeded callback; distinct by digest of message and failures",
            "message type, encoding, number of callbacks",
            &["destructors, comparisons and hash functions of elements do not fail"],
        ),
        prop(
            "C20",
            stopping::c20,
            "one run = a stream of one to three seeded message trees read up to three times by a hand-written receiver which, element by element, reads, skips, stops early, looks ahead on a clone, captures a buffer, or reads by visitor, as seeded; distinct by digest of messages, decisions and outcomes",
            "message number, skips and stops, encoding, outcome",
            &["a decoder handed out is used or skipped, entries are read key first, and the tag and value of a variant are both asked for", "packs are read in full in encodings which do not delimit them"],
        ),
        prop(
            "C08",
            faults::c08,
            "one run = up to three cycles of appending messages to a simulated disk (short writes, errors, disk full), a crash that loses the unsynced tail at any byte, and recovery by decoding; distinct by digest",
            "encoding, record number, bytes past the last whole record, whether the record fits",
            &["a crash keeps a prefix of what was written and at least what was synced"],
        ),
    ])
}
