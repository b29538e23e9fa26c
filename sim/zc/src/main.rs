mod build;
mod damage;
mod index;
mod machines;
mod trie;
mod types;
use simcore::runner::{main as run, Prop};

fn main() {
    types::check_layouts();
    run(&[
        Prop {
            id: "C12",
            run: build::c12,
            rule: "one run = one seeded plan of up to 25 (quick) or 60 (thorough) stores and other buffer operations, executed twice on different memory, then read back in place and at other addresses; non-trivial when anything was stored or refused; distinct by digest of the operations",
            quick_runs: 400_000,
            quick_secs: 40.0,
            thorough_runs: 100_000_000,
            thorough_secs: 600.0,
            time_unit: "none (no clock is involved)",
            interleavings: "operation, length modulo 64, largest alignment and number of items at each step",
            real: &["musli_zerocopy::{OwnedBuf, SliceMut, Buf, Ref, ZeroCopy derive}"],
            stub: &["archive memory: guarded mappings at chosen addresses", "checking global allocator with red zones and serial fill"],
            assumptions: &[],
        },
        Prop {
            id: "C13",
            run: damage::c13,
            rule: "one run = one archive of seeded values, maps, sets or tries, damaged (truncated, bits flipped, sectors lost or zeroed, parts moved, numbers altered or reversed, bytes inserted or dropped, torn writes) and placed at seeded addresses between inaccessible pages, with 12 to 41 loads at seeded offsets compared with an exact model of what can be loaded, or every lookup of its indexes made and what they return checked to lie in the archive and be valid; non-trivial when values are loaded or an index has entries; distinct by digest of the archive",
            quick_runs: 100_000,
            quick_secs: 40.0,
            thorough_runs: 100_000_000,
            thorough_secs: 600.0,
            time_unit: "none (no clock is involved)",
            interleavings: "type, kind of load, offset modulo 8 and whether it is in bounds",
            real: &["musli_zerocopy::{Buf, Ref, slice::Packed, phf, swiss, trie}, validation by derived ZeroCopy"],
            stub: &["archive memory: guarded mappings at chosen addresses", "checking global allocator with red zones and serial fill"],
            assumptions: &["iterating over or splitting references whose own offset type cannot address their elements panics as documented and is not done", "values with valid bytes must load"],
        },
        Prop {
            id: "C14",
            run: index::c14,
            rule: "one run = one archive of one to three stored maps and sets (perfect hash, swiss table) of up to 300 (thorough: 1500) entries of seeded key and value types, built twice on different memory, asked while building and after reloading at other addresses for every key and for absent ones, bound and unbound; non-trivial when an index has entries; distinct by digest of the entries",
            quick_runs: 60_000,
            quick_secs: 40.0,
            thorough_runs: 100_000_000,
            thorough_secs: 600.0,
            time_unit: "none (no clock is involved)",
            interleavings: "index kind, size and types with the archive's length",
            real: &["musli_zerocopy::{phf, swiss}::{store_map, store_set, MapRef, SetRef, Map, Set}, OwnedBuf, SliceMut, Buf, sip hashing"],
            stub: &["archive memory: guarded mappings at chosen addresses", "checking global allocator with red zones and serial fill"],
            assumptions: &["perfect hash indexes are given distinct keys with distinct hashes"],
        },
        Prop {
            id: "C15",
            run: trie::c15,
            rule: "one run = one archive of one or two tries of up to 200 (thorough: 1000) entries in seeded insertion order, built twice on different memory, asked after building and after reloading at other addresses for every key, for related absent keys and for everything below seeded prefixes, with and without a bound on the depth; non-trivial when a trie has two entries or more; distinct by digest of the keys",
            quick_runs: 100_000,
            quick_secs: 40.0,
            thorough_runs: 100_000_000,
            thorough_secs: 600.0,
            time_unit: "none (no clock is involved)",
            interleavings: "number of entries with the archive's length",
            real: &["musli_zerocopy::trie::{store, Builder, TrieRef, Flavor}, slice::Packed, OwnedBuf, Buf"],
            stub: &["archive memory: guarded mappings at chosen addresses", "checking global allocator with red zones and serial fill"],
            assumptions: &["keys of up to 300 bytes: building recurses once for each level of the trie"],
        },
        Prop {
            id: "C16",
            run: machines::c16,
            rule: "one run = one archive of a stated byte order and offset size, of up to eight seeded stores (numbers, text, slices, arrays, references, nested references, records, choices, packed slices, tries), built and read here and, for every fourth, on emulated machines (64-bit and 32-bit big endian, 32-bit little endian), which must build the same bytes and read the same values, also out of archives damaged in transit; plus plain records in the sender's own order; non-trivial when the archive holds a value; distinct by digest of the plan",
            quick_runs: 100_000,
            quick_secs: 40.0,
            thorough_runs: 100_000_000,
            thorough_secs: 600.0,
            time_unit: "none (no clock is involved)",
            interleavings: "byte order, offset size and kinds of values in the archive",
            real: &["musli_zerocopy::{Endian, Ref, Buf, OwnedBuf, slice::Packed, trie}, derived ZeroCopy, compiled for x86-64, s390x, powerpc and armv7"],
            stub: &["the foreign machines are interpreted (Miri), which also reports undefined behaviour", "network: requests damaged or delivered twice"],
            assumptions: &["machines on which the types stored have the same alignment (u128 excluded)", "swiss and perfect hash indexes are not portable and not claimed"],
        },
    ])
}
