#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe or [], hook_needed=hook)))

prop("C01", "Arena buffers never overlap, move wrongly or lose bytes",
 "For every interleaving of creating, growing, merging and dropping buffers of a slice-backed allocator, including requests that fail because the arena is exhausted, every live buffer lies inside the arena, is aligned for its element type, is disjoint from every other live buffer and holds exactly the bytes its owner wrote. A request that fails leaves every live buffer, its length and its contents unchanged. No byte outside the arena is ever written.",
 ["schedules", "histories", "fault_sequences", "configurations"],
 "All interleavings of allocate/grow/extend/merge/free by any number of owners, element types of every size and alignment, arenas of every size and base misalignment, exhaustion of bytes or headers at any point.",
 "The allocator's tests replay about twenty hand-written histories; corruption needs particular region layouts (gaps, reused headers, empty regions between two merged ones) and exhaustion at particular instants.",
 ["crates/musli/src/alloc/slice.rs", "crates/musli-core/src/alloc/vec.rs"],
 [("region list: headers growing down from the arena's end, linked in address order", "crates/musli/src/alloc/slice.rs"),
  ("grow in place / take over gap / move to tail", "crates/musli/src/alloc/slice.rs (reallocate)"),
  ("merge of adjacent buffers", "crates/musli/src/alloc/slice.rs (try_merge)")],
 ["musli::alloc::{Slice, Vec, Alloc}"])

prop("C02", "A drained arena serves again everything a fresh arena serves",
 "Once every buffer taken from a slice-backed allocator has been dropped, in any order and after any history of growth, merges and exhaustion failures, everything is available again except one fixed-size bookkeeping record for each buffer of the largest number that were ever live at once: the arena serves one buffer of all that is left, or as many buffers as ever were live sharing it, however often it was filled and drained before. Buffers taken above live ones and released in reverse order give back all they took: once a cycle of such requests is served steadily, repeating it never fails.",
 ["schedules", "histories", "fault_sequences"],
 "All histories of allocate/grow/merge/free ending in a drained arena, all release orders, all arena sizes and alignments; then every follow-up request sequence.",
 "A leak of one header or of an alignment gap per rare layout only shows after long histories with specific release orders; the tests use short histories and inspect the structure rather than later service.",
 ["crates/musli/src/alloc/slice.rs"],
 [("freed headers chained on a free list and reused", "crates/musli/src/alloc/slice.rs (free_head)"),
  ("freed regions merged into the preceding region or the tail dropped", "crates/musli/src/alloc/slice.rs (free)")],
 ["musli::alloc::{Slice, Vec}"])

prop("C03", "Allocation failure is an ordinary, recoverable error",
 "If any allocation requested while encoding, decoding or reporting an error fails, the operation either returns an error or produces exactly the result it produces when memory is plentiful; it never panics, aborts or returns a truncated or altered value. Whatever happens, every allocation taken from the allocator is given back once the results are dropped, none is given back twice, and nothing outside an allocation is touched. The same operation repeated once memory is available succeeds.",
 ["fault_sequences", "inputs", "configurations"],
 "Every subset of an operation's allocation requests failing, for every format, data shape and error-capturing context, over fault-injecting, arena and heap allocators.",
 "Tests run with an allocator that never fails; each failure point multiplies with each format and value shape.",
 ["crates/musli-core/src/alloc", "crates/musli/src/alloc", "crates/musli/src/json", "crates/musli/src/storage", "crates/musli/src/wire", "crates/musli/src/descriptive", "crates/musli/src/value", "crates/musli/src/context"],
 [("fallible Alloc::resize propagated through Vec/String/Box as AllocError", "crates/musli-core/src/alloc/vec.rs"),
  ("allocation errors converted to context errors", "crates/musli-core/src/context.rs")],
 ["musli::{json,storage,wire,descriptive,packed,value}::Encoding::*_with"])

prop("C04", "A failing writer is never reported as success",
 "When encoding into a writer reports success, exactly the complete encoding has been delivered to that writer, in order, with nothing lost, repeated or added. When the writer fails, fills up or stops accepting bytes at any point, encoding reports an error and the bytes delivered are a prefix of the complete encoding. A fixed-size destination is never written past its end, and the remaining space or byte count reported afterwards is exact.",
 ["fault_sequences", "inputs", "configurations"],
 "Every point at which a writer fails, writes short, is interrupted or is full; every value, format, option set and writer kind (fixed slice, growing vector, io::Write adapter, by-reference, string).",
 "Tests only write to growable vectors or amply sized arrays.",
 ["crates/musli/src/writer.rs", "crates/musli/src/writer/slice_mut_writer.rs", "crates/musli/src/wrap.rs", "crates/musli/src/json/en", "crates/musli/src/storage/en.rs", "crates/musli/src/wire/en.rs", "crates/musli/src/descriptive/en.rs"],
 [("Writer trait: write_byte/write_bytes/extend propagate errors through the context", "crates/musli/src/writer.rs"),
  ("io::Write adapter", "crates/musli/src/wrap.rs"),
  ("length-prefixed buffering of packed fields before they are written", "crates/musli/src/wire/en.rs")],
 ["musli::*::Encoding::{encode, to_slice, to_writer, to_vec, to_fixed_bytes, to_string}"])

prop("C05", "A message delivered intact decodes to exactly the value sent",
 "Any value a node encodes decodes, on another node using the same encoding (format, mode and options) and the same type, to an equal value, whatever writer, reader, allocator, context and output container either side uses, and exactly the bytes of that message are consumed. Encoding the same value again, through any writer, gives identical bytes. This holds for every standard type, container and derive attribute the library supports, including values passed through its serde bridge.",
 ["inputs", "configurations", "schedules", "histories"],
 "All values of all supported shapes (extremes, empty, nested, multi-byte text, special floats), all formats, modes, integer/length/byte-order options, readers, writers and allocators, in any order over one connection.",
 "Tests sample a few dozen values per format with default options and one reader/writer/allocator each.",
 ["crates/musli/src", "crates/musli-core/src/impls", "crates/musli-macros/src", "tests/src/models.rs"],
 [("format encoders and decoders", "crates/musli/src/{packed,storage,wire,descriptive,json}"),
  ("integer codecs: continuation, zigzag, fixed, byte order", "crates/musli/src/int, crates/musli/src/options.rs"),
  ("derived Encode/Decode", "crates/musli-macros/src/{en,de}.rs"),
  ("serde bridge", "crates/musli/src/serde")],
 ["musli::*::Encoding", "musli::serde"])

prop("C06", "Mixed-version nodes keep exchanging messages across upgrades",
 "With the upgrade-stable encodings (wire, descriptive and JSON), nodes whose type definitions differ by added, removed or reordered named fields and added or removed enum variants (an enum keeping its representation: all-unit, or internally, adjacently or externally tagged) exchange messages in both directions: unknown fields of any type are skipped, missing fields with a default take it, and every field common to both versions keeps its exact value. With the partially upgrade-stable storage encoding, a newer definition reads everything an older definition wrote when fields were reordered or added with defaults, also for records written before a restart. A message that a version cannot represent (a missing mandatory field, an unknown variant without fallback) is reported as an error, never decoded as something else.",
 ["histories", "inputs", "configurations", "crash_points"],
 "All sequences of sends, stores, upgrades, downgrades and restarts among nodes of different schema versions, all field values and unknown-field shapes, all upgrade-stable formats.",
 "A handful of hand-written version pairs are tested with one value each; unknown fields of every type at every position are not.",
 ["crates/musli/src/wire/de.rs", "crates/musli/src/descriptive/de.rs", "crates/musli/src/json/de", "crates/musli/src/storage/de.rs", "crates/musli-macros/src/de.rs"],
 [("skip of unknown fields by type tag / token", "crates/musli/src/wire/de.rs, crates/musli/src/descriptive/de.rs, crates/musli/src/json/parser"),
  ("derived field matching, defaults and missing-field errors", "crates/musli-macros/src/de.rs")],
 ["derived Decode impls"])

prop("C07", "Decoding damaged bytes is contained",
 "Decoding any byte string with any of the decoders (packed, storage, wire, descriptive, JSON, schema-less value) terminates in work bounded by the length of the input and returns either an error or a valid value of the requested type (well-formed text and characters, in-range numbers). It never panics, overflows, aborts, or reads or writes memory outside the input and its own allocations, whatever was truncated, flipped, duplicated, spliced or invented in transit. Text and byte slices borrowed from the input point inside it.",
 ["inputs", "fault_sequences", "configurations"],
 "All byte strings, biased to damage of valid messages: truncation, bit flips, spliced and duplicated spans, altered lengths and tags; all requested types, formats and options.",
 "The random-input test decodes a fixed number of small random buffers; damage to a valid message at the one byte that matters is not reached, nor are overflow checks or guard pages in place.",
 ["crates/musli/src/reader.rs", "crates/musli/src/{packed,storage,wire,descriptive,json,value}", "crates/musli-core/src/impls"],
 [("bounds-checked readers", "crates/musli/src/reader.rs"),
  ("checked lengths and limits", "crates/musli/src/wire/de.rs, crates/musli/src/storage/de.rs, crates/musli/src/descriptive/de.rs"),
  ("JSON tokenizer", "crates/musli/src/json/parser")],
 ["musli::*::Encoding::{decode, from_slice, from_str}"])

prop("C08", "A log of messages survives a crash up to the last whole record",
 "Messages appended back to back to one stream are read back one after the other by repeated decoding, each decode consuming exactly its own message and leaving the reader at the next. If the stream is cut at any byte (crash, torn write, full disk), decoding returns every message that lies wholly before the cut unchanged, and reports an error, not a value, for the message that was cut. Appending can resume after the last whole message. A program which does not know a message's type and skips it, or captures it as a dynamic value, stops at the same place and refuses the same cut. Every reader the library offers, by itself, borrowed, cloned or limited in length, gives exactly the bytes it holds, in order, and refuses a request for more.",
 ["crash_points", "histories", "inputs", "configurations"],
 "All message sequences, all cut points, all binary formats (and JSON documents other than bare numbers), all option sets; repeated crash and recovery.",
 "Tests decode one whole message at a time; no test truncates at every offset or decodes a sequence of messages from one reader.",
 ["crates/musli/src/reader.rs", "crates/musli/src/storage/de.rs", "crates/musli/src/wire/de.rs", "crates/musli/src/descriptive/de.rs", "crates/musli/src/packed", "crates/musli/src/json/parser"],
 [("readers advance exactly by what a value occupies", "crates/musli/src/reader.rs"),
  ("underflow reported when fewer bytes remain than needed", "crates/musli/src/reader.rs")],
 ["musli::*::Encoding::{encode, decode} over &mut reader"])

prop("C09", "A schema-less relay preserves what it forwards",
 "A node that knows no schema and decodes any message of a self-descriptive encoding (descriptive or JSON) into a dynamic value and re-encodes it, in the same or in the other self-descriptive encoding, forwards a message which the final receiver decodes to the same typed value, for every shape both encodings and the dynamic value can represent. Converting a typed value into a dynamic value and back directly gives the same typed value.",
 ["inputs", "configurations", "histories"],
 "All typed values, any number of relays in any combination of self-descriptive encodings, allocators with and without failures.",
 "A few values are round-tripped through the dynamic value once.",
 ["crates/musli/src/value", "crates/musli/src/descriptive", "crates/musli/src/json"],
 [("dynamic value capture with number kinds and containers", "crates/musli/src/value/value.rs"),
  ("dynamic value as decoder and encoder", "crates/musli/src/value/{de,en}.rs")],
 ["musli::value::{encode, decode, Value}"])

prop("C10", "Contexts are reusable after failure and tracing never changes a result",
 "After any encode or decode that failed at any point, clearing the context makes it behave exactly like a new one: later operations give the same results and the same error text and location as on a fresh context. Switching error capture or tracing on, or failing allocations requested by tracing, never changes whether an operation succeeds nor the value it yields, and never panics. The location a trace reports for a failure names the field, index, key or variant in which decoding stopped.",
 ["histories", "fault_sequences", "inputs", "configurations"],
 "All sequences of failing and succeeding operations sharing a context, every failure point, every allocation failure pattern inside tracing, all formats.",
 "Tests use a fresh context per call and inspect a few error messages.",
 ["crates/musli/src/context", "crates/musli-core/src/context.rs", "crates/musli-macros/src"],
 [("trace steps pushed and popped around fields, indexes, keys and variants", "crates/musli/src/context/trace.rs"),
  ("error capture and clear", "crates/musli/src/context/{capture,default_context}.rs")],
 ["musli::context::{new_in, DefaultContext}", "Context::clear"])

prop("C11", "Allocator-backed containers own each element exactly once",
 "A container backed by an allocator (vector, string, box) behaves like its standard counterpart for every sequence of its operations, on every allocator: same contents, same order, same lengths. Every element placed in it is dropped exactly once or handed back exactly once, and every allocation is returned once, also when an allocation fails midway, a conversion moves the contents elsewhere, or an element's own drop panics. A failed operation leaves the container usable with its previous contents.",
 ["histories", "fault_sequences", "configurations"],
 "All sequences of container operations and conversions, zero-sized to over-aligned element types, failures of any allocation, panics in element destructors, heap, arena and fault-injecting allocators.",
 "Tests exercise containers on the happy path with plain bytes; destructor accounting under failure is not tested.",
 ["crates/musli-core/src/alloc/vec.rs", "crates/musli-core/src/alloc/string.rs", "crates/musli-core/src/alloc/boxed.rs", "crates/musli-core/src/alloc/system.rs"],
 [("length-tracked raw buffers", "crates/musli-core/src/alloc/vec.rs"),
  ("raw-parts conversions to and from std collections", "crates/musli-core/src/alloc/vec.rs (into_std)")],
 ["musli::alloc::{Vec, String, Box}"])

prop("C12", "An archive reads back what was stored, wherever it is placed",
 "Whatever mix of values, slices, strings, forward reservations and alignment requests is stored into a zero-copy buffer, growing or fixed-size, its bytes copied to any suitably aligned address load back exactly the stored values through the references handed out, in any order. Growth, moves and refused stores (a full fixed buffer) never disturb anything stored earlier, and building the same archive again gives the same bytes: no byte of the result is uninitialised or depends on prior memory contents.",
 ["histories", "configurations", "fault_sequences"],
 "All sequences of stores, reservations, alignments and capacity exhaustion, all derived and primitive types, all buffer kinds, capacities, base addresses and load orders.",
 "Tests build a few small archives in one buffer kind and load them in place.",
 ["crates/musli-zerocopy/src/buf", "crates/musli-zerocopy/src/pointer", "crates/musli-zerocopy-macros/src"],
 [("alignment and padding bookkeeping while storing", "crates/musli-zerocopy/src/buf/{owned_buf,slice_mut,padder,store_buf}.rs"),
  ("offset-based references", "crates/musli-zerocopy/src/pointer/ref.rs")],
 ["musli_zerocopy::{OwnedBuf, SliceMut, Buf, Ref, ZeroCopy}"])

prop("C13", "Damaged or misplaced archives are refused, never believed",
 "Loading anything from an archive whose bytes were truncated, flipped, zeroed, spliced or placed at a misaligned address either returns an error or yields references that lie wholly inside the archive, are aligned, and hold valid values of their type (booleans, characters, text, enum discriminants, non-zero numbers). It never panics, loops without bound or reads outside the archive, including through nested references, slices, strings, maps, sets and tries found inside it. A value whose bytes were not damaged still loads.",
 ["inputs", "fault_sequences", "crash_points"],
 "All damage to all archives: torn writes, lost sectors, flipped bits, altered offsets and sizes, misaligned mapping; all types and index structures.",
 "Tests check a few hand-made invalid encodings; damage inside stored index structures is not tested.",
 ["crates/musli-zerocopy/src/buf", "crates/musli-zerocopy/src/pointer", "crates/musli-zerocopy/src/{phf,swiss,trie}", "crates/musli-zerocopy/src/traits.rs", "crates/musli-zerocopy-macros/src"],
 [("bounds and alignment checks on every load", "crates/musli-zerocopy/src/buf/buf.rs"),
  ("bit-pattern validation", "crates/musli-zerocopy/src/buf/validator.rs, derived ZeroCopy impls")],
 ["musli_zerocopy::Buf::{load, validate}"])

prop("C14", "Stored maps and sets answer like the collection they were built from",
 "A perfect-hash or open-addressing map or set stored in an archive answers every lookup, membership test and length query (bound or unbound) exactly like the collection it was built from: every stored key finds its value (one of its values, where a swiss table was given duplicates), no absent key is found. Keys a perfect hash cannot tell apart are refused with an error. This holds for every number of entries from zero up, every key distribution including colliding ones, and every placement of the archive after it was persisted and reloaded.",
 ["inputs", "configurations", "histories"],
 "All key sets and values (including empty, single, colliding, duplicates of the documented kind), all archive placements and reloads, for all map and set flavours.",
 "Tests build maps of two or three entries and a couple of fixed sizes.",
 ["crates/musli-zerocopy/src/phf", "crates/musli-zerocopy/src/swiss", "crates/musli-zerocopy/src/sip.rs"],
 [("displacement tables and seeded hashing", "crates/musli-zerocopy/src/phf"),
  ("control bytes, group probing and growth", "crates/musli-zerocopy/src/swiss")],
 ["musli_zerocopy::{phf, swiss}"])

prop("C15", "A stored trie answers like the multimap it was built from",
 "A trie built by inserting any strings with values in any order, through any flavour and capacity of archive buffer, returns for each exact key all and only the values inserted under it, for each prefix all and only the entries under that prefix, and iterates every entry exactly once, under its whole key. Iterating with a bound on the depth gives the same entries or, where the bound is too small, ends with an error. The insertion order of distinct keys does not change any answer. A trie that does not fit what it is to be stored in is refused with an error and disturbs nothing.",
 ["histories", "inputs", "configurations"],
 "All insertion histories over all key sets (shared prefixes, empty keys, multi-byte text), all queries, all reload placements.",
 "Tests insert a few fixed word lists in one order.",
 ["crates/musli-zerocopy/src/trie"],
 [("sorted children with longest-common-prefix splitting", "crates/musli-zerocopy/src/trie/factory.rs"),
  ("binary-searched lookup and prefix walk", "crates/musli-zerocopy/src/trie/{mod,walk}.rs")],
 ["musli_zerocopy::trie"])

prop("C16", "Archives of one byte order are readable on every machine",
 "An archive of values that state their byte order (big or little endian) and offset size - numbers, text, slices, arrays, references, records, enums, packed slices and tries - has the same bytes whatever machine builds it, whatever its own byte order and word size, and every value in it loads on every machine as the value stored. An archive damaged on the way is refused alike by all. Plain records that state no order are restored by converting them from the order of the machine that built them. Converting a value or reference between byte orders and back is lossless. (Types must have the same alignment on the machines; hash indexes are built for one kind of machine and are not claimed.)",
 ["configurations", "inputs"],
 "All values and structures, all combinations of byte order and offset size at the writing and the reading node.",
 "Only the native byte order is exercised by most tests.",
 ["crates/musli-zerocopy/src/endian", "crates/musli-zerocopy/src/pointer", "crates/musli-zerocopy/src/buf"],
 [("byte-order-aware fields and references", "crates/musli-zerocopy/src/endian/mod.rs, crates/musli-zerocopy/src/pointer/ref.rs")],
 ["musli_zerocopy::{endian, ByteOrder}"])

prop("C17", "Concurrent sessions do not influence each other",
 "Any number of encode and decode sessions running concurrently, each with its own context and buffers, or several writing alternately into buffers of one shared arena, produce exactly the results, errors and bytes they produce when run one after another, for every interleaving of their steps. Finished or abandoned sessions leave nothing behind that changes a later one.",
 ["schedules", "histories", "fault_sequences"],
 "All interleavings, at allocator and writer calls, of sessions over all formats, with failures and abandonment at any point.",
 "The loom test interleaves one small program; other tests are sequential.",
 ["crates/musli/src/alloc", "crates/musli/src/context", "crates/musli/src/writer.rs", "crates/musli-core/src/alloc/system.rs"],
 [("per-session context, shared arena with interior mutability", "crates/musli/src/alloc/slice.rs")],
 ["musli::*::Encoding::*_with"])

prop("C18", "A lying length cannot make a decoder reserve memory out of proportion",
 "The memory a decoder requests while decoding any input, valid or damaged, is bounded by a fixed allowance plus a fixed multiple of the number of input bytes it actually has, no matter what lengths and counts the input claims. Once decoding returns an error, all of it has been released.",
 ["inputs", "fault_sequences", "configurations"],
 "All inputs with altered or invented lengths and counts; all container types, formats, readers and allocators.",
 "Tests never measure allocation; an unbounded reservation passes every round-trip test.",
 ["crates/musli-core/src/impls/alloc.rs", "crates/musli-core/src/internal/size_hint.rs", "crates/musli/src/reader.rs", "crates/musli/src/value/value.rs"],
 [("size hints clamped before reserving", "crates/musli-core/src/internal/size_hint.rs")],
 ["allocator seen by musli::*::Encoding::decode"])

prop("C19", "A user callback that fails or panics midway leaks and duplicates nothing",
 "If a user-supplied encode, decode or visit step reports an error or panics at any point of a message, that outcome reaches the caller, every element decoded so far is dropped exactly once, every allocation is returned, and nothing beyond a prefix of the correct bytes has been written. The same encoding, context and allocator work normally afterwards.",
 ["fault_sequences", "inputs", "configurations"],
 "Every callback position in every message as the failing one, error or panic, for every container, format and direction.",
 "Tests do not fail or panic inside user code.",
 ["crates/musli-core/src/impls", "crates/musli-core/src/internal/fixed.rs", "crates/musli/src/{storage,wire,descriptive,json,value}", "crates/musli-macros/src"],
 [("guards around partially built containers and arrays", "crates/musli-core/src/internal/fixed.rs, crates/musli-core/src/impls/mod.rs")],
 ["user Encode/Decode impls inside musli containers"])

prop("C20", "Stopping early in a collection never desynchronises the stream",
 "A hand-written decoder that uses or skips every decoder it is handed, but stops asking before the end of a sequence, map or struct (or hands the remaining entries to another decoder which it ends early), skips values and keys, looks ahead on a clone, or captures a value in a buffer and reads it from there, either gets an error from the decoder or finds the data that follows intact; it never sees bytes of the abandoned part as something else. One that asks for more than a sequence or pack holds gets an error rather than bytes of what follows. Encodings which are tagged (wire, descriptive, JSON) support all of this without an error; storage may refuse to skip or stop. This holds at every depth, for every kind of skipped content the format can describe, and for the next message in the stream.",
 ["histories", "inputs", "schedules"],
 "Every stopping point and skip decision at every nesting level for every message and format.",
 "Derived decoders always consume everything; early exits and explicit skips are scarcely tested.",
 ["crates/musli/src/storage/de.rs", "crates/musli/src/wire/de.rs", "crates/musli/src/descriptive/de.rs", "crates/musli/src/json/de", "crates/musli/src/value/de.rs"],
 [("collection ends: remaining entries skipped or refused", "each format's decode_sequence/decode_map"),
  ("skip of a value", "each format's Decoder::try_skip/skip")],
 ["musli::de::{SequenceDecoder, MapDecoder, EntryDecoder, Decoder::skip}"])

prop("C21", "Decimal text parses to the nearest float and integer widths are exact",
 "A number in JSON text decodes to the exact integer, or to the nearest representable floating point number, that the text denotes; text out of range of an integer type is refused.",
 ["inputs"], "All decimal texts.",
 "Tests sample a few numbers.",
 ["crates/musli/src/dec2flt", "crates/musli/src/json/parser/integer.rs"],
 [("fast and slow decimal conversion", "crates/musli/src/dec2flt")])

prop("C22", "Invalid attribute combinations are refused at compile time",
 "The derive macros accept exactly the documented attribute combinations and refuse others with a compile error rather than generating code with other behaviour.",
 ["programs"], "All annotated type definitions.",
 "UI tests hold a fixed list.",
 ["crates/musli-macros/src", "crates/musli-zerocopy-macros/src"],
 [("attribute parsing and validation", "crates/musli-macros/src/internals/attr.rs")])

prop("C23", "Messages do not depend on the machine",
 "A message of a stated byte order, whatever the encoding (storage, packed, wire, descriptive, JSON) and whether its numbers are fixed or variable, has the same bytes on every machine, whatever the machine's own byte order and word size and whether or not the machine may copy values as memory; every machine receives in it the value sent. A damaged message is received as the same value, or refused, by all machines of the same word size; a machine of shorter words may refuse numbers it cannot hold but never receives another value. (The packed encoding is of native byte order by default and takes part with a stated order; the descriptive encoding says how wide numbers are, and so names the sender's word size beside numbers of a pointer's width.)",
 ["configurations", "inputs", "fault_sequences"],
 "All values, encodings and options, all combinations of byte order and word size at the sender and receiver, all damage in transit.",
 "Tests run on one machine, whose native order hides what is written as memory.",
 ["crates/musli/src/int", "crates/musli/src/options.rs", "crates/musli/src/storage", "crates/musli/src/wire", "crates/musli/src/descriptive", "crates/musli-core/src/impls"],
 [("integer and length encodings", "crates/musli/src/int/encoding.rs, crates/musli/src/int/continuation.rs, crates/musli/src/wire/int.rs"), ("values written as memory", "crates/musli/src/options.rs is_native_fixed, IS_BITWISE_ENCODE and IS_BITWISE_DECODE")],
 ["musli::options", "musli::{storage, wire, descriptive, packed, json}::Encoding"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
