#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: claimed checks and properties not claimed."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
T = "deterministic simulation with fault injection: "
CLAIMED = {
 "C01": (T + "seeded interleaving of arena owners, exhaustion faults, reference model after every step",
   "Sampled histories (hundreds of thousands per quick run) of the real allocator over guarded memory; every live buffer's placement, alignment, disjointness and contents compared with a model after every operation. Trusts the simulator and the guard pages; sampling, not proof."),
 "C02": (T + "seeded histories with exhaustion faults, drain, then bounded service (liveness) checks",
   "Sampled fill-and-drain histories; after each drain the real arena must serve requests a fresh one serves, less a fixed bookkeeping allowance; stack-order cycles must repeat forever. Sampling, not proof."),
 "C11": (T + "seeded container histories over real and fault-injecting allocators, refused requests, panicking destructors",
   "Sampled histories of vectors, boxes and strings of tracked elements compared with std collections after every operation; every element's drop and every allocation accounted. Sampling, not proof."),
}
CLAIMED.update({
 "C03": (T + "allocation refusals at seeded request numbers, budgets and small arenas during encode, decode and error reporting, then recovery",
   "Sampled messages of about forty types in all encodings; the result under refusals is compared with the result without, every allocation is accounted for and the operation is repeated once memory is back. Sampling, not proof."),
 "C04": (T + "simulated devices that fail, fill up, glitch, write short or are too small, at seeded byte offsets",
   "Sampled messages and failure offsets for every kind of writer; delivered bytes compared with the complete encoding. Sampling, not proof."),
 "C05": (T + "simulated nodes exchanging seeded messages with seeded writers, readers, allocators and surrounding traffic",
   "Sampled messages of about forty types (every supported kind of type, container and attribute) in thirteen encodings; value, consumption and byte determinism compared. Sampling, not proof."),
 "C08": (T + "simulated disk with short writes, errors, disk full and crashes losing the unsynced tail at any byte, then recovery and resumption",
   "Sampled logs, crash points and recoveries; what recovery returns is compared with what was appended. Sampling, not proof."),
 "C07": (T + "messages corrupted in flight by seeded fault sequences, received by nodes that must survive, judge and keep going",
   "Sampled fault sequences over messages of about forty types and a schema-less receiver in all encodings, in guarded memory under a checking allocator; accepted values must be valid and survive a further trip. Sampling, not proof."),
 "C18": (T + "length fields replaced in flight by seeded lies; memory requested is metered against the message's size",
   "Sampled corruptions of length-bearing positions; peak requested memory compared with a bound linear in the input. Sampling, not proof."),
 "C10": (T + "seeded histories of operations (failing, starved, clean) over contexts that outlive them, compared with new contexts and with contexts that do not trace",
   "Sampled histories; outcomes and reports compared between reused and new contexts, traced and untraced; reported locations compared with the place of a planted failure. Sampling, not proof."),
 "C19": (T + "user callbacks inside messages failing or panicking at seeded positions, with every element and allocation accounted for",
   "Sampled messages and failing callbacks for every kind of container, format and direction; drops, heap blocks, allocator blocks and delivered bytes are accounted for and the operation repeated. Sampling, not proof."),
 "C20": (T + "seeded hand-written receivers over a message stream that read, skip, stop, clone, capture or visit element by element, checked against the tree that was sent and the positions of the messages",
   "Sampled message trees and decision sequences in storage, wire, descriptive and JSON encodings; every value read, every end of a collection and every message boundary compared with what was sent. Sampling, not proof."),
 "C09": (T + "messages forwarded hop by hop by simulated relays that know no schema, with memory refused at seeded points and retried, and received as their type",
   "Sampled messages, routes of up to four hops through descriptive and JSON encodings, allocators and refusals; what the receiver reads is compared with what was sent. Sampling, not proof."),
 "C12": (T + "seeded histories of stores, reservations, alignments and refused stores on all kinds of archive buffers, executed twice on different memory, then reloaded at seeded addresses",
   "Sampled histories over about seventy stored types and eight kinds of buffer; every stored byte compared with an independent layout model, every reference reloaded in place and in relocated copies. Sampling, not proof."),
 "C13": (T + "seeded damage to archives (truncation, bit flips, lost and torn sectors, spliced parts, misplacement) mapped between inaccessible pages, then loads of every kind compared with an exact model of what is loadable",
   "Sampled archives, damages, addresses and offsets over about seventy stored types and all index structures; outcomes of plain loads compared with an independent model, results of lookups checked to lie in the archive and be valid. Sampling, not proof."),
 "C14": (T + "seeded histories building maps and sets into archives that grow, fill up and are refused, then reloaded at seeded addresses and asked for every key",
   "Sampled archives of up to three indexes of up to 300 (thorough 1500) entries, seventeen kinds of keys and six of values in eight kinds of buffer; every answer compared with the entries given. Sampling, not proof."),
 "C15": (T + "seeded insertion histories into tries of several flavours and archive sizes that fill up and refuse, reloaded at seeded addresses and asked for every key, absent relatives and prefixes with and without a bound on depth",
   "Sampled archives of up to two tries of up to 200 (thorough 1000) entries, six flavours and orders of archive, six value types; every answer compared with an ordered map. Sampling, not proof."),
 "C16": (T + "seeded archives of stated byte orders exchanged between this machine and emulated machines of other byte orders and word sizes, with archives damaged in transit and requests repeated",
   "Sampled archives of about fifteen kinds of values in six orders and sizes, every fourth also built and read by an interpreted 64-bit or 32-bit big endian or 32-bit little endian machine running the real code; bytes and values compared. Sampling, not proof."),
 "C23": (T + "seeded messages exchanged between this machine and emulated machines of other byte orders and word sizes, with messages damaged in transit and requests repeated",
   "Sampled values of thirteen message types in fifteen encodings, every third also sent and received by an interpreted 64-bit or 32-bit big endian or 32-bit little endian machine running the real code; bytes and received values compared. Sampling, not proof."),
 "C06": (T + "cluster of nodes of different versions that send, lose, duplicate, reorder, forward, store, crash, restart, upgrade and downgrade, every message and record judged by what the reader's version should make of it",
   "Sampled histories over eleven families of types in six versions each (fields added, removed, renamed in code, made mandatory, defaulted or skipped; variants added, removed or falling back) in all upgrade-stable encodings and in storage. Sampling, not proof."),
 "C17": (T + "sessions on threads of which one runs at a time, handing over at seeded calls into context, allocator, device and element code, with abandonment, nesting, failing devices and refused memory, compared with the same sessions run alone",
   "Sampled schedules of two to five sessions over all formats and about forty types, own, shared-arena and system memory; every result, error text, report and byte compared. Hand-overs at calls, not between instructions. Sampling, not proof."),
})
NA = {
 "C21": "Number parsing is a pure function of its input text: no schedule, clock, fault or interleaving takes part, so simulation would only be input generation in disguise.",
 "C22": "Acceptance of attributes is decided by the compiler at build time; nothing runs, so there is no execution to simulate.",
}
m = dict(version=1, setup_cmd="bash check.sh build",
  hooks=dict(guard="none", enable="no hooks were needed: the code's own seams (Allocator, Writer/io::Write, Reader, Context, user Encode/Decode impls, archive bytes) are used", source_commits=[]),
  checks=[dict(property=p, quick_cmd=f"bash check.sh {p}", thorough_cmd=f"VERIF_TIER=thorough bash check.sh {p}", evidence_file=f"evidence/{p}.json", technique=t, level="exploration", level_note=n) for p, (t, n) in CLAIMED.items()],
  not_applicable=[dict(property=p, reason=NA.get(p, "Check still being built; not claimed yet.")) for p in ids if p not in CLAIMED])
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
