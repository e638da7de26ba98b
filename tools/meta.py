"""What each check runs, and how it describes itself. tools/gen_manifest.py
turns this into MANIFEST.json; check.py reads it at run time."""

TRUST = ("Trusts the reference codec/model in harness/src (written from the RTPS 2.3 text and the property, not from the code), "
         "rustc, and that the guarded re-exports show the real code.")

# property -> quick scale in percent, sanitizer passes, technique, note, rule
CHECKS = {
 "C01": dict(scale=900, technique="runtime monitoring: hostile byte streams against the real decoder, crash/hang/progress monitor, both build profiles",
   note="Exploration: every decode call of ~3 million generated sessions is watched for panic, abort (allocator refuses 1 GiB requests), stall (40 s CPU watchdog) and progress (bytes consumed on every item or error, bounded number of calls). DATA/DATA_FRAG panics are a listed finding.",
   rule="A case is a byte stream (structure-aware valid messages, damaged ones, all 256 kinds x flags with small bodies, random and garbage bytes, absurd counts and lengths, multi-megabyte runs) with a random chunking and repeated calls after errors. Distinct: hash of the bytes fed; non-trivial: at least one decode call returned an item or an error."),
 "C02": dict(scale=900, technique="runtime monitoring: trace oracle over generated RTPS sessions (delivered events vs. what was put on the wire)",
   note="Exploration: exactly-once, in-order, exact-contents monitor over millions of submessages in mixed byte orders; each delivered field is compared through accessors and through independent re-encoding.",
   rule="A case is a session of messages mixing all entity, INFO, PAD and unknown submessages with per-submessage byte order and random flags, plus sweeps over every flag byte and every bit count. Distinct: hash of the session bytes; non-trivial: it contains at least one entity submessage whose delivery was compared."),
 "C03": dict(scale=1200, technique="runtime monitoring: shadow interpreter of the RTPS receiver state, compared after every delivery and message end",
   note="Exploration: the whole interpretation context is compared with a shadow state at every delivery, after every decode call that finished a submessage, and across messages and malformed submessages.",
   rule="A case is a session (or one of all ordered triples of context-changing submessages) whose context is compared at every step. Distinct: hash of the session bytes; non-trivial: at least one context comparison after an INFO submessage or header."),
 "C04": dict(scale=700, technique="runtime monitoring: differential executions of the same stream under different chunkings, and FramedRead with injected Pending",
   note="Exploration: outcomes and contexts of chunked executions are compared with the one-piece execution; every single cut position of many streams is enumerated; incomplete input must leave bytes and context alone.",
   rule="A case is a stream (valid, damaged or with a rejected header) executed in one piece, in random or exhaustive chunkings, and through tokio_util FramedRead with arbitrary read sizes and Pending results. Distinct: hash of stream and chunking; non-trivial: the stream was cut inside a header or submessage at least once."),
 "C05": dict(scale=800, technique="runtime monitoring: shadow framing of the byte stream with junk-filled regions, context and delivery oracle",
   note="Exploration, with all 65536 declared lengths, all 256 kinds and all kind x flag combinations at length zero enumerated each run.",
   rule="A case is a session in which unknown kinds, padding, time-less INFO_TS and surplus bytes carry adversarial junk (embedded headers, valid-looking submessages), or one point of the sweeps over declared length, kind and flags. Distinct: hash of the bytes; non-trivial: a region was skipped, or a zero-length submessage met."),
 "C06": dict(scale=900, technique="runtime monitoring: acceptance oracle over generated headers (all versions, all vendor ids, protocol-id mutations)",
   note="Exploration; all 65536 versions and vendor ids and all one-byte changes of the protocol id are enumerated each run.",
   rule="A case is a header (sweeps of version bytes, vendor ids, protocol-id byte changes; random words and fields) decoded by a fresh or used receiver, followed by a probe submessage. Distinct: hash of header bytes; non-trivial: accepted or rejected outcome compared with the oracle and context checked."),
 "C07": dict(scale=1200, technique="runtime monitoring: fault injection into submessage bodies with before/after context monitor and continuation probe",
   note="Exploration: every possible truncation of each supported kind (enumerated over bodies), excess bit counts, undefined locator kinds at either list and failures half-way; the context must be bit-for-bit unchanged and the next submessage must decode.",
   rule="A case is a message with one or several malformed submessages between probes. Distinct: hash of the bytes; non-trivial: a malformed submessage was reached and its report, the context and the following delivery were compared."),
 "C08": dict(scale=800, technique="runtime monitoring: counting global allocator around every decode call and wire read (largest request, peak, retained)",
   note="Exploration with exact measurement: any single request above 4 x available bytes + 1 KiB, any peak above 8 x + 4 KiB, retained memory above the last reply lists, or bytes left after drop is a violation. What speedy's vectors reserve for a count read from a stream is a listed finding.",
   rule="A case is a wire-type read or a receiver session with hostile counts/lengths, valid, mutated or very long input, run under the measuring allocator. Distinct: hash of the input bytes; non-trivial: at least one measured decode call or read."),
 "C09": dict(scale=500, san=["asan", "msan", "miri"], technique="sanitizers: AddressSanitizer, MemorySanitizer, Miri (undefined-behaviour interpreter) on lean workloads, plus leak accounting and bit-storage assertions",
   note="Exploration: the workload runs natively in both profiles, under ASan and MSan (instrumented std) at near native speed, and a smaller part under Miri (stacked borrows) in parallel. speedy's own assume_init arrays are patched out for Miri only.",
   rule="A case is one lean workload (wire type read/written/compared, receiver session, framed reader, number sets, behaviour objects, conversions) on good and damaged bytes, or one raw bit-set storage script. Distinct: seed of the workload mixed with its result; non-trivial: it ran to its end without panicking."),
 "C10": dict(scale=250, technique="runtime monitoring: independent encoder as oracle over generated values of every wire type, both byte orders, all reader/writer entry points",
   note="Exploration: values are built through the API and through decoding; layout, round trip, consumed length, slices/owned buffers/streams and equality are compared with an independent encoder.",
   rule="A case is one value of one of 33 wire types with its neighbours (one field changed). Distinct: hash of type and encoding; non-trivial: layout and round trip were compared in both byte orders."),
 "C11": dict(scale=120, technique="runtime monitoring: totality/strictness oracle over arbitrary, mutated and truncated bytes for every wire type and reader entry point",
   note="Exploration; all inputs of at most two bytes and every truncation of each generated encoding are enumerated.",
   rule="A case is a byte string read as one of 33 wire types from slices, owned buffers and streams in both byte orders, with all its truncations and with trailing bytes. Distinct: hash of type and bytes; non-trivial: the outcome was compared with the reference decoder."),
 "C12": dict(scale=1200, technique="runtime monitoring: model-based set monitor (BTreeSet) over insert/encode/decode/iterate scripts and raw wire bitmaps",
   note="Exploration; all bit counts 0..=256 with several bitmaps and every offset from the base are enumerated.",
   rule="A case is a script of insertions (near base, out of range, at the number limits), encodings, decodings and extensions on one set, or a set received from arbitrary bitmap words. Distinct: hash of base and members; non-trivial: at least one iteration compared with the model."),
 "C13": dict(scale=500, technique="runtime monitoring: 128-bit arithmetic oracle over operand pairs (telling values enumerated pairwise, random rest)",
   note="Exploration; all pairs of a few hundred boundary values are enumerated in every run, in both overflow profiles.",
   rule="A case is a pair of numbers on which all checked and plain operations, comparisons and conversions are compared with exact 128-bit arithmetic. Distinct: hash of the pair; non-trivial: every pair."),
 "C14": dict(scale=500, technique="runtime monitoring: round-trip and meaning oracle over generated addresses and locators",
   note="Exploration; all 65536 ports and all single-octet patterns are enumerated.",
   rule="A case is a socket address or locator (any kind, port, bytes) converted in all directions. Distinct: hash of the fields; non-trivial: compared with the oracle."),
 "C15": dict(scale=500, technique="runtime monitoring: exact rational oracle over generated times and timestamps, order monitor on pairs",
   note="Exploration; a stride through every nanosecond of a second and the fraction boundaries are swept.",
   rule="A case is a system time or timestamp (uniform, boundary, neighbours) converted both ways, with order compared against a neighbour. Distinct: hash of the value; non-trivial: compared with the oracle."),
 "C16": dict(scale=400, technique="runtime monitoring: exact oracle over generated durations, order monitor on pairs",
   note="Exploration; a stride through every nanosecond and all second boundaries are swept.",
   rule="A case is a standard or protocol duration (uniform, boundary, negative, invalid, infinite) converted both ways. Distinct: hash of the value; non-trivial: compared with the oracle."),
 "C17": dict(scale=100, cfg=["rtps_verif_parameter"], technique="runtime monitoring: layout oracle over written parameters and parameter sequences; all lengths and length fields enumerated",
   note="Exploration; every value length 0..=65535+ and every length field is enumerated each run.",
   rule="A case is a parameter (any id, value length and contents) or a sequence of them written and read back from slice and stream, or one length field over too few/enough bytes. Distinct: hash of id and value; non-trivial: written form compared with the oracle."),
 "C18": dict(scale=700, technique="runtime monitoring: model-based cache monitor (reference map) over operation histories, all short histories enumerated",
   note="Exploration; all histories of length 6 over three numbers and two operations are enumerated; large histories reach tens of thousands of changes.",
   rule="A case is a history of additions, removals and lookups around small, boundary or 64-bit-extreme numbers; after each operation lookups, minimum and maximum are compared. Distinct: hash of the history; non-trivial: at least one lookup of a stored change."),
 "C19": dict(scale=800, technique="runtime monitoring: trace oracle on handed-out sequence numbers (ascending, once, none skipped) over changing histories",
   note="Exploration; all orders and subsets of short histories are enumerated; histories grow, shrink and are permuted between calls, several proxies run side by side. i64::MIN as a change number is outside (it equals the initial mark).",
   rule="A case is a run of unsent_changes/next_unsent_change calls of several proxies over histories that change between calls. Distinct: hash of the numbers handed out and history; non-trivial: at least one change handed out."),
 "C20": dict(scale=1500, technique="runtime monitoring: numbering and identity oracle over interleaved writers",
   note="Exploration: numbering across 32-bit boundaries, all kinds in all orders of three, long runs, configuration re-read after each operation.",
   rule="A case is a set of stateless writers creating changes in random order with locator operations between. Distinct: hash of configurations and operations; non-trivial: at least one change compared."),
 "C21": dict(scale=100, cfg=["rtps_verif_endpoints"], technique="runtime monitoring: model-based monitor of matched readers and locator lists over call histories",
   note="Exploration: lookups of present, absent and near-miss GUIDs after each addition with proxy state advanced; locator lists compared entry by entry after each call.",
   rule="A case is a history of matched_reader_add/lookup or reader_locator_add/remove with many equal and nearly equal entries. Distinct: hash of the final model; non-trivial: at least one lookup or removal that had something to find."),
 "C22": dict(scale=150, guided=False, san=["tsan", "miri-threads"], technique="ThreadSanitizer (instrumented std) and Miri race detection plus a differential non-interference monitor (alone in a fresh process vs. interleaved vs. on threads)",
   note="Exploration: each instance's trace interleaved with others, hopping between threads and in parallel is compared with its trace alone in a fresh process; TSan watches the same threaded workload for data races, Miri a small part of it.",
   rule="A case is a set of receivers, writers, caches, proxies and sets with interleaved steps. Distinct: hash of the scripts and interleaving; non-trivial: at least two instances switched between."),
 "C23": dict(scale=800, technique="runtime monitoring: independent RTPS 2.3 peer (encoder/decoder written from the specification) as oracle",
   note="Exploration: messages and elements as a peer would lay them out are decoded and their meaning compared; values encoded here are interpreted by the peer. Three deviations are listed findings.",
   rule="A case is a message, element, time, duration, set, locator or constant in specification layout, in either direction. Distinct: hash of the bytes; non-trivial: meaning compared."),
 "C24": dict(scale=1200, technique="runtime monitoring: flag algebra enumerated (256 x 256), byte-order oracle over all flag bytes, kinds and neighbours",
   note="All flag/mask pairs, all flag x kind headers in both caller byte orders and all length fields are enumerated; mixed-order messages are generated.",
   rule="A case is a flag byte with all masks, a submessage header with every flag/kind, or a message whose submessages alternate byte orders. Distinct: hash of the case parameters; non-trivial: each."),
 "C25": dict(scale=1500, technique="runtime monitoring: end-to-end conservation and exactly-once oracle over writer -> history -> proxies -> wire -> receiver pipelines with loss",
   note="Exploration: a reference run of the reliable protocol with random loss, late joiners and removals; heartbeats, acknacks and gaps travel through the real encoder and receiver.",
   rule="A case is a pipeline of up to 120 steps with several readers and random loss. Distinct: hash of the operation sequence and outcome; non-trivial: at least one change served."),
 "C26": dict(scale=600, technique="runtime monitoring: total-order and meaning oracle over generated values, near-equal pairs and chains of every comparable type",
   note="Exploration: values are mostly neighbours differing in one part; all operators, reversed, reflexive and transitive comparisons, hashes, copies and sorted maps are compared with plain keys; all protocol versions, flag pairs and byte positions are enumerated.",
   rule="A case is 3-12 values of one type (near-equal, repeated, boundary) compared pairwise in all ways and put into a sorted map. Distinct: hash of type and values; non-trivial: each."),
 "C27": dict(scale=400, technique="runtime monitoring: reference framing as oracle for decode_eof and FramedRead on streams broken off at every byte",
   note="Exploration: messages (some with malformed submessages) are cut at random or at every position, in random chunks; all kinds and flags are enumerated with cuts inside their header and body.",
   rule="A case is a stream, its cut(s) and chunking, ended both directly and through the framed reader. Distinct: hash of the bytes; non-trivial: each."),
 "C28": dict(scale=500, cfg_if_possible=["rtps_verif_parameter"], technique="runtime monitoring: fault injection into the streams and buffers of every wire type, with a prefix/error oracle",
   note="Exploration: for each generated value the stream fails at every position (up to 80 bytes; 68 positions beyond) with an error or by taking nothing, in whole or small portions; buffers of every shorter size; interruptions; sequences of values in one stream. Bytes that nobody wrote (odd parameter lengths, damaged sets) must need all that reading them used.",
   rule="A case is a value of a wire type with all its fault positions, in writing and reading. Distinct: hash of type and encoding; non-trivial: each."),
 "C29": dict(scale=100, guided=False, extra=["eff"], technique="runtime monitoring: counting every branch taken and byte copied or allocated per operation (compiler instrumentation, interposed copying) against a linear budget",
   note="Exploration: a build in which this crate, the code under test and its dependencies count branches judges each call of decode (big, waiting, full-buffer, hostile, long sessions), every wire type, set operation, conversion and history operation; budgets are 5 to 10 times what the code needs. The ordinary builds judge bytes allocated.",
   rule="A case is a stream, value, set, conversion or history, each of whose operations is measured on its own. Distinct: hash of the input; non-trivial: each."),
}
