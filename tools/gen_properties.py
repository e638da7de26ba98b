#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays valid)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

RX = "src/messages/receiver.rs"
prop("C01", "Hostile input never crashes, aborts or stalls the message receiver",
 "Whatever bytes are fed to a message receiver, in whatever chunks and however often it is called again after an error, every decode call returns: an item, a request for more bytes, or an error; it never panics, aborts or loops. A call that returns an item or an error has consumed input, so draining any finite input takes finitely many calls.",
 ["inputs", "schedules"], "every byte string and every way of splitting it into chunks, including continued decoding after errors",
 "The tests decode six hand-written valid messages; no test feeds truncated, oversized, unknown or random bytes.",
 [RX, "src/common/bit_set.rs", "src/structure/locator.rs"],
 [("length checks before each split of the buffer", RX), ("Result-returning element readers", "src/messages/*.rs, src/structure/*.rs")],
 [("deserialization state", "header expected / submessage expected", RX)], ["return value of decode", "bytes left in the buffer"])
prop("C02", "Every entity submessage is delivered once, in order, with exact contents",
 "For every well-formed RTPS message made of any mix of supported submessages, each in its own byte order, the receiver delivers exactly the AckNack, Gap, Heartbeat, HeartbeatFrag and NackFrag submessages the message contains: each once, in wire order, none invented or lost. Every delivered field (ids, sequence and fragment numbers, number sets, counts and, where reported, flags) equals what the sender put on the wire.",
 ["inputs", "histories"], "every sequence of supported submessages, every field value, both byte orders, any mix with info/pad/unknown submessages",
 "The existing tests deliver one submessage per message with an empty number set and one or two constant field values.",
 [RX, "src/messages/ack_nack.rs", "src/messages/gap.rs", "src/messages/heartbeat.rs", "src/messages/heartbeat_frag.rs", "src/messages/nack_frag.rs"],
 [("dispatch on submessage kind", RX), ("derived readers of the submessage structs", "src/messages/*.rs")], [], ["items returned by decode"])
prop("C03", "Interpretation context follows exactly the preceding header and INFO submessages",
 "When an entity submessage is delivered, and at the end of a message, the receiver's context (source version, vendor and prefix, destination prefix, unicast and multicast reply locators, timestamp and whether there is one) is exactly what the message header and the INFO submessages before that point prescribe under the RTPS rules. Nothing else changes it: not entity, pad or unknown submessages, not later ones, and not an earlier message handled by the same receiver, since each header starts from the initial context.",
 ["inputs", "histories"], "every interleaving of headers, INFO_TS, INFO_SRC, INFO_DST, INFO_REPLY, INFO_REPLY_IP4 (with and without their optional parts) and other submessages",
 "The tests apply at most two INFO submessages per message and look only at the state after the last one; resets, overrides and second messages are never exercised.",
 [RX], [("per-kind state updates in the decoder", RX)], [("receiver context", "the RTPS Receiver state", RX)], ["receiver context after each decode call"], "read access to the receiver context (cfg rtps_verif)")
prop("C04", "The result of decoding does not depend on how the bytes arrive",
 "Splitting a byte stream (whose submessages declare their lengths) into any chunks, and decoding by direct calls or through tokio's framed reader, yields the same items and errors, and the same contexts, as decoding it in one piece; everything decodable from the bytes so far is delivered without waiting for more. While a header or submessage is incomplete, decode asks for more bytes and neither consumes any nor changes the context.",
 ["inputs", "schedules"], "every message or byte stream and every partition of it into chunks, including one byte at a time",
 "Every test hands the decoder the complete message in one buffer and never goes through a framed reader.",
 [RX], [("completeness check before consuming, loop over submessages without an item", RX)], [("deserialization state", "survives between calls", RX)], ["items, errors, buffer length and context after every call"], "read access to the receiver context (cfg rtps_verif)")
prop("C05", "Submessages are delimited exactly by their declared length",
 "Each submessage takes exactly its declared number of bytes, whatever its kind and flags: unknown and vendor-specific kinds, padding, an INFO_TS whose flag says there is no timestamp, and surplus bytes after known contents are skipped, and what they contain influences neither later submessages nor the context. A declared length of zero means an empty body for PAD and INFO_TS; for any other kind that submessage is the last and extends to the end of the message, after which the receiver expects a new message header.",
 ["inputs"], "all 256 submessage ids, all flags, body lengths 0..65535, any bytes in skipped regions, at any position in the message",
 "The tests contain no unknown kind, no non-empty padding, no surplus bytes and no zero-length final submessage.",
 [RX, "src/messages/submessage_header.rs"], [("split of the body before parsing it", RX), ("submessage length in the flag's byte order", "src/messages/submessage_header.rs")], [], ["items delivered after a skipped region", "bytes consumed"])
prop("C06", "Exactly the messages with an RTPS header of a supported major version pass",
 "A message is accepted if and only if it starts with the four characters RTPS and its major protocol version is not above the supported one (2), whatever its minor version, vendor and prefix; acceptance records that version, vendor and prefix as the source. A rejected header gives an invalid-data error, delivers nothing and leaves the context as it was.",
 ["inputs"], "all 20-byte headers",
 "Validity is unit-tested on four headers with the right protocol id; a wrong id, and the decoder's reaction to a bad header, are never tested.",
 [RX, "src/messages/header.rs", "src/messages/protocol_id.rs", "src/messages/protocol_version.rs"], [("header validity rule", "src/messages/header.rs"), ("invalid-data error mapping", RX)], [], ["decode result", "context after the header"], "read access to the receiver context (cfg rtps_verif)")
prop("C07", "Malformed submessages are reported and have no effect",
 "A submessage of a supported kind whose declared body is too short for its contents, whose number set claims more than 256 bits, or whose locators have an undefined kind is answered with an error: it is never delivered, never completed with bytes that belong to a later submessage, and leaves the context exactly as it was, even if it fails half-way. Decoding can go on at the next submessage boundary.",
 ["inputs", "fault_sequences"], "every truncation and corruption of every supported submessage kind, with arbitrary bytes following it",
 "No test contains a malformed submessage; the error path after the header is never executed.",
 [RX, "src/common/bit_set.rs", "src/structure/locator_kind.rs"], [("parse from the body slice only, update the context after a complete parse", RX), ("bit count check", "src/common/bit_set.rs")], [("receiver context", "must be unchanged on error", RX)], ["decode result", "context before and after"], "read access to the receiver context (cfg rtps_verif)")
prop("C08", "Memory used for decoding is bounded by the bytes actually received",
 "While handling any input, the memory requested by the receiver or by decoding any wire type is at most a small constant factor of the bytes supplied plus a small constant; counts and lengths claimed inside the input never determine an allocation by themselves. However many messages or submessages go through, what a receiver keeps is bounded by its last reply-locator lists, and dropping it returns everything.",
 ["inputs", "histories"], "every byte string, in particular those claiming huge counts, and arbitrarily long sessions",
 "Unit tests do not observe allocation at all, and never claim more elements than they contain.",
 ["src/structure/locator.rs", "src/common/bit_set.rs", RX, "src/messages/submessage_elements/parameter.rs"],
 [("minimum element size known to the vector reader", "src/structure/locator.rs"), ("limit on the number of bits", "src/common/bit_set.rs")], [], ["allocator calls during decode"])
prop("C09", "No undefined behaviour or memory error on any input",
 "Decoding, encoding, building and iterating protocol values performs no out-of-bounds or uninitialised access, no invalid use of the unchecked bit storage, no use after free and leaks nothing, for any input bytes.",
 ["inputs"], "every byte string given to the receiver or to any wire-type reader, and every value built through the API",
 "Tests run without sanitizers on a handful of inputs; reading uninitialised or stale memory would not fail them.",
 ["src/common/bit_set.rs", "src/common/ranged_bit_set.rs", RX], [("unchecked access to the bit vector's storage", "src/common/bit_set.rs")], [], ["Miri and AddressSanitizer/LeakSanitizer reports"])
prop("C10", "Every wire type round-trips and has the fixed RTPS layout in both byte orders",
 "Encoding any value of any wire type and decoding it in the same byte order gives back an equal value and consumes exactly the encoded bytes, from slices, owned buffers and streams alike. The bytes are the type's fields in order, numbers in the chosen byte order and byte arrays unaffected by it, with the RTPS size of the type; two values are equal exactly when their encodings are.",
 ["inputs"], "all values of all wire types (ids, prefixes, GUIDs, numbers, counts, times, durations, kinds, locators, headers, submessages), both byte orders, all readers",
 "Each type is tested on one to four constants, mostly non-negative and mostly via one reader.",
 ["src/structure", "src/messages", "src/common"], [("derived and hand-written readers and writers", "src/structure/*.rs, src/messages/*.rs")], [], ["encoded bytes", "decoded value", "bytes consumed"])
prop("C11", "Decoding arbitrary or truncated bytes as any wire type is total and strict",
 "Decoding any bytes as any wire type returns a value or an error and never panics; an encoding cut short anywhere is an error, bytes after the value do not matter, and undefined enumeration tags are refused. Any value of a fixed-layout type that is decoded encodes to the very bytes it was read from.",
 ["inputs"], "all byte strings, all truncation points, all wire types, both byte orders, all readers",
 "No test decodes anything but a complete valid encoding.",
 ["src/structure", "src/messages", "src/common"], [("element readers and their declared minimum sizes", "src/structure/*.rs, src/messages/*.rs")], [], ["result of reading"])
prop("C12", "Number sets hold exactly the numbers inserted or received",
 "A sequence-number or fragment-number set accepts exactly the numbers from its base to base+255, reports an insertion as new exactly once, and iterates precisely its members in ascending order, also after encoding and decoding and when more are inserted into a decoded set. A set received from the wire contains exactly the numbers whose bits are marked within its declared bit count; stray bits beyond it and positions beyond the largest representable number yield nothing, and iteration never panics.",
 ["inputs", "histories"], "all bases, all insertion sequences, all received bitmaps and bit counts 0..256",
 "Tests insert a few values at small bases and iterate a locally built set once; a decoded set is only compared for equality, never iterated or extended.",
 ["src/common/ranged_bit_set.rs", "src/common/bit_set.rs", "src/structure/sequence_number_set.rs", "src/messages/fragment_number_set.rs"],
 [("window check relative to the base", "src/common/ranged_bit_set.rs"), ("length bookkeeping of the decoded bit vector", "src/common/bit_set.rs")], [], ["insert results", "iteration", "encoded bytes"])
prop("C13", "Sequence and fragment numbers behave as exact 64- and 32-bit integers",
 "Checked addition, subtraction, multiplication and division on sequence numbers (signed 64 bit) and fragment numbers (unsigned 32 bit) give the exact result or nothing when it does not fit or the divisor is zero; plain arithmetic agrees with it whenever the result fits. Conversions are lossless, comparison is numeric, and the first number of each kind is one.",
 ["inputs"], "all pairs of values, especially at the ends of the range and across the 32-bit boundary",
 "Only the default value, one conversion and three encodings are tested; no arithmetic or comparison is.",
 ["src/structure/sequence_number.rs", "src/messages/fragment_number.rs", "src/checked_impl.rs"], [("checked arithmetic delegation", "src/checked_impl.rs")], [], ["operation results"])
prop("C14", "Locators and socket addresses convert without loss or confusion",
 "Every IPv4 or IPv6 socket address that is not the unspecified address becomes a locator of the matching kind and converts back to the same IP and port; unspecified addresses become invalid-kind locators, and invalid or reserved locators become the unspecified address with port 0. The compact IPv4 locator denotes the same address and port as its full form, and no locator whose port exceeds 65535 turns into an address with a different, valid port.",
 ["inputs"], "all IPv4/IPv6 addresses and ports, all locators",
 "Tests convert one IPv4, one IPv6 and one invalid locator.",
 ["src/structure/locator.rs", "src/structure/locator_udp_v4.rs", "src/structure/locator_kind.rs"], [("address mapping by locator kind", "src/structure/locator.rs")], [], ["converted values"])
prop("C15", "Timestamps and system time convert faithfully, in order, and without panics",
 "A system time between the epoch and the last representable second becomes a timestamp that converts back to that time with an error below two nanoseconds, and the conversions never reverse the order of two times. Times that cannot be represented (before the epoch or beyond the seconds range) become the invalid timestamp; the invalid timestamp and negative ones are refused with an error when converted back, and no conversion panics.",
 ["inputs"], "all system times and all timestamp values",
 "Five constants inside the range are converted; out-of-range and negative values, ordering and round trips are not tested (the test of the invalid value ignores its own result).",
 ["src/structure/time.rs"], [("fraction scaling and range checks", "src/structure/time.rs")], [], ["converted values"])
prop("C16", "Durations convert faithfully and without panics",
 "A standard duration of at most the representable number of seconds converts to a protocol duration and back unchanged; longer ones become the infinite duration. No protocol duration, including negative and invalid ones, makes the conversion panic; negative durations become zero, and the conversion of standard durations preserves order.",
 ["inputs"], "all standard durations and all protocol durations",
 "One duration is converted in each direction.",
 ["src/structure/duration.rs"], [("range handling in the conversions", "src/structure/duration.rs")], [], ["converted values"])
prop("C17", "Parameters keep their value and the four-byte alignment of parameter lists",
 "Every parameter is written as its id, a length that is a multiple of four and equals the number of value bytes that follow, the value, and zero padding of at most three bytes; one too long for the length field is refused rather than written corruptly. Reading it back, for any value length including zero and the largest, gives the same id and padded value and leaves the reader at the next parameter, and no length field makes reading panic.",
 ["inputs"], "all parameter ids, values of every length 0..65535, both byte orders, sequences of parameters",
 "Tests use values of 4, 8 and 16 bytes only, so the padding path is never taken.",
 ["src/messages/submessage_elements/parameter.rs", "src/structure/parameter_id.rs"], [("padding computation", "src/messages/submessage_elements/parameter.rs")], [], ["encoded bytes", "re-read parameters"])
prop("C18", "The history cache contains exactly the changes added and not removed",
 "After any sequence of additions and removals, looking up a sequence number returns a stored change with that number, with unaltered contents, exactly when one was added and not removed since; removing a number affects no other. The reported minimum and maximum are the smallest and largest stored numbers, and there are none exactly when the cache is empty.",
 ["histories"], "all sequences of add, remove, get, min and max over all sequence numbers, in any order, with repeats",
 "Tests perform at most two additions and one removal in a fixed order and never look a change up.",
 ["src/structure/history_cache.rs", "src/structure/cache_change.rs"], [("linear scans over the stored changes", "src/structure/history_cache.rs")], [("changes", "stored cache changes", "src/structure/history_cache.rs")], ["results of get, min, max"], "the history cache is private; a wrapper is exposed under cfg rtps_verif")
prop("C19", "A reader proxy hands out every change once, in ascending order",
 "Whatever changes the writer's history holds at each step (in any order, growing or shrinking), the next unsent change is the one with the smallest sequence number above the highest handed out so far, and there is none exactly when no such change exists; the unsent changes are exactly those above that mark, in history order, and looking at them changes nothing. So to each matched reader sequence numbers go out strictly ascending, never twice, and none present is skipped, independently of other readers.",
 ["histories"], "all interleavings of history growth, removal and next/unsent queries over several proxies",
 "Tests drain one three-element history once and add a handful of changes once.",
 ["src/behavior/reader_proxy.rs"], [("highest number handed out so far", "src/behavior/reader_proxy.rs")], [("highest handed-out sequence number", "per matched reader, only grows", "src/behavior/reader_proxy.rs")], ["sequence of changes returned"])
prop("C20", "A writer numbers its changes consecutively under its own identity",
 "Each new change of a stateless writer has the sequence number of the previous one plus one, starting after the configured last number, whatever the kinds, instances and other operations in between, and the writer reports the latest number. The change carries the writer's own GUID and the caller's kind, data and instance unchanged, and the writer's configuration stays as given.",
 ["histories"], "all sequences of new changes with all kinds and handles, any starting number, several writers interleaved",
 "The writer has no tests at all.",
 ["src/behavior/stateless_writer.rs", "src/behavior/writer.rs"], [("last change sequence number", "src/behavior/stateless_writer.rs")], [("last change sequence number", "grows by one per change", "src/behavior/writer.rs")], ["returned changes", "reported attributes"], "the stateless writer is private; a wrapper is exposed under cfg rtps_verif")
prop("C21", "Writers' books of matched readers and locators match the calls made",
 "Looking up a matched reader in a stateful writer finds exactly the proxies added with that GUID, in the order they were added, with their state intact. A stateless writer's locator list holds exactly the locators added and not since removed, in order; removing one takes out all equal entries and no others.",
 ["histories"], "all sequences of add, remove and lookup with repeated and near-equal GUIDs and locators",
 "Neither bookkeeping has any test (the constructors needed for one are not implemented).",
 ["src/behavior/stateful_writer.rs", "src/behavior/stateless_writer.rs", "src/behavior/reader_locator.rs"], [("filter by GUID", "src/behavior/stateful_writer.rs"), ("retain unequal locators", "src/behavior/stateless_writer.rs")], [], ["lookup results", "locator list"], "constructors and list access under cfg rtps_verif_endpoints")
prop("C22", "Receivers and writers are independent of each other and of threads",
 "Any number of receivers, writers and caches working at the same time, interleaved on one thread or in parallel on many, behave exactly as each would alone: no input handled by one influences what another delivers, stores or numbers, and there is no data race between them.",
 ["schedules", "histories"], "all interleavings of several independent instances, on one or several threads",
 "The tests never run two instances in one test; shared hidden state would go unnoticed.",
 [RX, "src/behavior", "src/structure/history_cache.rs"], [("all state is owned by the instance", RX)], [], ["per-instance outputs, compared with a solo run", "ThreadSanitizer reports"], "read access to the receiver context (cfg rtps_verif)")
prop("C23", "Messages laid out by an independent RTPS 2.3 peer are understood as meant",
 "Messages and elements laid out byte by byte as the RTPS 2.3 specification prescribes (number-set bitmaps, INFO_SRC, INFO_REPLY, INFO_REPLY_IP4, timestamps, durations, entity ids, locators, well-known constants) are understood with the meaning the specification gives them, and values encoded here mean the same to such a peer. Messages of a peer with a later minor version, whose submessages have further flags and contents, are understood as far as they are known.",
 ["inputs"], "all values of the specified elements and submessages, both byte orders",
 "Apart from one captured AckNack, all tests compare the implementation with itself or with constants derived from it.",
 [RX, "src/common/bit_set.rs", "src/messages/info_source.rs", "src/structure/duration.rs", "src/structure/locator.rs", "src/structure/entity_id.rs"], [("wire layouts", "src/messages/*.rs, src/structure/*.rs")], [], ["decoded meaning against an independent specification-level codec"], "read access to the receiver context (cfg rtps_verif)")
prop("C24", "Submessage flags are independent bits and only bit 0 selects the byte order",
 "Setting or clearing flag bits changes exactly the named bits and testing reports whether any of the named bits is set, for all flag bytes and masks. The byte order of a submessage, its length field included, is little endian exactly when bit 0 of its own flags is set, regardless of other flags, of the kind, of its neighbours and of the byte order the caller encodes with.",
 ["inputs"], "all 256 flag bytes and masks, all submessage ids and all lengths, mixed byte orders within one message",
 "Single-bit masks on two flag bytes are tested, and the length field for four headers.",
 ["src/messages/submessage_flag.rs", "src/messages/submessage_header.rs", RX], [("endianness flag", "src/messages/submessage_flag.rs"), ("length in flag order", "src/messages/submessage_header.rs")], [], ["flag values", "encoded and decoded headers"])
prop("C25", "From writer through history to readers and wire, no change is lost or repeated",
 "When changes created by a writer are kept in its history and offered to any number of matched readers that are served at different speeds and join at different times, each reader is handed exactly the changes in the history, once each and in numbering order, with unchanged contents; changes removed before being served are the only ones missed. Announcing the history's first and last number (Heartbeat), requesting missing ones (AckNack) and declaring irrelevant ones (Gap) over the wire conveys exactly those numbers to the other side. The same holds for the fragments of a change: announcing the last one (HeartbeatFrag) and requesting missing ones (NackFrag) conveys exactly those, until none is missing.",
 ["histories", "schedules"], "all interleavings of creating, removing, serving, joining and acknowledging with several readers",
 "No test combines writer, history, proxy, number sets and the wire format.",
 ["src/behavior/stateless_writer.rs", "src/behavior/reader_proxy.rs", "src/structure/history_cache.rs", RX, "src/common/ranged_bit_set.rs"], [("numbering, per-reader mark, set encoding", "src/behavior, src/common")], [], ["changes handed to each reader", "numbers conveyed"], "wrappers under cfg rtps_verif")
prop("C26", "Times, versions, numbers and identifiers compare by what they mean",
 "Wherever values of a type can be compared, the comparison is a total order that all operators (==, <, <=, >, >=, maximum, minimum, sorting, keys of maps) agree on; equal means equal in every part, copies are equal, and equal values hash alike. Timestamps and durations are ordered by seconds, then fraction; protocol versions by major, then minor number; counts, sequence and fragment numbers numerically; entity ids, prefixes and instance handles byte by byte, and GUIDs by prefix, then entity id.",
 ["inputs"], "all pairs and chains of values of every comparable type",
 "Hardly any test compares two different values; an order that ignores or misplaces one part passes all of them.",
 ["src/structure", "src/messages/protocol_version.rs", "src/messages/fragment_number.rs"], [("derived comparisons", "src/structure/*.rs, src/messages/*.rs")], [], ["results of comparing, hashing and sorting"])
prop("C27", "The end of a byte stream is told from its breaking off",
 "When a byte stream ends (decode_eof, or tokio's framed reader at the end of its input), every complete submessage in it is still handled as usual; then the end is reported without error exactly if the stream ended between submessages (or was empty), and as an error, with no item, if it broke off within a header or submessage. Reporting the end consumes nothing and leaves the context as the complete submessages left it, also when asked again.",
 ["inputs", "crash_points", "schedules"], "every stream of submessages that declare their lengths, cut at every byte, in every chunking",
 "No test ends a stream; a truncated message that is taken for a complete one, or completed with nothing, passes all of them.",
 [RX], [("Decoder implementation, with the trait's default decode_eof", RX)], [], ["results of decode_eof, outcomes of FramedRead, context"])
prop("C28", "Failing streams and short buffers are reported, never papered over",
 "Writing any value to a stream that fails or takes nothing more after any number of bytes, or to a buffer shorter than its encoding, is an error, and what a stream received until then is a beginning of the encoding; reading from a stream that fails or ends before the value is complete is an error, never a value. Interruptions that the standard library retries do not show. A larger buffer keeps the bytes behind the encoding, and values written to or read (unbuffered) from one stream follow each other without gap.",
 ["fault_sequences", "inputs"], "every value of every wire type, and every position at which its stream fails or its buffer ends",
 "All tests use vectors and slices of exactly the right size; no test has a stream that fails.",
 ["src/common/bit_set.rs", "src/messages", "src/structure"], [("read_from and write_to of every type", "src/**/*.rs")], [], ["results of reading and writing, bytes that streams received or kept"])
prop("C29", "No input makes an operation take more than proportional effort",
 "The work done by a call of decode is at most proportional to the bytes it uses up, however much is waiting in the buffer, however little of a submessage has arrived yet, and whatever was received before; in particular, waiting for the rest of a large submessage does not go over what is there again and again. Reading, writing and comparing any wire value takes work proportional to its bytes, whatever counts they claim; inserting into a number set, each step of iterating one, arithmetic, comparisons and conversions of times, durations, numbers and locators, and creating a change take work bounded by a constant, whatever their operands; operations on a history and on a reader proxy take work at most proportional to the changes in it.",
 ["inputs", "histories"], "every byte stream and every way it arrives, every value, every pair of operands, every history and how far readers have got",
 "Tests never look at the work done, and their inputs are a few dozen bytes, on which quadratic and linear work cannot be told apart.",
 ["src/messages/receiver.rs", "src/common", "src/structure", "src/behavior"], [("MessageReceiver::decode", "src/messages/receiver.rs"), ("RangedBitSet", "src/common/ranged_bit_set.rs"), ("HistoryCache", "src/structure/history_cache.rs"), ("ReaderProxy", "src/behavior/reader_proxy.rs"), ("conversions", "src/structure/time.rs, duration.rs, locator.rs")], [], ["branches taken, bytes copied and bytes allocated during each operation"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
