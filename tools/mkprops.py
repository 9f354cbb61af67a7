#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the prose is easy to edit)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
RD = "src/rdata/"
p("C01", "No delivered bytes can crash a node",
  "Whatever bytes arrive (random, truncated, bit-flipped, spliced from other messages, replayed or forged, as one datagram or as a damaged file), decoding them as a message, question, record or name either yields a value or returns an error. Every later use of a yielded value - reading all its fields, printing it, cloning, comparing, plain and compressed re-encoding, checking a received signature with a received key - also completes without a panic, abort or undefined behaviour. Text that is handed out is always valid UTF-8. An error that is returned can be printed, and the chain of causes it names comes to an end.",
  ["inputs", "fault_sequences", "histories"], "every byte string, every kind and combination of transport or storage damage, every order of uses of the decoded value, both build flavours",
  "The tests decode about a dozen well-formed samples; none delivers damaged or hostile bytes, and none exercises a decoded value after damage.",
  ["src/buffer.rs", "src/packet.rs", "src/header.rs", "src/fqdn.rs", "src/resource.rs", "src/error.rs", RD + "*.rs"],
  [("bounds-checked cursor", "src/buffer.rs"), ("name and pointer resolution", "src/buffer.rs extract_fqdn"), ("per-type decoding inside the declared length", "src/resource.rs, src/rdata/mod.rs")],
  [("cursor position", "index into the received bytes", "src/buffer.rs")], ["result of decoding", "accessors, Display/Debug, encoders of the decoded value"])
p("C02", "Decoding terminates within memory and work bounded by message size",
  "Decoding any n-byte input terminates, and the heap memory it holds at any moment is at most a fixed multiple of n plus a small constant (4096 n + 64 KiB), whatever counts, lengths or compression pointers the input declares. Compression pointers that loop or point forward are refused, and no decoded name exceeds 255 bytes on the wire. The processor time is bounded as well: no input of at most 64 KiB keeps a node busy for seconds.",
  ["inputs", "fault_sequences"], "every byte string up to 64 KiB, in particular looping, chained and fan-in compression pointers and lying counts",
  "Termination and peak memory are never measured by the tests, which contain no pointer loop, no forward pointer and no lying count.",
  ["src/buffer.rs", "src/packet.rs", RD + "svcb.rs", RD + "hip.rs", RD + "opt.rs", RD + "apl.rs"],
  [("pointers must point strictly backwards", "src/buffer.rs extract_fqdn"), ("section vectors sized from counts", "src/packet.rs")],
  [("declared counts", "four 16-bit section counts supplied by the peer", "src/header.rs")], ["allocator meter", "CPU watchdog"])
p("C03", "An undamaged message keeps its content over every route",
  "When a message built through the API, or by another standards-conforming implementation, travels undamaged over any route of nodes that decode, edit documented fields and re-encode it, store it and reload it after a crash, or retransmit it, the final receiver reads exactly the content the sender put in: header id and flags, questions, and every record's name, type, class, time-to-live and typed data, in order. Encoding is the standard wire format, so independent implementations read the same content. Once message loss stops, a client that retransmits gets the right answer within a bounded number of steps.",
  ["inputs", "histories", "fault_sequences", "schedules"], "every supported record type and field value the API can hold, every mix of plain and compressed hops, library and foreign nodes, loss, duplication, reordering, delay, partitions, crashes with torn store writes",
  "Tests round-trip a few fixed samples through one hop; several record types have no test, and none involves a foreign implementation, a relay, a store or a schedule.",
  ["src/packet.rs", "src/question.rs", "src/resource.rs", "src/fqdn.rs", "src/header.rs", RD + "*.rs"],
  [("plain encoding with declared lengths", "src/resource.rs to_bytes"), ("decoders", "src/packet.rs, src/rdata/mod.rs"), ("type and class tables", "src/resource.rs, src/question.rs")],
  [("record data length", "declared length of a record's data", "src/resource.rs")], ["typed accessors at the receiver", "reference decoder on the wire bytes"])
p("C04", "Compression never changes what the receiver reads",
  "For every message, its compressed encoding is read by this library and by any standards-conforming decoder as exactly the same content as its plain encoding, also when the message is larger than compression pointers can address and when relays mix both encodings. Every emitted pointer refers to an earlier, addressable name in the same message. The compressed form is never longer than the plain form.",
  ["inputs", "histories", "configurations"], "every message up to 64 KiB, any sharing of name suffixes between owner names and names inside record data, any hop history",
  "Tests compress three small packets; none crosses the 16 KiB pointer limit, nests names in every type, or checks the pointers with an independent decoder.",
  ["src/packet.rs", "src/fqdn.rs", "src/resource.rs", "src/question.rs", "src/util.rs", RD + "mod.rs"],
  [("suffix table from name hash to offset", "src/fqdn.rs to_bytes_compressed"), ("offset bookkeeping per record", "src/resource.rs to_bytes_compressed")],
  [("names", "suffix hash to message offset", "src/packet.rs")], ["wire bytes", "typed accessors after decoding"])
p("C05", "Cut or overlong input is noticed and message boundaries are exact",
  "A message that is cut short at any point - lost tail, partial stream segment, torn write - is refused, never returned as a shorter message; likewise a record whose declared data length cuts its mandatory fields short is refused, and no record ever takes in bytes beyond its declared length. Bytes that follow a complete message never influence the result, and decoding from a shared cursor leaves it exactly at the end of the message so that the next one can be read.",
  ["inputs", "crash_points", "fault_sequences"], "every cut point of every message, every trailing content, every segmentation of a stream of messages, every shortened or lengthened data length",
  "Tests only decode complete samples; no test cuts, concatenates or re-frames one.",
  ["src/packet.rs", "src/resource.rs", "src/buffer.rs", RD + "*.rs"],
  [("per-record window over the buffer", "src/resource.rs TryFrom, src/buffer.rs sub_buffer"), ("advance past the declared length", "src/resource.rs")],
  [("cursor position", "end of what was consumed", "src/buffer.rs")], ["decode result and cursor position"])
p("C06", "Any editing history leaves the message its API calls describe",
  "After any sequence of building and editing operations on a message - adding, replacing, taking or mutating questions and records in any section, header and flag changes, cloning, and decoding in between - the accessors, the plain encoding and the compressed encoding all describe exactly the sections and header that a plain list model of the calls predicts. In particular the section counts on the wire always equal the number of entries present, in both encodings.",
  ["histories"], "every sequence of public editing calls from every starting point (new query, new reply, with questions, decoded message)",
  "Tests build each packet with one fixed call sequence and never take, replace or mutate a section before encoding.",
  ["src/packet.rs", "src/header.rs", "src/question.rs", "src/resource.rs", "src/fqdn.rs"],
  [("counts maintained by add/set/take", "src/packet.rs"), ("counts rewritten when encoding", "src/packet.rs to_bytes"), ("flag coupling", "src/header.rs")],
  [("section counts", "four counts kept in the header beside the lists", "src/header.rs, src/packet.rs")], ["accessors", "reference decoder on both encodings"])
p("C07", "Equal messages have one encoding in every process",
  "Two messages with equal content encode to identical bytes, plain and compressed, no matter in which order unordered parts (options, parameters, type sets) were inserted, which process, thread or hash-map seed produced them, and how often they were decoded and re-encoded on the way. Decoding that encoding gives a message equal to the original one, and messages with different encodings never compare equal.",
  ["inputs", "histories", "configurations"], "every message, insertion order, source of randomness and number of re-encodings",
  "A test runs in one process with one hash seed and compares against one sample; hash iteration order differs per process.",
  [RD + "opt.rs", RD + "svcb.rs", RD + "csync.rs", RD + "dnssec.rs", "src/packet.rs", "src/fqdn.rs", "src/util.rs"],
  [("ordered sets for parameters and types", RD + "svcb.rs, csync.rs, dnssec.rs"), ("option map", RD + "opt.rs")],
  [("hash seed", "per-process random keys of hash maps", "std")], ["bytes from both encoders under different entropy"])
p("C08", "Concurrent and repeated calls do not influence each other",
  "The result of decoding, encoding, printing, editing, signing or verifying depends only on its arguments: with several threads using the library at once, under every interleaving, and after any earlier calls including failed ones, each call returns what it returns alone in a fresh process (given the same random bytes; the order in which a debug print lists unordered options is not part of the result). No call can block another one for good or leave state behind that changes what a later call returns.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of calls on several threads, preempted at any allocation or lock, and every order of earlier calls, successful or failed",
  "Every test makes its calls on one thread, once, from a fresh state.",
  ["src/packet.rs", "src/fqdn.rs", "src/buffer.rs", "src/util.rs", "src/resource_record_set.rs", RD + "dnssec.rs"],
  [("no shared mutable state; per-call suffix table", "src/packet.rs to_bytes_compressed"), ("borrowed buffers", "src/buffer.rs")],
  [], ["results of each call compared with a solitary run"])
p("C09", "Genuine signatures verify wherever the records have travelled",
  "A signature made over a record set verifies with the signer's public key at every receiver, after the key, the signature and the records travelled in messages through any relays and encodings that leave the records themselves (time-to-live included) unchanged, in whatever order the records arrive. This holds for every signing algorithm the library offers (RSA/MD5, RSA/SHA-1, RSA/SHA-256, RSA/SHA-512, DSA/SHA-1, ECDSA P-256 and P-384, Ed25519, Ed448), every key of that algorithm and every record type.",
  ["inputs", "histories", "configurations", "fault_sequences"], "every algorithm, key, record set, arrival order, number of hops, loss and duplication pattern, and random number stream",
  "Tests sign and verify one fixed record set in place for some algorithms; RSA/SHA-256, RSA/SHA-512 and DSA are never verified, and nothing crosses a wire.",
  [RD + "dnssec.rs", "src/resource_record_set.rs", "src/resource.rs"],
  [("signing", RD + "dnssec.rs sign_data"), ("verification", RD + "dnssec.rs verify"), ("canonical order of the set", "src/resource_record_set.rs to_bytes")],
  [], ["verification result at each receiver"])
p("C10", "Tampered records, signatures or keys never verify",
  "If anything the signature covers is changed on the way - owner name, type, class or time-to-live of the set, any record's data, adding, removing or swapping records, any field of the signature record or the signature itself, or the public key - verification does not succeed: it reports false or an error. A signature never verifies with a key it was not made with. (Keys so degenerate that anyone can sign for them, and other spellings of the same number or name, are not alterations in this sense.)",
  ["inputs", "fault_sequences", "histories"], "every single or combined alteration by an attacker on any hop, for every algorithm and record set",
  "The tests verify only untouched data; no test expects a verification to fail.",
  [RD + "dnssec.rs", "src/resource_record_set.rs"],
  [("signed data covers the signature record's fields and the whole set", RD + "dnssec.rs verify, src/resource_record_set.rs to_bytes"), ("algorithm match", RD + "dnssec.rs verify")],
  [], ["verification result at the validator"])
p("C11", "Signing without randomness fails cleanly or signs correctly",
  "When the operating system's random number source fails, is interrupted or returns short reads at any moment of a signing operation, the operation either returns an error or a signature that verifies. It never panics, never returns an unusable signature, and a later attempt with the source restored succeeds. An algorithm the library cannot sign with is refused with an error.",
  ["fault_sequences", "inputs"], "every failure point and kind of the random source during signing, every algorithm and key, also malformed private keys",
  "A test cannot make the system's random source fail, so it never sees the error paths of signing.",
  [RD + "dnssec.rs"], [("error mapping of the signing backends", RD + "dnssec.rs sign_data")], [], ["result of signing under injected failures"])
p("C12", "A signature carries the signer's validity window in seconds",
  "The inception and expiration a signature record carries are exactly the signer's given times as seconds since 1970 modulo 2^32, whatever the signer's clock reads, including skewed, jumped and pre-2106 or post-2106 clocks. A time before 1970 is refused with an error and no signature. Key tag, labels, original time-to-live, algorithm, covered type and signer's name match the key and record set that were signed, and survive transport.",
  ["inputs", "histories", "fault_sequences"], "every clock reading, skew and jump at the signer, every key and record set",
  "Tests sign at the current time and never look at the window on the wire.",
  [RD + "dnssec.rs"], [("time conversion", RD + "dnssec.rs from_dnskey"), ("key tag", RD + "dnssec.rs compute_key_tag")], [("clock", "time given by the caller", "caller")], ["signature record on the wire, read by the reference decoder"])
p("C13", "Multicast-DNS and plain builds read each other's messages",
  "Nodes built with and without multicast-DNS support agree on every message they exchange, apart from the one top bit of the class field: a plain build reads a question that asks for a unicast response, or a record that asks for a cache flush, as the same question or record of the ordinary class, and a multicast build reports these bits exactly as sent, sets them only when asked, and keeps them through relays. For EDNS records the whole class field is the payload size in both builds.",
  ["configurations", "inputs", "histories"], "every mix of build flavours on a route, every class and both settings of the bit on every entry, plain and compressed",
  "A test binary is compiled with one feature set, so the two builds never meet in a test.",
  ["src/question.rs", "src/resource.rs"], [("top bit of the class", "src/question.rs, src/resource.rs")], [], ["accessors at nodes of both builds", "wire bytes"])
p("C14", "The read cursor agrees with a byte-array model over any history",
  "Over any sequence of reads, peeks, skips, repositionings and windows - including failing ones, absurd lengths and retries after more bytes arrived - every successful operation returns exactly the bytes (or big-endian number, string, or name) at the current position and moves the position by exactly what it consumed. A failing operation returns an error without panicking, a failing fixed-size read, skip, peek, window or repositioning leaves the position unchanged, and the position never leaves the buffer. An operation fails only if the bytes it needs are missing or invalid. Windows never expose bytes beyond their end. (A typed read whose bytes were read but whose value the target type refuses may have consumed them.)",
  ["histories", "inputs", "fault_sequences"], "every operation sequence on every buffer, any length argument up to the largest integer",
  "One test checks one slice range; histories with failures and extreme arguments are unexplored.",
  ["src/buffer.rs"], [("bounds checks", "src/buffer.rs")], [("position", "cursor index", "src/buffer.rs")], ["returned values, position, remaining"])
p("C15", "Delegation digests and key tags identify exactly one key",
  "A delegation record computed from a key carries the standard key tag and digest of the owner name as given and the key data, equals what an independent implementation computes, and still matches after parent and child records travelled over different routes, for every digest type. After a key rollover, or if any bit of the key or owner name differs, the recomputed digest does not match, and the key tag in a signature record equals the one in the delegation record for the same key.",
  ["inputs", "histories", "fault_sequences"], "every key, flag setting, algorithm, owner name, digest type, rollover and arrival order",
  "One test computes one SHA-1 and one SHA-256 digest for a fixed key; transport, rollover and other digests are not covered.",
  [RD + "dnssec.rs"], [("digest input and key tag", RD + "dnssec.rs try_from_dnskey, compute_key_tag")], [], ["delegation records at the validator compared with an independent computation"])
p("C16", "The codec touches nothing but its arguments",
  "Encoding, decoding, printing to a string, signing and verifying write nothing to standard output, standard error or any file and open none, and they consult neither the clock nor the environment, the file system or the network: apart from memory and randomness they ask nothing of the operating system, and they leave process-wide settings (environment variables, the panic hook) alone. Hence their results are the same, without panic or delay, when the standard streams are closed, full or failing, whatever the clock reads and whatever the environment holds.",
  ["fault_sequences", "inputs", "histories"], "every operation and message, with every write to the process's streams failing in every way",
  "A test harness captures standard output, so stray output goes unnoticed, and no test runs with a failing stream.",
  ["src/packet.rs", RD + "*.rs"], [("pure functions of their arguments", "src/")], [], ["system-call seam under every library call"])
# Not claimed (see MANIFEST.json not_applicable)
p("N01", "Announced size equals encoded length",
  "For every value of every public type the announced byte size equals the length of its plain encoding.",
  ["inputs"], "every value", "Checked for few values only.", ["src/byteconvertible.rs", "src/**/*.rs"], [("byte_size", "src/**/*.rs")])
p("N02", "Name text, ordering and predicates agree with the labels",
  "Parsing a dotted name and printing it again, comparing names, and asking whether a name is the root, link-local or empty always agree with its sequence of labels.",
  ["inputs"], "every name", "A handful of names are tested.", ["src/fqdn.rs"], [("FQDN", "src/fqdn.rs")])
p("N03", "DHCID digest is SHA-256 over identifier and name",
  "A DHCID built from an identifier and a name carries the SHA-256 digest of exactly these bytes.",
  ["inputs"], "every identifier and name", "One vector is tested.", [RD + "dhcid.rs"], [("Dhcid::new", RD + "dhcid.rs")])
open("/verif/properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in P))
