use crate::engine::Prop;
use crate::*;

const REAL: &str = "maybe-dns, compiled from /repo twice: with features mdns+dnssec and without features";

pub const ALL: &[Prop] = &[
    Prop {
        id: "C01",
        run: w_attack::c01,
        quick: 400_000,
        thorough: 20_000_000,
        cpu_s: 20,
        rule: "A run is a sequence of up to three hostile or damaged datagrams that travel through nodes of both builds; every accepted message is read, printed, copied, compared, verified, re-encoded, possibly damaged again and passed on. Non-trivial: at least one datagram reached a decoder.",
        real: REAL,
        stub: "network, disk, attacker (reference encoder with forged fields), heap placement",
        probes: None,
    },
    Prop {
        id: "C02",
        run: w_attack::c02,
        quick: 180_000,
        thorough: 20_000_000,
        cpu_s: 20,
        rule: "A run delivers up to three datagrams (amplification messages, forged and damaged ones, up to 64 KiB) to both builds under a memory limit. Non-trivial: at least one datagram reached a decoder.",
        real: REAL,
        stub: "network, attacker, heap (accounted and limited by the simulator)",
        probes: None,
    },
    Prop {
        id: "C03",
        run: w_route::c03,
        quick: 100_000,
        thorough: 20_000_000,
        cpu_s: 20,
        rule: "A run is one resolver network (client, 0-3 relays with stores, authority; each a full build, a plain build or a foreign implementation) exchanging generated messages under loss, duplication, delay, partitions and crashes. Non-trivial: at least one message was decoded and compared.",
        real: REAL,
        stub: "network, disk, clock, foreign nodes (reference codec)",
        probes: Some(probes::c03),
    },
    Prop {
        id: "C04",
        run: w_route::c04,
        quick: 40_000,
        thorough: 20_000_000,
        cpu_s: 20,
        rule: "As C03 with compressed encodings and messages up to 60 KB. Non-trivial: at least one message was decoded and compared.",
        real: REAL,
        stub: "network, disk, clock, foreign nodes (reference codec)",
        probes: None,
    },
    Prop {
        id: "C13",
        run: w_route::c13,
        quick: 100_000,
        thorough: 20_000_000,
        cpu_s: 20,
        rule: "As C03 with both build flavours on the route and random top bits. Non-trivial: at least one message was decoded and compared.",
        real: REAL,
        stub: "network, disk, clock, foreign nodes (reference codec)",
        probes: None,
    },
    Prop {
        id: "C14",
        run: w_cursor::c14,
        quick: 3_000_000,
        thorough: 120_000_000,
        cpu_s: 20,
        rule: "A run is a history of up to 40 cursor operations (nested windows included, absurd lengths, failing operations) on bytes that arrive in segments. Non-trivial: at least one operation ran.",
        real: REAL,
        stub: "stream (segments arrive late), sender",
        probes: None,
    },
    Prop {
        id: "C05",
        run: w_stream::c05,
        quick: 1_000_000,
        thorough: 40_000_000,
        cpu_s: 20,
        rule: "A run cuts a message (at every byte when it is small), or reads messages from a segmented stream with a torn tail and restarting readers, or appends bytes, or changes declared lengths and counts. Non-trivial: at least one decoder call was judged.",
        real: REAL,
        stub: "stream and file (segments, torn tail), senders of foreign builds, reference decoder as judge of declared lengths",
        probes: None,
    },
    Prop {
        id: "C06",
        run: w_edit::c06,
        quick: 400_000,
        thorough: 20_000_000,
        cpu_s: 20,
        rule: "A run is a history of up to 40 editing calls, checkpoints and crash-reloads on one or two messages of either build. Non-trivial: at least one state was compared with the list model.",
        real: REAL,
        stub: "checkpoint store, list model, reference decoder",
        probes: None,
    },
    Prop {
        id: "C07",
        run: w_edit::c07,
        quick: 400_000,
        thorough: 20_000_000,
        cpu_s: 20,
        rule: "A run lets two to four processes (own thread, own entropy and hash seeds, own insertion orders and editing histories, either build) arrive at one content and compares bytes and equality. Non-trivial: at least one process encoded.",
        real: REAL,
        stub: "processes (threads with their own simulated entropy), foreign sender (reference encoder)",
        probes: None,
    },
    Prop {
        id: "C08",
        run: w_threads::c08,
        quick: 25_000,
        thorough: 1_200_000,
        cpu_s: 60,
        rule: "A run draws two to five calls that resemble each other (decode, edit, encode, print, sign, verify, digest, cursor; valid and failing), makes each alone in a fresh process, then all of them, repeatedly, on one to four threads of one process with drawn switch points. Non-trivial: the calls were made together and compared.",
        real: REAL,
        stub: "thread scheduler (allocations, lock waits and single instructions as switch points), random source",
        probes: None,
    },
    Prop {
        id: "C09",
        run: w_sign::c09,
        quick: 180_000,
        thorough: 20_000_000,
        cpu_s: 20,
        rule: "A run signs one record set (library or foreign signer, any of nine algorithms, key from a pool), sends set, signature and key in one to three messages over lossy routes of relays that reorder, store and re-encode, and checks the signature at every validator. Non-trivial: at least one validator checked the signature.",
        real: REAL,
        stub: "network, relays' stores, foreign signers, relays and validators (reference codec, RFC 4034 signed data and RSA/DSA arithmetic of the harness; ring and crrl for curves), entropy",
        probes: None,
    },
    Prop {
        id: "C10",
        run: w_sign::c10,
        quick: 100_000,
        thorough: 20_000_000,
        cpu_s: 20,
        rule: "A run signs a record set (library or foreign signer), confirms that it verifies, then an attacker alters set, signature or key in 4 to 15 ways (fields, combined fields, replayed parts, other keys, bits on the wire). Non-trivial: at least one effective alteration was judged by verify.",
        real: REAL,
        stub: "signer (half of the runs), attacker, network (reference codec)",
        probes: None,
    },
    Prop {
        id: "C11",
        run: w_sign::c11,
        quick: 100_000,
        thorough: 20_000_000,
        cpu_s: 20,
        rule: "A run signs up to four times while the random source fails, is interrupted or short at drawn calls, or with damaged private keys, and again after recovery. Non-trivial: at least one signing call was judged.",
        real: REAL,
        stub: "operating system's random source, reference validator",
        probes: None,
    },
    Prop {
        id: "C12",
        run: w_sign::c12,
        quick: 500_000,
        thorough: 20_000_000,
        cpu_s: 20,
        rule: "A run is a signer whose clock jumps and drifts and who signs up to four sets; the signature record is read by an independent decoder after transport. Non-trivial: at least one signing call was judged.",
        real: REAL,
        stub: "signer's clock, relays, reference decoder and key tag",
        probes: None,
    },
    Prop {
        id: "C15",
        run: w_sign::c15,
        quick: 300_000,
        thorough: 20_000_000,
        cpu_s: 20,
        rule: "A run is a child zone with up to three key generations (and near misses), a parent with delegation records of every digest type, and a validator that receives both over different routes in any order. Non-trivial: at least one delegation record was compared with the independent one.",
        real: REAL,
        stub: "network, relays, reference digest and key tag",
        probes: None,
    },
    Prop {
        id: "C16",
        run: w_quiet::c16,
        quick: 160_000,
        thorough: 20_000_000,
        cpu_s: 20,
        rule: "A run makes up to three calls (decode, edit, encode, print, sign, verify, digest, cursor) once in a healthy process and once with failing streams, another clock and another environment, or one run of another world (hostile messages, routes, streams, editing, signing, ...) in such a process; every system call, clock reading and look into the environment inside the library is counted. Non-trivial: at least one call was watched.",
        real: REAL,
        stub: "operating system (streams, files, clock, environment, every other system call), random source",
        probes: None,
    },
];
