//! Inputs of the listed findings, replayed on every check of C03 (see known_findings.txt).
use crate::engine::Probe;
use crate::{full, rt};

/// A response with one record of the root name, as any other implementation would send it.
fn message(t: u16, rdata: &[u8]) -> Vec<u8> {
    let mut m = vec![0, 7, 0x80, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0];
    m.extend_from_slice(&t.to_be_bytes());
    m.extend_from_slice(&[0, 1, 0, 0, 0, 60]);
    m.extend_from_slice(&(rdata.len() as u16).to_be_bytes());
    m.extend_from_slice(rdata);
    m
}
/// Does a relay fail to pass this record on as it came?
fn lost(t: u16, rdata: &[u8]) -> bool {
    let m = message(t, rdata);
    !matches!(rt::lib(|| full::decode(&m).map(|p| full::plain_bytes(&p))), Ok(Ok(b)) if b == m)
}

pub fn c03() -> Vec<Probe> {
    vec![
        Probe { key: "txt-binary", what: "a TXT string that is not UTF-8 (02 ff fe) is replaced by U+FFFD characters", present: lost(16, &[2, 0xff, 0xfe]) },
        Probe { key: "naptr-flags", what: "a NAPTR flag other than S, A, U, P (here T) is dropped", present: lost(35, &[0, 1, 0, 1, 1, b'T', 0, 0, 0]) },
        Probe { key: "caa-flags", what: "CAA flag bits other than issuer-critical (here 01) are dropped", present: lost(257, b"\x01\x05issuex") },
        Probe { key: "apl-items", what: "all but the first item of an APL record are dropped", present: lost(42, &[0, 1, 8, 4, 10, 0, 0, 0, 0, 1, 8, 4, 11, 0, 0, 0]) },
        Probe { key: "svcb-hints", what: "an SVCB address hint with more than one address is refused", present: lost(64, &[0, 1, 0, 0, 4, 0, 8, 10, 0, 0, 1, 10, 0, 0, 2]) },
        Probe { key: "bitmap-types", what: "an NSEC record that lists a type the library does not know (here RP, 17) is refused", present: lost(47, &[0, 0, 3, 0, 0, 0x40]) },
        Probe { key: "ipseckey-none", what: "an IPSECKEY record without gateway gains a byte when it is encoded again", present: lost(45, &[1, 0, 2, 0xaa, 0xbb]) },
    ]
}
