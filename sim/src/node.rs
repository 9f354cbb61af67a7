// Adapter between the content model and one build of the library. Included twice, with `dns`
// naming the crate and `FULL` telling the flavour; `full!` keeps code that needs the features.
use super::model::{self, F, Msg, Name, Q, Rr};
use dns::rdata as rd;
use dns::{ByteConvertible, DnsBuffer, FQDN, QClass, QType, Question, RData, RecordClass, RecordData, RecordType, ResourceRecord};
use std::collections::{BTreeMap, BTreeSet};
use std::convert::TryFrom;
use std::net::{Ipv4Addr, Ipv6Addr};

pub use dns::{Header, OpCode, Packet, ResponseCode};

/// The interface offers several ways to say the same; the content decides which one is used.
fn way<'a>(b: impl IntoIterator<Item = &'a u8>, n: u32) -> u32 {
    b.into_iter().fold(7u32, |h, x| (h ^ *x as u32).wrapping_mul(0x0100_0193)) % 65521 % n
}
pub fn fqdn(n: &Name) -> FQDN {
    let w = way(n.iter().flatten(), 8);
    let texts = || n.iter().map(|l| std::str::from_utf8(l).ok()).collect::<Option<Vec<&str>>>();
    match w {
        0 => FQDN::from(&n[..]),
        1..=2 => match texts() {
            Some(t) if w == 1 => FQDN::from(&t[..]),
            Some(t) => {
                let mut f = FQDN::default();
                t.iter().for_each(|l| f.append_label(l));
                f
            }
            None => FQDN::from(n.clone()),
        },
        3..=5 => match texts() {
            Some(t) if t.iter().all(|l| !l.is_empty() && !l.contains('.')) => {
                let t = t.join(".");
                match w {
                    3 => FQDN::new(&t),
                    4 => FQDN::from(t.as_str()),
                    _ => FQDN::new(&format!("{t}.")),
                }
            }
            _ => FQDN::from(n.clone()),
        },
        _ => FQDN::from(n.clone()),
    }
}
pub fn name_of(f: &FQDN) -> Name {
    match f.iter().count() % 4 {
        1 => f.clone().into_iter().collect(),
        2 => f.into_iter().cloned().collect(),
        3 => (&mut f.clone()).into_iter().map(|l| l.clone()).collect(),
        _ => f.iter().cloned().collect(),
    }
}
fn ip4(b: &[u8]) -> Ipv4Addr {
    Ipv4Addr::new(b[0], b[1], b[2], b[3])
}
fn ip6(b: &[u8]) -> Ipv6Addr {
    let mut a = [0u8; 16];
    a.copy_from_slice(b);
    Ipv6Addr::from(a)
}
fn n(f: &F) -> u64 {
    if let F::N(x) = f { *x } else { panic!("number") }
}
fn b(f: &F) -> Vec<u8> {
    if let F::B(x) = f { x.clone() } else { panic!("bytes") }
}
fn nm(f: &F) -> FQDN {
    if let F::Name(x) = f { fqdn(x) } else { panic!("name") }
}
fn set(f: &F) -> BTreeSet<RecordType> {
    let F::Set(x) = f else { panic!("set") };
    let mut v: Vec<_> = x.iter().map(|t| RecordType::try_from(*t).expect("type in set")).collect();
    super::rt::permute(&mut v);
    v.into_iter().collect()
}
fn text(f: &F) -> String {
    String::from_utf8(b(f)).expect("text")
}

/// Builds typed record data through the public constructors where they exist.
pub fn rdata(t: u16, f: &[F]) -> RecordData {
    let done = |x: RecordData, rt: RecordType| {
        assert_eq!(u16::from(rt), t, "declared record type");
        x
    };
    macro_rules! mk {
        ($e:expr) => {{
            let v = $e;
            let rt = v.record_type();
            done(v.into_record_data(), rt)
        }};
    }
    match t {
        1 => {
            let a = ip4(&b(&f[0]));
            mk!(match way(&b(&f[0]), 5) {
                0 => rd::A::from(u32::from(a)),
                1 => rd::A::from(a),
                2 => rd::A::try_from(a.to_string().as_str()).expect("address"),
                3 => {
                    let mut x = rd::A::new(ip4(&[1, 2, 3, 4]));
                    *x.inner_mut() = a;
                    x
                }
                _ => rd::A::new(a),
            })
        }
        2 => mk!(rd::Ns::new(nm(&f[0]))),
        5 => mk!(rd::Cname::new(nm(&f[0]))),
        6 => mk!(rd::Soa::new(nm(&f[0]), nm(&f[1]), n(&f[2]) as u32, n(&f[3]) as u32, n(&f[4]) as u32, n(&f[5]) as u32, n(&f[6]) as u32)),
        10 => mk!(rd::Null::new(b(&f[0]))),
        11 => mk!(rd::Wks::new(ip4(&b(&f[0])), n(&f[1]) as u8, b(&f[2]))),
        12 => {
            let name = nm(&f[0]);
            if name.len() % 3 == 0 {
                let mut p = rd::Ptr::new(FQDN::new("other.name"));
                *p.inner_mut() = name;
                mk!(p)
            } else {
                mk!(rd::Ptr::new(name))
            }
        }
        13 => mk!(rd::Hinfo::new(b(&f[0]), b(&f[1]))),
        14 => mk!(rd::Minfo::new(nm(&f[0]), nm(&f[1]))),
        15 => mk!(rd::Mx::new(n(&f[0]) as u16, nm(&f[1]))),
        16 => {
            let F::List(l) = &f[0] else { panic!() };
            mk!(rd::Txt::new(l.iter().map(|s| String::from_utf8(s.clone()).unwrap()).collect()))
        }
        28 => {
            let a = ip6(&b(&f[0]));
            mk!(match way(&b(&f[0]), 5) {
                0 => rd::Aaaa::from(u128::from(a)),
                1 => rd::Aaaa::from(a),
                2 => rd::Aaaa::try_from(a.to_string().as_str()).expect("address"),
                3 => {
                    let mut x = rd::Aaaa::new(ip6(&[7; 16]));
                    *x.inner_mut() = a;
                    x
                }
                _ => rd::Aaaa::new(a),
            })
        }
        29 => mk!(rd::Loc {
            version: n(&f[0]) as u8,
            size: n(&f[1]) as u8,
            horiz_pre: n(&f[2]) as u8,
            vert_pre: n(&f[3]) as u8,
            latitude: n(&f[4]) as u32,
            longitude: n(&f[5]) as u32,
            altitude: n(&f[6]) as u32
        }),
        33 => mk!(rd::Srv::new(n(&f[0]) as u16, n(&f[1]) as u16, n(&f[2]) as u16, nm(&f[3]))),
        35 => mk!(rd::Naptr::new(
            n(&f[0]) as u16,
            n(&f[1]) as u16,
            b(&f[2]).iter().map(|c| rd::naptr::Flag::try_from(*c).expect("flag")).collect(),
            b(&f[3]),
            text(&f[4]),
            nm(&f[5])
        )),
        41 => {
            let F::Map(m) = &f[0] else { panic!() };
            let mut o = rd::Opt::default();
            let mut order: Vec<_> = m.iter().collect();
            super::rt::permute(&mut order);
            for (k, v) in order {
                o.0.insert(*k, v.clone());
            }
            mk!(o)
        }
        44 => mk!(rd::Sshfp::new(dns::Algorithm::try_from(n(&f[0]) as u8).expect("alg"), rd::sshfp::FingerprintType::try_from(n(&f[1]) as u8).expect("fp"), b(&f[2]))),
        45 => mk!(rd::IpSecKey {
            precedence: n(&f[0]) as u8,
            algorithm: dns::Algorithm::try_from(n(&f[2]) as u8).expect("alg"),
            gateway: match n(&f[1]) {
                0 => rd::ipseckey::Gateway::None,
                1 => rd::ipseckey::Gateway::IpV4(ip4(&b(&f[3]))),
                2 => rd::ipseckey::Gateway::IpV6(ip6(&b(&f[3]))),
                _ => rd::ipseckey::Gateway::Domain(nm(&f[3])),
            },
            public_key: b(&f[4])
        }),
        52 => mk!(rd::Tlsa::new(
            rd::tlsa::CertUsage::try_from(n(&f[0]) as u8).expect("usage"),
            rd::tlsa::Selector::try_from(n(&f[1]) as u8).expect("selector"),
            rd::tlsa::MatchingType::try_from(n(&f[2]) as u8).expect("matching"),
            b(&f[3])
        )),
        49 => mk!(rd::Dhcid { identifier_code: rd::dhcid::IdentifierType::try_from(n(&f[0]) as u16).expect("code"), digest: b(&f[2]) }),
        55 => {
            let F::Names(ns) = &f[3] else { panic!() };
            mk!(rd::Hip {
                public_key_algorithm: dns::Algorithm::try_from(n(&f[0]) as u8).expect("alg"),
                hit: b(&f[1]),
                public_key: b(&f[2]),
                rendevous_server: if ns.is_empty() { None } else { Some(ns.iter().map(fqdn).collect()) }
            })
        }
        61 => mk!(rd::OpenPgpKey(b(&f[0]))),
        62 => {
            let fl = n(&f[1]);
            if n(&f[0]) % 2 == 0 {
                let mut c = rd::Csync::default();
                c.soa_serial = n(&f[0]) as u32;
                // switched on, off and on again
                for on in [true, fl & 4 != 0, fl & 1 != 0] {
                    c.flags.set_immediate(on);
                }
                for on in [fl & 1 != 0, fl & 2 == 0, fl & 2 != 0] {
                    c.flags.set_soa_minimum(on);
                }
                c.types = set(&f[2]);
                mk!(c)
            } else {
                mk!(rd::Csync::new(n(&f[0]) as u32, (fl as u16).try_into().expect("flags"), set(&f[2])))
            }
        }
        249 => mk!(rd::Tkey {
            algorithm: nm(&f[0]),
            inception: n(&f[1]) as u32,
            expiration: n(&f[2]) as u32,
            mode: rd::tkey::Mode::try_from(n(&f[3]) as u16).expect("mode"),
            error: rd::tkey::Error::try_from(n(&f[4]) as u16).expect("error"),
            key_data: b(&f[5]),
            other_data: b(&f[6])
        }),
        250 => mk!(rd::Tsig {
            algorithm: nm(&f[0]),
            time_signed: n(&f[1]),
            fudge: n(&f[2]) as u16,
            mac: b(&f[3]),
            original_id: n(&f[4]) as u16,
            error: rd::tsig::Error::try_from(n(&f[5]) as u16).expect("error"),
            other_data: b(&f[6])
        }),
        256 => mk!(rd::Uri::new(n(&f[0]) as u16, n(&f[1]) as u16, b(&f[2]))),
        257 => mk!(rd::Caa::new(n(&f[0]) != 0, text(&f[1]), b(&f[2]))),
        _ => {
            full! {
                match t {
                    43 => return mk!(rd::Ds::new(n(&f[0]) as u16, (n(&f[1]) as u8).try_into().expect("alg"), (n(&f[2]) as u8).try_into().expect("dt"), b(&f[3]))),
                    59 => return RecordData::CDS(rd::Ds::new(n(&f[0]) as u16, (n(&f[1]) as u8).try_into().expect("alg"), (n(&f[2]) as u8).try_into().expect("dt"), b(&f[3]))),
                    46 => return mk!(rd::Rrsig::new(
                        RecordType::try_from(n(&f[0]) as u16).expect("covered"), (n(&f[1]) as u8).try_into().expect("alg"), n(&f[2]) as u8,
                        n(&f[3]) as u32, n(&f[4]) as u32, n(&f[5]) as u32, n(&f[6]) as u16, nm(&f[7]), b(&f[8]))),
                    47 => {
                        let types = set(&f[1]);
                        if types.len() % 2 == 0 {
                            let mut x = rd::Nsec::new(nm(&f[0]));
                            x.types = types;
                            return mk!(x);
                        }
                        return mk!(rd::Nsec::with_types(nm(&f[0]), types));
                    }
                    48 | 60 if n(&f[1]) == 3 && n(&f[0]) & !0x101 == 0 => {
                        let mut k = rd::DnsKey::new((n(&f[2]) as u8).try_into().expect("alg"), b(&f[3]));
                        k.zone_key = n(&f[0]) & 0x100 != 0;
                        k.secure_entry_point = n(&f[0]) & 1 != 0;
                        if t == 60 { return RecordData::CDNSKEY(k); }
                        return mk!(k);
                    }
                    _ => (),
                }
            }
            // not constructible through the API: comes from decoding
            let wire = model::encode_rdata(t, f);
            let mut buf = DnsBuffer::from(wire.as_slice());
            if way(&wire, 2) == 0 {
                match t {
                    42 => {
                        let x = rd::Apl::try_from(&mut buf).expect("record data");
                        return mk!(rd::Apl::new(x.prefix, x.n, x.afd_part));
                    }
                    64 => return mk!(rd::Svcb::try_from(&mut buf).expect("record data")),
                    108 => return mk!(rd::Eui48::try_from(&mut buf).expect("record data")),
                    109 => return mk!(rd::Eui64::try_from(&mut buf).expect("record data")),
                    _ => (),
                }
            }
            RecordData::from(RecordType::try_from(t).expect("type"), &mut buf).expect("record data")
        }
    }
}

fn ok(t: u16, x: &RecordData) -> Vec<F> {
    model::decode_rdata(t, &x.to_bytes()).unwrap_or_else(|e| panic!("observed data of type {t} is not well-formed: {e}"))
}
fn names_n(f: &FQDN) -> F {
    F::Name(name_of(f))
}
fn nu(x: impl Into<u64>) -> F {
    F::N(x.into())
}
fn set_of(s: &BTreeSet<RecordType>) -> F {
    F::Set(s.iter().map(|t| u16::from(*t)).collect())
}

/// Reads typed record data through the public fields where they exist.
pub fn observe_rdata(x: &RecordData) -> (u16, Vec<F>) {
    match x {
        RecordData::A(a) => {
            assert_eq!((a.clone().into_inner(), u32::from(a.clone())), (*a.inner(), u32::from(*a.inner())), "address accessors disagree");
            (1, vec![F::B(a.inner().octets().to_vec())])
        }
        RecordData::NS(v) => (2, vec![names_n(&v.nsdname)]),
        RecordData::CNAME(v) => (5, vec![names_n(&v.cname)]),
        RecordData::SOA(v) => (6, vec![names_n(&v.mname), names_n(&v.rname), nu(v.serial), nu(v.refresh), nu(v.retry), nu(v.expire), nu(v.minimum)]),
        RecordData::NULL(v) => (10, vec![F::B(v.anything.clone())]),
        RecordData::WKS(v) => (11, vec![F::B(v.address.octets().to_vec()), nu(v.protocol), F::B(v.bitmap.clone())]),
        RecordData::PTR(v) => {
            assert!(&v.clone().into_inner() == v.inner(), "name accessors disagree");
            (12, vec![names_n(v.inner())])
        }
        RecordData::HINFO(v) => (13, vec![F::B(v.cpu.clone()), F::B(v.os.clone())]),
        RecordData::MINFO(v) => (14, vec![names_n(&v.rmailbx), names_n(&v.emailbx)]),
        RecordData::MX(v) => (15, vec![nu(v.preference), names_n(&v.exchange)]),
        RecordData::TXT(v) => (16, vec![F::List(v.0.iter().map(|s| s.as_bytes().to_vec()).collect())]),
        RecordData::AAAA(v) => {
            assert_eq!((v.clone().into_inner(), u128::from(v)), (*v.inner(), u128::from(*v.inner())), "address accessors disagree");
            (28, vec![F::B(v.inner().octets().to_vec())])
        }
        RecordData::LOC(v) => (29, vec![nu(v.version), nu(v.size), nu(v.horiz_pre), nu(v.vert_pre), nu(v.latitude), nu(v.longitude), nu(v.altitude)]),
        RecordData::SRV(v) => (33, vec![nu(v.priority), nu(v.weight), nu(v.port), names_n(&v.target)]),
        RecordData::NAPTR(_) => (35, ok(35, x)),
        RecordData::OPT(v) => (41, vec![F::Map(v.0.iter().map(|(k, v)| (*k, v.clone())).collect::<BTreeMap<_, _>>())]),
        RecordData::APL(v) => {
            let a = v.afd_part.to_bytes();
            (42, vec![nu(if a.len() == 4 { 1u8 } else { 2 }), nu(v.prefix), nu(v.n as u8), F::B(a)])
        }
        RecordData::SSHFP(v) => (44, vec![nu(u8::from(v.algorithm)), nu(u8::from(v.fingerprint_type)), F::B(v.fingerprint.clone())]),
        RecordData::IPSECKEY(v) => {
            let g = match &v.gateway {
                rd::ipseckey::Gateway::None => F::B(b".".to_vec()),
                rd::ipseckey::Gateway::IpV4(a) => F::B(a.octets().to_vec()),
                rd::ipseckey::Gateway::IpV6(a) => F::B(a.octets().to_vec()),
                rd::ipseckey::Gateway::Domain(d) => names_n(d),
            };
            (45, vec![nu(v.precedence), nu(v.gateway.gateway_type()), nu(u8::from(v.algorithm)), g, F::B(v.public_key.clone())])
        }
        RecordData::DHCID(v) => (49, vec![nu(u16::from(v.identifier_code)), nu(1u8), F::B(v.digest.clone())]),
        RecordData::TLSA(v) => (52, vec![nu(u8::from(v.cert_usage)), nu(u8::from(v.selector)), nu(u8::from(v.matching_type)), F::B(v.associated_data.clone())]),
        RecordData::HIP(v) => (
            55,
            vec![
                nu(u8::from(v.public_key_algorithm)),
                F::B(v.hit.clone()),
                F::B(v.public_key.clone()),
                F::Names(v.rendevous_server.as_ref().map(|s| s.iter().map(name_of).collect()).unwrap_or_default()),
            ],
        ),
        RecordData::OPENPGPKEY(v) => (61, vec![F::B(v.0.clone())]),
        RecordData::CSYNC(v) => {
            let fl = (v.flags.immediate() as u64) | (v.flags.soa_minimum() as u64) << 1;
            (62, vec![nu(v.soa_serial), F::N(fl), set_of(&v.types)])
        }
        RecordData::SVCB(v) => {
            let mut m = BTreeMap::new();
            for p in &v.params {
                let w = p.to_bytes();
                assert!(w.len() >= 4 && u16::from_be_bytes([w[2], w[3]]) as usize == w.len() - 4, "parameter length");
                assert!(m.insert(u16::from_be_bytes([w[0], w[1]]), w[4..].to_vec()).is_none(), "parameter twice");
            }
            (64, vec![nu(v.priority), names_n(&v.target_name), F::Map(m)])
        }
        RecordData::EUI48(_) => (108, ok(108, x)),
        RecordData::EUI64(_) => (109, ok(109, x)),
        RecordData::TKEY(v) => (
            249,
            vec![names_n(&v.algorithm), nu(v.inception), nu(v.expiration), nu(u16::from(v.mode)), nu(u16::from(v.error)), F::B(v.key_data.clone()), F::B(v.other_data.clone())],
        ),
        RecordData::TSIG(v) => (
            250,
            vec![names_n(&v.algorithm), nu(v.time_signed), nu(v.fudge), F::B(v.mac.clone()), nu(v.original_id), nu(u16::from(v.error)), F::B(v.other_data.clone())],
        ),
        RecordData::URI(v) => (256, vec![nu(v.priority), nu(v.weight), F::B(v.target.clone())]),
        RecordData::CAA(v) => (257, vec![nu((v.issuer_critical as u8) << 7), F::B(v.tag.clone().into_bytes()), F::B(v.value.clone())]),
        #[allow(unreachable_patterns)]
        _ => {
            full! {
                match x {
                    RecordData::DS(v) | RecordData::CDS(v) => {
                        let t = if matches!(x, RecordData::DS(_)) { 43 } else { 59 };
                        return (t, vec![nu(v.key_tag), nu(u8::from(v.algorithm)), nu(u8::from(v.digest_type)), F::B(v.digest.clone())]);
                    }
                    RecordData::RRSIG(v) => {
                        let f = ok(46, x);
                        assert_eq!(f[6], nu(v.key_tag()), "key tag accessor");
                        assert_eq!(f[8], F::B(v.signature().to_vec()), "signature accessor");
                        return (46, f);
                    }
                    RecordData::NSEC(v) => return (47, vec![names_n(&v.next_domain_name), set_of(&v.types)]),
                    RecordData::DNSKEY(v) | RecordData::CDNSKEY(v) => {
                        let t = if matches!(x, RecordData::DNSKEY(_)) { 48 } else { 60 };
                        let w = v.to_bytes();
                        let fl = (w[0] as u64) << 8 | w[1] as u64;
                        assert_eq!(fl & 0x101, (v.zone_key as u64) << 8 | v.secure_entry_point as u64, "key flags");
                        return (t, vec![F::N(fl), nu(v.protocol()), nu(u8::from(v.algorithm)), F::B(v.public_key.clone())]);
                    }
                    _ => (),
                }
            }
            #[allow(unreachable_code)]
            {
                panic!("unknown record data")
            }
        }
    }
}

pub fn class(c: u16) -> RecordClass {
    match c {
        1 => RecordClass::IN,
        2 => RecordClass::CS,
        3 => RecordClass::CH,
        4 => RecordClass::HS,
        x => RecordClass::UdpPayloadSize(x),
    }
}
/// The class field of an OPT record is a payload size, whatever its value.
pub fn class_of(t: u16, c: u16) -> RecordClass {
    if t == model::T_OPT { RecordClass::UdpPayloadSize(c) } else { class(c) }
}
pub fn qclass(c: u16) -> QClass {
    match c {
        1 => QClass::IN,
        2 => QClass::CS,
        3 => QClass::CH,
        4 => QClass::HS,
        254 => QClass::NONE,
        255 => QClass::ANY,
        _ => panic!("qclass"),
    }
}

pub fn question(q: &Q) -> Question {
    let x = Question::new(fqdn(&q.name), QType::try_from(q.qtype).expect("question type"), qclass(q.class));
    full! {
        let mut x = x;
        if q.top {
            x.set_unicast_response(true);
        }
    }
    x
}
pub fn observe_q(q: &Question) -> Q {
    let top;
    full! { top = q.unicast_response(); }
    plain! { top = false; }
    let (t, c) = (*q.query_type(), *q.class());
    assert_eq!((u16::from(t), t.to_bytes()), (t as u16, (t as u16).to_be_bytes().to_vec()), "question type and its encoding disagree");
    assert_eq!((u16::from(c), c.to_bytes()), (c as u16, (c as u16).to_be_bytes().to_vec()), "question class and its encoding disagree");
    Q { name: name_of(q.name()), qtype: t as u16, class: c as u16, top }
}
pub fn record(r: &Rr) -> ResourceRecord {
    let x = ResourceRecord::new(fqdn(&r.name), RecordType::try_from(r.rtype).expect("record type"), class_of(r.rtype, r.class), r.ttl, rdata(r.rtype, &r.rd));
    full! {
        let mut x = x;
        if r.top {
            x.set_cache_flush(true);
        }
    }
    x
}
pub fn observe_rr(r: &ResourceRecord) -> Rr {
    let top;
    full! { top = r.cache_flush(); }
    plain! { top = false; }
    let (t, rd) = observe_rdata(r.data());
    let (rt, rc) = (*r.record_type(), *r.class());
    assert_eq!(t, u16::from(rt), "type field and data disagree");
    assert_eq!((rt as u16, rt.to_bytes()), (t, t.to_be_bytes().to_vec()), "record type and its encoding disagree");
    assert_eq!(rc.to_bytes(), u16::from(rc).to_be_bytes().to_vec(), "record class and its encoding disagree");
    Rr { name: name_of(r.name()), rtype: t, class: u16::from(*r.class()), top, ttl: r.time_to_live(), rd }
}

/// Flags that only decoding can produce (reserved bits, unknown opcodes) make this return None.
pub fn header(m: &Msg) -> Option<Header> {
    let f = m.flags;
    let op = (f >> 11) & 15;
    if f & 0x70 != 0 || op > 3 || f & 15 > 10 {
        return None;
    }
    let op = [OpCode::StandardQuery, OpCode::InverseQuery, OpCode::ServerStatusRequest, OpCode::Reserved][op as usize];
    let mut h = if f & 0x8000 != 0 { Header::new_reply(m.id, op) } else { Header::new_query(m.id, f & 0x100 != 0) };
    h.set_opcode(op);
    h.set_recursion_desired(f & 0x100 != 0);
    h.set_truncation(f & 0x200 != 0);
    h.set_authoritative_answer(f & 0x400 != 0);
    h.set_recursion_available(f & 0x80 != 0);
    h.set_response_code(ResponseCode::try_from((f & 15) as u8).expect("rcode"));
    if (f & 0x8000 == 0) && (f & 0x8f != 0) {
        return None;
    }
    Some(h)
}
/// Flag word as the accessors show it (reserved bits are not visible there).
pub fn observe_flags(h: &Header) -> u16 {
    let rc = h.response_code() as u16;
    let op = match h.opcode() {
        OpCode::StandardQuery => 0,
        OpCode::InverseQuery => 1,
        OpCode::ServerStatusRequest => 2,
        OpCode::Reserved => 3u16,
    };
    (h.query_response() as u16) << 15
        | op << 11
        | (h.authoritative_answer() as u16) << 10
        | (h.truncation() as u16) << 9
        | (h.recursion_desired() as u16) << 8
        | (h.recursion_available() as u16) << 7
        | rc
}
/// What `observe_flags` must report for a given flag word.
pub fn visible_flags(f: u16) -> u16 {
    let op = ((f >> 11) & 15).min(3);
    (f & 0x8780) | op << 11 | (f & 15)
}

pub fn build(m: &Msg) -> Option<Packet> {
    let h = header(m)?;
    let mut p = Packet::new_query(0, false);
    p.set_header(h);
    for q in &m.q {
        p.add_question(question(q));
    }
    for r in &m.s[0] {
        p.add_answer(record(r));
    }
    for r in &m.s[1] {
        p.add_authority(record(r));
    }
    for r in &m.s[2] {
        p.add_additional(record(r));
    }
    Some(p)
}

/// Everything the accessors show. Flags are the visible ones.
pub fn observe(p: &Packet) -> Msg {
    let f = observe_flags(p.header());
    let g = (p.query_response() as u16) << 15
        | match p.opcode() {
            OpCode::StandardQuery => 0,
            OpCode::InverseQuery => 1,
            OpCode::ServerStatusRequest => 2,
            OpCode::Reserved => 3u16,
        } << 11
        | (p.authoritative_answer() as u16) << 10
        | (p.truncation() as u16) << 9
        | (p.recursion_desired() as u16) << 8
        | (p.recursion_available() as u16) << 7
        | p.response_code() as u16;
    assert_eq!(f, g, "message and header accessors disagree");
    Msg {
        id: p.id(),
        flags: f,
        q: p.questions().iter().map(observe_q).collect(),
        s: [p.answers().iter().map(observe_rr).collect(), p.authorities().iter().map(observe_rr).collect(), p.additionals().iter().map(observe_rr).collect()],
    }
}
/// The projection of a message a receiver of this flavour is meant to see.
pub fn expected(m: &Msg) -> Msg {
    let mut m = m.clone();
    m.flags = visible_flags(m.flags);
    m.q.iter_mut().for_each(|q| {
        q.name = model::norm(&q.name);
        q.top &= FULL
    });
    for s in m.s.iter_mut() {
        for r in s.iter_mut() {
            r.name = model::norm(&r.name);
            r.top &= FULL;
            norm_rd(&mut r.rd);
        }
    }
    m
}
pub fn norm_rd(f: &mut [F]) {
    for x in f {
        match x {
            F::Name(n) => *n = model::norm(n),
            F::Names(ns) => ns.iter_mut().for_each(|n| *n = model::norm(n)),
            _ => (),
        }
    }
}
/// What a program's error report shows: the error and what caused it.
pub fn report(e: dns::DnsError) -> String {
    let mut s = format!("{e} {e:?}");
    let mut cause = std::error::Error::source(&e);
    let mut n = 0;
    while let Some(c) = cause {
        n += 1;
        assert!(n < 16, "the causes of an error never end");
        s.push_str(&format!(": {c}"));
        cause = c.source();
    }
    s
}
pub fn decode(d: &[u8]) -> Result<Packet, String> {
    Packet::try_from(d).map_err(report)
}
pub fn decode_at(d: &[u8], at: usize) -> (Result<Packet, String>, usize) {
    let mut buf = DnsBuffer::from(d);
    let _ = buf.set_position(at);
    let r = Packet::try_from(&mut buf).map_err(report);
    (r, buf.position())
}
pub fn plain_bytes(p: &Packet) -> Vec<u8> {
    p.to_bytes()
}
pub fn comp_bytes(p: &Packet) -> Vec<u8> {
    p.to_bytes_compressed()
}

fn section(p: &mut Packet, s: usize) -> Vec<ResourceRecord> {
    match s {
        0 => p.take_answers(),
        1 => p.take_authorities(),
        _ => p.take_additionals(),
    }
}
fn set_section(p: &mut Packet, s: usize, v: Vec<ResourceRecord>) {
    match s {
        0 => p.set_answers(v),
        1 => p.set_authorities(v),
        _ => p.set_additionals(v),
    }
}
pub fn edit_rr(r: &mut ResourceRecord, e: &model::RrEd) {
    use model::RrEd::*;
    let is_opt = *r.record_type() == RecordType::OPT;
    match e {
        Name(n) => r.set_name(fqdn(n)),
        AppendLabel(s) => {
            let mut n = r.name().clone();
            n.append_label(s);
            r.set_name(n);
        }
        FirstLabel(b) => {
            let mut n = r.name().clone();
            if let Some(l) = n.iter_mut().next() {
                *l = b.clone();
            }
            r.set_name(n);
        }
        Ttl(t) => r.set_time_to_live(*t),
        Class(c) => r.set_class(if is_opt { class_of(model::T_OPT, *c) } else { class(*c & 0x7fff) }),
        Top(_b) => {
            full! {
                if !is_opt { r.set_cache_flush(*_b); }
            }
        }
        Data(t, f, how) => {
            if is_opt == (*t == model::T_OPT) {
                r.set_record_type(RecordType::try_from(*t).expect("record type"));
                if *how {
                    *r.data_mut() = rdata(*t, f);
                } else {
                    r.set_data(rdata(*t, f));
                }
            }
        }
    }
}
fn op(o: u16) -> OpCode {
    [OpCode::StandardQuery, OpCode::InverseQuery, OpCode::ServerStatusRequest, OpCode::Reserved][o as usize]
}
/// Performs an edit through the public interface.
pub fn edit(mut p: Packet, e: &model::Ed) -> Packet {
    use model::Ed::*;
    match e {
        Id(x) => p.set_id(*x),
        Rd(v) => p.set_recursion_desired(*v),
        Tc(v) => p.set_truncation(*v),
        Aa(v) => p.set_authoritative_answer(*v),
        Op(o) => p.set_opcode(op(*o)),
        Qr(v) => p.set_query_response(*v),
        Rc(c) => p.set_response_code(ResponseCode::try_from(*c as u8).expect("rcode")),
        Ra(v) => p.set_recursion_available(*v),
        AddQ(q) => p.add_question(question(q)),
        PushQ(q) => p.questions_mut().push(question(q)),
        SetQ(v) => p.set_questions(v.iter().map(question).collect()),
        TakeQ => {
            let before: Vec<Q> = p.questions().iter().map(observe_q).collect();
            let v = p.take_questions();
            assert!(p.questions().is_empty(), "questions stay after taking them");
            assert!(v.iter().map(observe_q).collect::<Vec<_>>() == before, "other questions are handed out than were there");
        }
        ClearQ => p.questions_mut().clear(),
        PopQ => {
            p.questions_mut().pop();
        }
        MutQ(i, e) => {
            if let Some(q) = p.questions_mut().get_mut(*i) {
                match e {
                    model::QEd::Name(n) => q.set_name(fqdn(n)),
                    model::QEd::Type(t) => q.set_query_type(QType::try_from(*t).expect("question type")),
                    model::QEd::Class(c) => q.set_class(qclass(*c)),
                    model::QEd::Top(_b) => {
                        full! { q.set_unicast_response(*_b); }
                    }
                }
            }
        }
        Add(s, r) => match s {
            0 => p.add_answer(record(r)),
            1 => p.add_authority(record(r)),
            _ => p.add_additional(record(r)),
        },
        Set(s, v) => set_section(&mut p, *s, v.iter().map(record).collect()),
        Take(s) => {
            let see = |v: &[ResourceRecord]| v.iter().map(observe_rr).collect::<Vec<_>>();
            let before = see([p.answers(), p.authorities(), p.additionals()][*s]);
            let v = section(&mut p, *s);
            assert!([p.answers(), p.authorities(), p.additionals()][*s].is_empty(), "records stay after taking them");
            assert!(see(&v) == before, "other records are handed out than were there");
        }
        Give(s, o) => {
            let mut q = build(o).expect("other message");
            match s {
                0 => q.take_questions().into_iter().for_each(|x| p.add_question(x)),
                1 => q.take_answers().into_iter().for_each(|x| p.add_answer(x)),
                2 => q.take_authorities().into_iter().for_each(|x| p.add_authority(x)),
                _ => q.take_additionals().into_iter().for_each(|x| p.add_additional(x)),
            }
            assert!(observe(&q) == { let mut m = observe(&build(o).unwrap()); if *s == 0 { m.q.clear() } else { m.s[s - 1].clear() } m }, "the message records were taken from is not as expected");
        }
        Mut(s, i, e) => {
            let mut v = section(&mut p, *s);
            if let Some(r) = v.get_mut(*i) {
                edit_rr(r, e);
            }
            set_section(&mut p, *s, v);
        }
        Remove(s, i) => {
            let mut v = section(&mut p, *s);
            if *i < v.len() {
                v.remove(*i);
            }
            set_section(&mut p, *s, v);
        }
        Insert(s, i, r) => {
            let mut v = section(&mut p, *s);
            let i = (*i).min(v.len());
            v.insert(i, record(r));
            set_section(&mut p, *s, v);
        }
        Move(a, b) => {
            let v = section(&mut p, *a);
            set_section(&mut p, *b, v);
        }
        Reverse(s) => {
            let mut v = section(&mut p, *s);
            v.reverse();
            set_section(&mut p, *s, v);
        }
        Header(id, reply, rd) => {
            let h = if *reply { dns::Header::new_reply(*id, OpCode::StandardQuery) } else { dns::Header::new_query(*id, *rd) };
            p.set_header(h);
        }
        HeaderOf(o) => {
            let q = build(o).expect("header");
            p.set_header(q.header().clone());
        }
        Clone => {
            let q = p.clone();
            assert!(q == p, "clone differs");
            drop(p);
            p = q;
        }
        Redecode(compressed) => {
            let b = if *compressed { p.to_bytes_compressed() } else { p.to_bytes() };
            p = Packet::try_from(b.as_slice()).expect("own encoding is refused");
        }
        Encode(compressed) => {
            if *compressed {
                p.to_bytes_compressed();
            } else {
                p.to_bytes();
            }
        }
    }
    p
}
/// Builds, or for headers only a peer can send, decodes what the reference encoder wrote.
pub fn make(m: &Msg) -> Packet {
    match build(m) {
        Some(p) => p,
        None => decode(&model::encode(m, model::Comp::None, None)).expect("reference encoding is refused"),
    }
}

/// Every name a message holds.
pub fn all_names(p: &Packet) -> Vec<Name> {
    let mut v: Vec<Name> = p.questions().iter().map(|q| name_of(q.name())).collect();
    for r in p.answers().iter().chain(p.authorities()).chain(p.additionals()) {
        v.push(name_of(r.name()));
        rdata_names(r.data(), &mut v);
    }
    v
}
pub fn rdata_names(x: &RecordData, v: &mut Vec<Name>) {
    let mut a = |f: &FQDN| v.push(name_of(f));
    match x {
        RecordData::NS(x) => a(&x.nsdname),
        RecordData::CNAME(x) => a(&x.cname),
        RecordData::SOA(x) => {
            a(&x.mname);
            a(&x.rname)
        }
        RecordData::PTR(x) => a(x.inner()),
        RecordData::MINFO(x) => {
            a(&x.rmailbx);
            a(&x.emailbx)
        }
        RecordData::MX(x) => a(&x.exchange),
        RecordData::SRV(x) => a(&x.target),
        RecordData::IPSECKEY(x) => {
            if let rd::ipseckey::Gateway::Domain(d) = &x.gateway {
                a(d)
            }
        }
        RecordData::HIP(x) => {
            for n in x.rendevous_server.iter().flatten() {
                a(n)
            }
        }
        RecordData::SVCB(x) => a(&x.target_name),
        RecordData::TKEY(x) => a(&x.algorithm),
        RecordData::TSIG(x) => a(&x.algorithm),
        _ => {
            full! {
                if let RecordData::NSEC(x) = x {
                    a(&x.next_domain_name)
                }
            }
        }
    }
}
fn use_name(f: &FQDN, out: &mut Vec<String>) {
    out.push(f.to_string());
    let _ = (f.is_empty(), f.len(), f.label_count(), f.is_link_local(), f.is_root(), f.byte_size(), f.to_bytes().len());
    let g = f.clone();
    assert!(&g == f && g.cmp(f) == std::cmp::Ordering::Equal, "a name differs from its copy");
}
pub fn use_rdata(d: &RecordData, out: &mut Vec<String>) {
    out.push(format!("{d:?}"));
    let _ = d.byte_size();
    let _ = d.to_bytes();
    let e = d.clone();
    assert!(&e == d, "record data differs from its copy");
    match d {
        RecordData::TXT(t) => out.extend(t.0.iter().cloned()),
        RecordData::CAA(c) => out.push(c.tag.clone()),
        RecordData::SVCB(s) => {
            let _ = s.mode();
            for p in &s.params {
                let _ = (p.byte_size(), p.to_bytes());
            }
        }
        _ => {
            full! {
                match d {
                    RecordData::DNSKEY(k) | RecordData::CDNSKEY(k) => {
                        out.push(k.base64_public_key());
                        let _ = (k.protocol(), k.valid_protocol());
                        for t in [1u8, 2, 4, 5] {
                            if let Ok(ds) = rd::Ds::try_from_dnskey(&FQDN::new("a.b"), k, t.try_into().expect("digest type")) {
                                out.push(ds.hex_digest());
                            }
                        }
                    }
                    RecordData::DS(k) | RecordData::CDS(k) => out.push(k.hex_digest()),
                    RecordData::RRSIG(s) => {
                        out.push(s.base64_signature());
                        let _ = (s.key_tag(), s.signature().len());
                    }
                    _ => (),
                }
            }
        }
    }
    let mut names = Vec::new();
    rdata_names(d, &mut names);
    for n in &names {
        use_name(&fqdn(n), out);
    }
}
/// One piece of record data: built, used, encoded, decoded again.
pub fn one_rdata(t: u16, f: &[F], out: &mut Vec<String>) {
    let d = rdata(t, f);
    use_rdata(&d, out);
    let b = d.to_bytes();
    let o = observe_rdata(&d);
    let l = crate::rt::set_in_lib(false);
    out.push(model::hex(&b));
    out.push(format!("{o:?}"));
    crate::rt::set_in_lib(l);
    decode_part(&b, 4, 0, None, t, out);
}
/// Reads, prints, copies, compares and encodes a received message in every way the interface
/// offers, and checks received signatures with received keys. Texts are handed back.
pub fn use_up(p: &Packet, verify: bool, out: &mut Vec<String>) {
    out.push(format!("{p:?}"));
    out.push(format!("{:#?}", p.header()));
    let h = p.header();
    let _ = (h.byte_size(), h.to_bytes(), p.id(), p.opcode(), p.response_code(), p.query_response(), p.recursion_available(), observe_flags(h));
    for q in p.questions() {
        use_name(q.name(), out);
        let _ = (q.byte_size(), q.to_bytes(), u16::from(*q.query_type()), u16::from(*q.class()), q.query_type().to_bytes(), q.class().to_bytes());
        out.push(format!("{q:?}"));
    }
    for r in p.answers().iter().chain(p.authorities()).chain(p.additionals()) {
        use_name(r.name(), out);
        let _ = (r.byte_size(), r.to_bytes(), u16::from(*r.record_type()), u16::from(*r.class()), r.time_to_live(), r.data_raw(), r.record_type().compression_allowed());
        use_rdata(r.data(), out);
        assert!(&r.clone() == r, "a record differs from its copy");
        let _ = r.clone().take_data();
    }
    let q = p.clone();
    assert!(&q == p, "a message differs from its copy");
    let _ = (p.byte_size(), p.to_bytes(), p.to_bytes_compressed());
    let mut q = q;
    let a = q.take_answers();
    q.set_additionals(a);
    let _ = q.take_authorities();
    let _ = q.take_questions();
    let _ = q.to_bytes_compressed();
    if !verify {
        return;
    }
    full! {
        let all: Vec<&ResourceRecord> = p.answers().iter().chain(p.authorities()).chain(p.additionals()).collect();
        let mut n = 0;
        for s in &all {
            let RecordData::RRSIG(sig) = s.data() else { continue };
            for k in &all {
                let (RecordData::DNSKEY(key) | RecordData::CDNSKEY(key)) = k.data() else { continue };
                n += 1;
                if n > 4 {
                    return;
                }
                let of = all.iter().find(|r| !matches!(r.data(), RecordData::RRSIG(_))).unwrap();
                let data: Vec<&RecordData> = all.iter().filter(|r| r.record_type() == of.record_type()).map(|r| r.data()).collect();
                let mut set = dns::ResourceRecordSet::new(of.name(), *of.record_type(), *of.class(), of.time_to_live(), data);
                let _ = sig.verify(key, &set);
                set.canonical_reorder();
                if let Err(e) = sig.verify(key, &set) {
                    out.push(report(e));
                }
                let _ = (set.byte_size(), set.to_bytes());
                out.push(format!("{set:?}"));
            }
        }
    }
}
/// Decodes a part of a message at a position: 0 question, 1 record, 2 name, 3 header, 4.. record data.
pub fn decode_part(d: &[u8], kind: u64, at: usize, window: Option<usize>, t: u16, out: &mut Vec<String>) -> bool {
    let mut buf = DnsBuffer::from(d);
    if buf.set_position(at).is_err() {
        return false;
    }
    let mut win;
    let b = match window {
        Some(n) => match buf.sub_buffer(n) {
            Ok(w) => {
                win = w;
                &mut win
            }
            Err(_) => return false,
        },
        None => &mut buf,
    };
    let r = match kind {
        0 => Question::try_from(&mut *b).map(|q| {
            use_name(q.name(), out);
            out.push(format!("{q:?}"));
            let _ = (q.to_bytes(), q.byte_size());
        }),
        1 => ResourceRecord::try_from(&mut *b).map(|r| {
            use_rdata(r.data(), out);
            let _ = (r.to_bytes(), r.byte_size());
        }),
        2 => FQDN::try_from(&mut *b).map(|n| {
            assert!(n.len() <= 255, "name longer than 255 bytes");
            use_name(&n, out)
        }),
        3 => Header::try_from(&mut *b).map(|h| {
            out.push(format!("{h:?}"));
            let _ = observe_flags(&h);
        }),
        _ => match RecordType::try_from(t) {
            Ok(t) => RecordData::from(t, &mut *b).map(|d| use_rdata(&d, out)),
            Err(e) => Err(e),
        },
    };
    assert!(b.position() <= b.as_slice().len(), "cursor left the buffer");
    match r {
        Ok(()) => true,
        Err(e) => {
            out.push(report(e));
            false
        }
    }
}

fn cur_state(b: &DnsBuffer, out: Option<F>) -> model::CurGot {
    model::CurGot { out, pos: b.position(), rest: b.remaining(), all: b.as_slice().to_vec() }
}
/// Performs cursor operations; every step reports its result and the cursor.
pub fn cursor(b: &mut DnsBuffer, ops: &[model::Cur], got: &mut Vec<model::CurGot>) {
    use model::Cur::*;
    for o in ops {
        let out = match o {
            U8 => b.extract_u8().ok().map(nu),
            U16 => b.extract_u16().ok().map(nu),
            U32 => b.extract_u32().ok().map(nu),
            Typed => b.extract_u16_as::<RecordType>().ok().map(|t| nu(u16::from(t))),
            Cs => b.extract_character_string().ok().map(F::B),
            Text => b.extract_string().ok().map(|s| F::B(s.into_bytes())),
            model::Cur::Name => b.extract_fqdn().ok().map(|f| names_n(&f)),
            Bytes(n) => b.extract_bytes(*n).ok().map(|x| F::B(x.to_vec())),
            Peek(n) => b.peek_bytes(*n).ok().map(|x| F::B(x.to_vec())),
            Skip(n) => b.advance(*n).ok().map(|_| F::N(0)),
            Seek(n) => b.set_position(*n).ok().map(|_| F::N(0)),
            Window(n, ops) => {
                let r = b.sub_buffer(*n);
                match r {
                    Ok(mut w) => {
                        got.push(cur_state(&w, Some(F::N(1))));
                        cursor(&mut w, ops, got);
                        Some(F::N(0))
                    }
                    Err(_) => None,
                }
            }
        };
        got.push(cur_state(b, out));
    }
}
/// Runs cursor operations on a buffer that starts at a position.
pub fn cursor_from(d: &[u8], at: usize, ops: &[model::Cur]) -> Vec<model::CurGot> {
    let mut b = DnsBuffer::from(d);
    let mut got = Vec::new();
    if b.set_position(at).is_ok() {
        cursor(&mut b, ops, &mut got);
    }
    got
}

/// The constructors: 0 query, 1 reply, 2 with questions, 3 default.
pub fn start(how: u64, id: u16, rd: bool, qs: &[Q]) -> Packet {
    match how {
        0 => Packet::new_query(id, rd),
        1 => Packet::new_reply(id),
        2 => Packet::with_questions(id, rd, qs.iter().map(question).collect()),
        _ => Packet::default(),
    }
}
