//! Reference signer and validator: RFC 4034 signed data, key tags and digests computed without the
//! library under test; the arithmetic of RSA and DSA is done here, curves come from ring and crrl.
use crate::model::{self, Name, F};
use rsa::pkcs8::DecodePrivateKey;
use rsa::traits::PrivateKeyParts;
use rsa::BigUint;
use std::sync::OnceLock;

pub struct Key {
    pub kind: &'static str,
    pub private: Vec<u8>,
    pub public: Vec<u8>,
    rsa: Option<rsa::RsaPrivateKey>,
    dsa_x: Option<BigUint>,
}

pub fn pool() -> &'static [Key] {
    static P: OnceLock<Vec<Key>> = OnceLock::new();
    P.get_or_init(|| {
        include_str!("../keys.txt")
            .lines()
            .map(|l| {
                let mut w = l.split(' ');
                let kind = w.next().unwrap();
                let private = model::unhex(w.next().unwrap());
                let public = model::unhex(w.next().unwrap());
                let rsa = kind.starts_with("rsa").then(|| rsa::RsaPrivateKey::from_pkcs8_der(&private).expect("pool key"));
                let dsa_x = kind.starts_with("dsa").then(|| dsa::SigningKey::from_pkcs8_der(&private).expect("pool key").x().clone());
                Key { kind, private, public, rsa, dsa_x }
            })
            .collect()
    })
}

pub const SIGNING: &[u8] = &[15, 13, 16, 14, 8, 10, 5, 1, 3];

pub fn bits(k: &Key) -> usize {
    k.kind.trim_start_matches(|c: char| c.is_ascii_alphabetic()).parse().unwrap_or(0)
}
/// Keys of this algorithm; `lib`: that the library's signer takes.
pub fn keys_of(alg: u8, lib: bool) -> Vec<usize> {
    let fits = |k: &Key| match alg {
        1 => k.kind.starts_with("rsa") && bits(k) < 3000,
        5 => k.kind.starts_with("rsa") && bits(k) < 3000,
        8 => k.kind.starts_with("rsa") && (!lib || bits(k) >= 2048),
        10 => k.kind.starts_with("rsa") && (if lib { bits(k) >= 2048 } else { bits(k) >= 768 }),
        3 => k.kind.starts_with("dsa"),
        13 => k.kind == "p256",
        14 => k.kind == "p384",
        15 => k.kind == "ed25519",
        16 => k.kind == "ed448",
        _ => false,
    };
    (0..pool().len()).filter(|i| fits(&pool()[*i])).collect()
}

fn hash(alg: u8, data: &[u8]) -> Vec<u8> {
    use sha2::Digest;
    match alg {
        1 => md5::Md5::digest(data).to_vec(),
        3 | 5 => sha1::Sha1::digest(data).to_vec(),
        8 => sha2::Sha256::digest(data).to_vec(),
        10 => sha2::Sha512::digest(data).to_vec(),
        _ => panic!("hash of {alg}"),
    }
}
fn emsa(alg: u8, data: &[u8], len: usize) -> Option<Vec<u8>> {
    // RFC 8017 9.2; object identifiers written out
    let oid: &[u8] = match alg {
        1 => &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x02, 0x05],
        5 => &[0x2b, 0x0e, 0x03, 0x02, 0x1a],
        8 => &[0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x01],
        10 => &[0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x03],
        _ => panic!("oid of {alg}"),
    };
    let h = hash(alg, data);
    let mut t = vec![0x06, oid.len() as u8];
    t.extend_from_slice(oid);
    t.extend_from_slice(&[0x05, 0x00]);
    let mut info = vec![0x30, t.len() as u8];
    info.append(&mut t);
    info.extend_from_slice(&[0x04, h.len() as u8]);
    info.extend_from_slice(&h);
    let mut d = vec![0x30, info.len() as u8];
    d.append(&mut info);
    if len < d.len() + 11 {
        return None;
    }
    let mut out = vec![0, 1];
    out.resize(len - d.len() - 1, 0xff);
    out.push(0);
    out.append(&mut d);
    Some(out)
}
fn left_pad(b: Vec<u8>, len: usize) -> Vec<u8> {
    let mut o = vec![0; len.saturating_sub(b.len())];
    o.extend(b);
    o
}

pub fn sign(alg: u8, k: &Key, data: &[u8]) -> Vec<u8> {
    let rng = ring::rand::SystemRandom::new();
    match alg {
        1 | 5 | 8 | 10 => {
            let r = k.rsa.as_ref().expect("rsa key");
            use rsa::traits::PublicKeyParts;
            let len = r.n().bits().div_ceil(8);
            let m = BigUint::from_bytes_be(&emsa(alg, data, len).expect("key too small"));
            left_pad(m.modpow(r.d(), r.n()).to_bytes_be(), len)
        }
        3 => {
            let (p, q, g, y) = dsa_parts(&k.public).expect("pool key");
            let _ = y;
            let x = k.dsa_x.as_ref().expect("dsa key");
            let z = BigUint::from_bytes_be(&hash(3, data));
            let mut n = 0u32;
            loop {
                let mut seed = data.to_vec();
                seed.extend_from_slice(&n.to_be_bytes());
                n += 1;
                let kk = BigUint::from_bytes_be(&hash(10, &seed)) % &q;
                let r = g.modpow(&kk, &p) % &q;
                let two = BigUint::from(2u32);
                let s = kk.modpow(&(&q - two), &q) * (&z + x * &r) % &q;
                if r == BigUint::from(0u32) || s == BigUint::from(0u32) {
                    continue;
                }
                let mut o = vec![k.public[0]];
                o.extend(left_pad(r.to_bytes_be(), 20));
                o.extend(left_pad(s.to_bytes_be(), 20));
                return o;
            }
        }
        13 | 14 => {
            let a = if alg == 13 { &ring::signature::ECDSA_P256_SHA256_FIXED_SIGNING } else { &ring::signature::ECDSA_P384_SHA384_FIXED_SIGNING };
            ring::signature::EcdsaKeyPair::from_pkcs8(a, &k.private, &rng).expect("pool key").sign(&rng, data).expect("sign").as_ref().to_vec()
        }
        15 => ring::signature::Ed25519KeyPair::from_pkcs8(&k.private).expect("pool key").sign(data).as_ref().to_vec(),
        16 => crrl::ed448::PrivateKey::decode(&k.private).expect("pool key").sign_raw(data).to_vec(),
        _ => panic!("algorithm {alg}"),
    }
}

fn dsa_parts(k: &[u8]) -> Option<(BigUint, BigUint, BigUint, BigUint)> {
    let t = *k.first()? as usize;
    let l = 64 + 8 * t;
    if t > 8 || k.len() != 21 + 3 * l {
        return None;
    }
    let n = |a: usize, l: usize| BigUint::from_bytes_be(&k[a..a + l]);
    Some((n(21, l), n(1, 20), n(21 + l, l), n(21 + 2 * l, l)))
}

/// What a standards-conforming validator says.
pub fn verify(alg: u8, public: &[u8], data: &[u8], sig: &[u8]) -> bool {
    match alg {
        1 | 5 | 8 | 10 => {
            if public.len() < 3 {
                return false;
            }
            let (el, at) = if public[0] == 0 { ((public[1] as usize) << 8 | public[2] as usize, 3) } else { (public[0] as usize, 1) };
            if public.len() <= at + el {
                return false;
            }
            let e = BigUint::from_bytes_be(&public[at..at + el]);
            let n = BigUint::from_bytes_be(&public[at + el..]);
            let len = n.bits().div_ceil(8);
            let s = BigUint::from_bytes_be(sig);
            if sig.len() != len || s >= n {
                return false;
            }
            match emsa(alg, data, len) {
                Some(m) => left_pad(s.modpow(&e, &n).to_bytes_be(), len) == m,
                None => false,
            }
        }
        3 => {
            let Some((p, q, g, y)) = dsa_parts(public) else { return false };
            if sig.len() != 41 || sig[0] != public[0] {
                return false;
            }
            let r = BigUint::from_bytes_be(&sig[1..21]);
            let s = BigUint::from_bytes_be(&sig[21..]);
            let zero = BigUint::from(0u32);
            if r == zero || s == zero || r >= q || s >= q {
                return false;
            }
            let w = s.modpow(&(&q - BigUint::from(2u32)), &q);
            let z = BigUint::from_bytes_be(&hash(3, data));
            let u1 = &z * &w % &q;
            let u2 = &r * &w % &q;
            g.modpow(&u1, &p) * y.modpow(&u2, &p) % &p % &q == r
        }
        13 | 14 => {
            let a: &dyn ring::signature::VerificationAlgorithm = if alg == 13 { &ring::signature::ECDSA_P256_SHA256_FIXED } else { &ring::signature::ECDSA_P384_SHA384_FIXED };
            if public.len() != if alg == 13 { 64 } else { 96 } {
                return false;
            }
            let mut pt = vec![4];
            pt.extend_from_slice(public);
            ring::signature::UnparsedPublicKey::new(a, pt).verify(data, sig).is_ok()
        }
        15 => ring::signature::UnparsedPublicKey::new(&ring::signature::ED25519, public).verify(data, sig).is_ok(),
        16 => crrl::ed448::PublicKey::decode(public).is_some_and(|k| k.verify_raw(sig, data)),
        _ => false,
    }
}

pub fn key_rdata(flags: u16, proto: u8, alg: u8, public: &[u8]) -> Vec<u8> {
    let mut v = flags.to_be_bytes().to_vec();
    v.push(proto);
    v.push(alg);
    v.extend_from_slice(public);
    v
}
/// RFC 4034 appendix B.
pub fn key_tag(flags: u16, proto: u8, alg: u8, public: &[u8]) -> u16 {
    if alg == 1 {
        let n = public.len();
        return if n < 3 { 0 } else { (public[n - 3] as u16) << 8 | public[n - 2] as u16 };
    }
    let mut ac: u32 = 0;
    for (i, b) in key_rdata(flags, proto, alg, public).iter().enumerate() {
        ac += if i % 2 == 0 { (*b as u32) << 8 } else { *b as u32 };
    }
    ac += ac >> 16 & 0xffff;
    ac as u16
}
pub fn digest(t: u64, owner: &Name, key: &[u8]) -> Vec<u8> {
    use sha2::Digest;
    let mut d = model::encode_name(owner);
    d.extend_from_slice(key);
    match t {
        1 => sha1::Sha1::digest(&d).to_vec(),
        2 => sha2::Sha256::digest(&d).to_vec(),
        4 => sha2::Sha384::digest(&d).to_vec(),
        5 => sha2::Sha512::digest(&d).to_vec(),
        _ => panic!("digest {t}"),
    }
}

/// A record set as handed to a signer or validator.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Set {
    pub name: Name,
    pub rtype: u16,
    /// type of the record data; differs from the set's type only after tampering
    pub dtype: u16,
    pub class: u16,
    pub ttl: u32,
    pub rds: Vec<Vec<F>>,
}
/// RFC 4034 3.1.8.1: signature = sign(RRSIG_RDATA | RR(1) | RR(2)...), without changing letters.
pub fn signed_data(rrsig: &[F], set: &Set) -> Vec<u8> {
    let mut head = rrsig.to_vec();
    head[8] = F::B(Vec::new());
    let mut d = model::encode_rdata(46, &head);
    let owner = model::encode_name(&set.name);
    let mut r: Vec<Vec<u8>> = set.rds.iter().map(|x| model::encode_rdata(set.dtype, x)).collect();
    r.sort();
    for x in r {
        d.extend_from_slice(&owner);
        d.extend_from_slice(&set.rtype.to_be_bytes());
        d.extend_from_slice(&set.class.to_be_bytes());
        d.extend_from_slice(&set.ttl.to_be_bytes());
        d.extend_from_slice(&(x.len() as u16).to_be_bytes());
        d.extend_from_slice(&x);
    }
    d
}
pub fn labels(n: &Name) -> u64 {
    let n = model::norm(n);
    n.len() as u64 - (n.first().is_some_and(|l| l == b"*") as u64)
}
pub fn lower(n: &Name) -> Name {
    n.iter().map(|l| l.to_ascii_lowercase()).collect()
}
pub fn lower_rd(f: &mut [F]) {
    for x in f {
        match x {
            F::Name(n) => *n = lower(n),
            F::Names(v) => v.iter_mut().for_each(|n| *n = lower(n)),
            _ => (),
        }
    }
}
