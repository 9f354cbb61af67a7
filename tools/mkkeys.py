#!/usr/bin/env python3
"""Made sim/keys.txt once (needs openssl): kind, private key as the library takes it, public key as in a DNSKEY record."""
import subprocess, secrets
def ssl(*a, inp=None):
    return subprocess.run(["openssl", *a], input=inp, check=True, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout
def tlv(d, p=0):
    t = d[p]; l = d[p+1]; p += 2
    if l & 0x80:
        n = l & 0x7f; l = int.from_bytes(d[p:p+n], "big"); p += n
    return t, d[p:p+l], p+l
def seq(d):
    out = []; p = 0
    while p < len(d):
        t, v, p = tlv(d, p); out.append((t, v))
    return out
def i(b): return int.from_bytes(b, "big")
def be(n, l=None): return n.to_bytes(l or (n.bit_length()+7)//8, "big")
def pkcs8(pem): return ssl("pkcs8", "-topk8", "-nocrypt", "-outform", "DER", inp=pem)
out = []
def rsa(bits, e):
    pem = ssl("genpkey", "-algorithm", "RSA", "-pkeyopt", f"rsa_keygen_bits:{bits}", "-pkeyopt", f"rsa_keygen_pubexp:{e}")
    der = pkcs8(pem)
    inner = seq(tlv(seq(tlv(der)[1])[2][1])[1])
    n, ee = i(inner[1][1]), i(inner[2][1])
    assert ee == e and n.bit_length() == bits
    eb = be(e)
    out.append((f"rsa{bits}", der, bytes([len(eb)]) + eb + be(n)))
for bits, e in [(512,3),(512,65537),(640,17),(768,65537),(1024,3),(1024,65537),(1024,4294967297),(1032,65537),(1023,65537),(1024,257),(2048,65537),(2048,65537),(2048,4294967297),(3072,65537)]:
    rsa(bits, e)
def prime(n):
    if n % 2 == 0 or any(n % k == 0 for k in (3,5,7,11,13,17,19,23,29,31,37)): return False
    d, r = n - 1, 0
    while d % 2 == 0: d //= 2; r += 1
    for _ in range(40):
        x = pow(secrets.randbelow(n - 3) + 2, d, n)
        if x in (1, n - 1): continue
        for _ in range(r - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True
def der_(tag, v):
    l = len(v)
    ln = bytes([l]) if l < 128 else bytes([0x80 + len(be(l))]) + be(l)
    return bytes([tag]) + ln + v
def int_(n):
    b = be(n)
    return der_(2, (b"\0" if b[0] & 0x80 else b"") + b)
def dsa(bits, zero=False):
    while True:
        q = secrets.randbits(160) | 1 << 159 | 1
        if prime(q): break
    while True:
        m = secrets.randbits(bits) | 1 << (bits - 1)
        p = m - m % (2 * q) + 1
        if p.bit_length() == bits and prime(p): break
    h = 2
    while (g := pow(h, (p - 1) // q, p)) == 1: h += 1
    L = bits // 8
    while True:
        x = secrets.randbelow(q - 1) + 1
        y = pow(g, x, p)
        if not zero or be(y, L)[0] == 0: break
    alg = der_(0x30, bytes.fromhex("06072a8648ce380401") + der_(0x30, int_(p) + int_(q) + int_(g)))
    der = der_(0x30, b"\x02\x01\x00" + alg + der_(4, int_(x)))
    t = (L - 64) // 8
    out.append((f"dsa{bits}", der, bytes([t]) + be(q, 20) + be(p, L) + be(g, L) + be(y, L)))
for b, z in [(512, False), (512, True), (640, False), (768, False), (1024, False), (1024, True)]:
    dsa(b, z)
def ec(curve, name, cond):
    while True:
        pem = ssl("genpkey", "-algorithm", "EC", "-pkeyopt", f"ec_paramgen_curve:{curve}", "-pkeyopt", "ec_param_enc:named_curve")
        der = pkcs8(pem)
        pub = ssl("pkey", "-pubout", "-outform", "DER", inp=pem)
        pt = seq(tlv(pub)[1])[1][1][1:]
        assert pt[0] == 4
        pt = pt[1:]
        if cond(pt): break
    out.append((name, der, pt))
for c, nm in (("P-256", "p256"), ("P-384", "p384")):
    ec(c, nm, lambda p: True)
    ec(c, nm, lambda p: p[0] == 0)
    ec(c, nm, lambda p: p[len(p)//2] == 0)
    ec(c, nm, lambda p: p[0] == 4)
for _ in range(3):
    pem = ssl("genpkey", "-algorithm", "ED25519")
    v1 = pkcs8(pem)
    seed = v1[-32:]
    pub = ssl("pkey", "-pubout", "-outform", "DER", inp=pem)[-32:]
    body = bytes.fromhex("020101300506032b6570") + b"\x04\x22\x04\x20" + seed + b"\xa1\x23\x03\x21\x00" + pub
    out.append(("ed25519", b"\x30" + bytes([len(body)]) + body, pub))
for _ in range(3):
    pem = ssl("genpkey", "-algorithm", "ED448")
    v1 = pkcs8(pem)
    pub = ssl("pkey", "-pubout", "-outform", "DER", inp=pem)[-57:]
    out.append(("ed448", v1[-57:], pub))
rsa(4096, 65537)
open("/verif/sim/keys.txt", "w").write("".join(f"{k} {a.hex()} {b.hex()}\n" for k, a, b in out))
print(len(out), sum(len(a) for _, a, _ in out))
