#!/opt/veriftools/pyvenv/bin/python
"""Writes the test keys of property C21 (harness/src/keys.rs): small RSA keys in PKCS#8 form, and
their numbers for the oracle."""
import random
from sympy import nextprime

rnd = random.Random(20240601)


def tlv(t, b):
    n = len(b)
    l = bytes([n]) if n < 128 else (bytes([0x81, n]) if n < 256 else bytes([0x82, n >> 8, n & 255]))
    return bytes([t]) + l + b


def num(x):
    b = x.to_bytes(x.bit_length() // 8 + 1, "big")
    return tlv(2, b)


def key(bits, e=65537):
    while True:
        p = nextprime(rnd.getrandbits(bits // 2) | 3 << (bits // 2 - 2))
        q = nextprime(rnd.getrandbits(bits - bits // 2) | 3 << (bits - bits // 2 - 2))
        n = p * q
        if n.bit_length() == bits and (p - 1) % e and (q - 1) % e and p != q:
            break
    p, q = max(p, q), min(p, q)
    d = pow(e, -1, (p - 1) * (q - 1))
    k = tlv(0x30, num(0) + num(n) + num(e) + num(d) + num(p) + num(q) + num(d % (p - 1)) + num(d % (q - 1)) + num(pow(q, -1, p)))
    oid = bytes.fromhex("06092a864886f70d0101010500")
    return n, d, tlv(0x30, num(0) + tlv(0x30, oid) + tlv(4, k))


def arr(b):
    return "&[" + ", ".join("0x%02x" % x for x in b) + "]"


out = ["//! Written by tools/mkkeys.py.", "pub struct Key {", "    pub der: &'static [u8],", "    pub n: &'static [u8],",
       "}"]
for name, bits in (("K512", 512), ("K520", 520), ("K528", 528)):
    n, d, der = key(bits)
    z = (bits + 7) // 8
    out.append("pub const %s: Key = Key {\n    der: %s,\n    n: %s,\n};" % (name, arr(der), arr(n.to_bytes(z, "big"))))
open("/verif/harness/src/keys.rs", "w").write("\n".join(out) + "\n")
