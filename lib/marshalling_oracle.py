"""Judges recorded encodings and decodings: the compressed and uncompressed format for bls12-381 (ZCash; appendix C of
draft-irtf-cfrg-pairing-friendly-curves-09) and little-endian fixed-width field elements, over Python integers."""
import vf
from curve_oracle import curve, BAD
from h2c_oracle import is_square, sqrt
from primes_table import P

CURVE = {"g1": "bls12_381_g1", "g2": "bls12_381_g2"}
FIELD = {"bls12_381_fp": ("bls12_381_fq", 1), "bls12_381_fp2": ("bls12_381_fq", 2), "bls12_381_fp12": ("bls12_381_fq", 12),
         "secp256k1": ("secp256k1_fq", 1), "mnt4_298": ("mnt4_fq", 1), "ed25519": ("curve25519_fq", 1), "vesta": ("vesta_fq", 1)}
L = 48


def sign(F, y):
    h = (F.p - 1) // 2
    return y[-1] > h if y[-1] or F.size == 1 else y[0] > h


def coordinate(c):
    return b"".join(x.to_bytes(L, "big") for x in reversed(c))


def encode(F, pt, compressed):
    if pt is None:
        b = bytearray(L * F.size * (1 if compressed else 2))
        b[0] = 0x40
    else:
        b = bytearray(coordinate(pt[0]) + (b"" if compressed else coordinate(pt[1])))
        if compressed and sign(F, pt[1]):
            b[0] |= 0x20
    if compressed:
        b[0] |= 0x80
    return bytes(b)


def decode(C, b):
    """(point or BAD, why)"""
    F = C.F
    top = b[0] & 0xe0
    comp, inf, s = top & 0x80, top & 0x40, bool(top & 0x20)
    if top in (0x20, 0x60, 0xe0):
        return BAD, "flags"
    if len(b) != L * F.size * (1 if comp else 2):
        return BAD, "length"
    b = bytes([b[0] & 0x1f]) + b[1:]
    if inf:
        return (BAD, "infinity with other bits set") if any(b) else (None, "")
    c = [int.from_bytes(b[i:i + L], "big") for i in range(0, len(b), L)]
    if any(x >= F.p for x in c):
        return BAD, "coordinate not below p"
    x = tuple(reversed(c[:F.size]))
    if comp:
        g = F.add(F.mul(F.add(F.mul(x, x), C.c1), x), C.c2)
        if not is_square(F, g):
            return BAD, "no point with this x"
        y = sqrt(F, g)
        if sign(F, y) != s:
            y = F.neg(y)
        if sign(F, y) != s:
            return BAD, "sign"
    else:
        y = tuple(reversed(c[F.size:]))
    return ((x, y), "") if C.on((x, y)) else (BAD, "off the curve")


class MarshallingOracle(vf.Oracle):
    def __init__(self):
        super().__init__()
        self.decoded = {}

    def event(self, f):
        op, a, r = f
        kind, rest = op.split(".", 1)
        if kind in ("fenc", "fdec"):
            return self.field(kind, rest, a, r)
        C = curve(CURVE[rest[:2]])
        F = C.F
        if kind == "enc":
            pt = C.parse("jacobian", a)[0]
            site = "encode." + rest
            if pt is BAD:
                return [(site, "the point to encode is not on the curve: " + a)]
            want = encode(F, pt, "uncompressed" not in rest).hex()
            self.see("enc." + rest, a, pt is not None)
            self.sample("%s %s -> %s" % (op, a, r))
            return [] if r == want else [(site, "%s is encoded as %s, the format gives %s" % (a, r, want))]
        site = "decode." + rest
        if a not in self.decoded:
            self.decoded[a] = decode(C, bytes.fromhex(a))
        want, why = self.decoded[a]
        self.see("dec." + rest, a, want is not None)
        if want is BAD:
            self.see("reject." + why, a, True)
            return [] if r == "rejected" else [(site, "%s (%s) decodes to %s instead of being rejected" % (a, why, r))]
        if r == "rejected":
            # a decoder may insist on the prime-order subgroup
            if want is not None and C.mul_(want, C.r) is not None:
                return []
            return [(site, "%s is the encoding of a point and was rejected" % a)]
        got = C.parse("jacobian", r)[0]
        return [] if got == want else [(site, "%s decodes to %s, another point" % (a, r))]

    def field(self, kind, name, a, r):
        n, dim = FIELD.get(name, (name, 1))
        p = P[n]
        w = (p.bit_length() + 7) // 8
        if kind == "fenc":
            v = [int(x, 16) for x in a.split(",")]
            want = b"".join(x.to_bytes(w, "little") for x in v).hex()
            self.see("fenc." + name, a, any(v))
            return [] if r == want else [("field_element_to_bytes." + name, "%s is encoded as %s, expected %s" % (a, r, want))]
        b = bytes.fromhex(a)
        site = "field_element_from_bytes." + name
        if len(b) != w * dim:
            self.see("fdec.length", a, True)
            return [] if r == "rejected" else [(site, "%d bytes accepted: %s" % (len(b), r))]
        v = [int.from_bytes(b[i:i + w], "little") for i in range(0, len(b), w)]
        ok = all(x < p for x in v)
        self.see("fdec." + name if ok else "fdec.not below p", (name, a), True)
        if not ok:
            return [] if r == "rejected" or r.startswith("0;") else [(site, "%s (not below p) reported as success" % a)]
        if not r.startswith("1;"):
            return [(site, "%s is canonical and was not accepted: %s" % (a, r))]
        got = [int(x, 16) for x in r[2:].split(",")]
        return [] if got == v else [(site, "%s decodes to %s" % (a, r))]
