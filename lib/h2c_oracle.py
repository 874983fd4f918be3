"""Judges recorded map-to-curve values: the map of RFC 9380 for the bls12-381 suites over Python integers.

The reference reproduces the published hash_to_curve vectors (checked by selfcheck on every run)."""
import hashlib
import vf
from curve_oracle import curve
from h2c_table import ISO, SWU, H_EFF, EMPTY


def power(F, a, e):
    r = F.one
    for b in bin(e)[2:]:
        r = F.mul(r, r)
        if b == "1":
            r = F.mul(r, a)
    return r


def is_square(F, a):
    return a == F.zero or power(F, a, (F.p ** F.size - 1) // 2) == F.one


def sqrt(F, a):
    """p = 3 mod 4; a is a square"""
    p = F.p
    s = lambda n: pow(n, (p + 1) // 4, p)
    ok = lambda n: pow(n, (p - 1) // 2, p) in (0, 1)
    if F.size == 1:
        return (s(a[0]),)
    if a[1] == 0:
        return (s(a[0]), 0) if ok(a[0]) else (0, s(-a[0] % p))
    n = s((a[0] * a[0] + a[1] * a[1]) % p)
    h = (a[0] + n) * pow(2, -1, p) % p
    if not ok(h):
        h = (a[0] - n) * pow(2, -1, p) % p
    x = s(h)
    return (x, a[1] * pow(2 * x, -1, p) % p)


def sgn0(a):
    sign, zero = 0, 1
    for x in a:
        sign |= zero & (x & 1)
        zero &= int(x == 0)
    return sign


def params(name):
    F = curve(name).F
    return (F,) + tuple(tuple(x % F.p for x in v) for v in SWU[name])


def curve_rhs(name, x):
    F, A, B, Z = params(name)
    return F.add(F.mul(F.add(F.mul(x, x), A), x), B)


def swu(name, u):
    F, A, B, Z = params(name)
    zu = F.mul(Z, F.mul(u, u))
    t = F.add(F.mul(zu, zu), zu)
    x = F.div(B, F.mul(Z, A)) if t == F.zero else F.mul(F.div(F.neg(B), A), F.add(F.one, F.inv(t)))
    g = curve_rhs(name, x)
    if not is_square(F, g):
        x = F.mul(zu, x)
        g = curve_rhs(name, x)
    y = sqrt(F, g)
    assert F.mul(y, y) == g
    return (x, y if sgn0(y) == sgn0(u) else F.neg(y))


def horner(F, co, x, monic=False):
    r = F.one if monic else F.zero
    for c in reversed(co):
        r = F.add(F.mul(r, x), c)
    return r


def iso(name, pt):
    """None when a denominator vanishes: the identity"""
    F = curve(name).F
    I = ISO[name]
    x, y = pt
    xd, yd = horner(F, I["x_den"], x, True), horner(F, I["y_den"], x, True)
    if xd == F.zero or yd == F.zero:
        return None
    return (F.div(horner(F, I["x_num"], x), xd), F.mul(y, F.div(horner(F, I["y_num"], x), yd)))


def fields(name, msg, count):
    """hash_to_field with expand_message_xmd and SHA-256"""
    F = curve(name).F
    dst = b"QUUX-V01-CS02-with-BLS12381G%s_XMD:SHA-256_SSWU_RO_" % name[-1].encode()
    dst += bytes([len(dst)])
    n = count * F.size * 64
    b0 = hashlib.sha256(bytes(64) + msg + n.to_bytes(2, "big") + b"\0" + dst).digest()
    b, out = hashlib.sha256(b0 + b"\1" + dst).digest(), b""
    i = 1
    while len(out) < n:
        out += b
        i += 1
        b = hashlib.sha256(bytes(x ^ y for x, y in zip(b0, b)) + bytes([i]) + dst).digest()
    e = [int.from_bytes(out[k:k + 64], "big") % F.p for k in range(0, n, 64)]
    return [tuple(e[k:k + F.size]) for k in range(0, len(e), F.size)]


def hash_to_curve(name, msg):
    C = curve(name)
    r = None
    for u in fields(name, msg, 2):
        r = C.add(r, iso(name, swu(name, u)))
    return C.mul_(r, H_EFF[name])


class H2cOracle(vf.Oracle):
    def __init__(self):
        super().__init__()
        self.maps, self.checked = {}, set()

    def affine(self, F, s):
        """a recorded jacobian triple on the isogenous or target curve"""
        X, Y, Z = [F.raw(c) for c in s.split(";")]
        if Z == F.zero:
            return None
        i = F.inv(Z)
        i2 = F.mul(i, i)
        return (F.mul(X, i2), F.mul(Y, F.mul(i2, i)))

    def event(self, f):
        name, op, a, r = f
        C = curve(name)
        F = C.F
        got = self.affine(F, r)
        if op == "iso":
            want = iso(name, self.affine(F, a))
        else:
            u = F(a)
            q = swu(name, u)
            want = q if op == "swu" else iso(name, q)
            if op == "map":
                self.maps[name, u] = got
        self.see(op, (name, a), a not in ("0", "0,0"))
        self.sample("%s %s %s -> %s" % (name, op, a, r))
        if got == want:
            return []
        if op == "swu":
            x, y = got or (F.zero, F.one)
            kind = "off the isogenous curve" if F.mul(y, y) != curve_rhs(name, x) else "another point" if x != want[0] else "wrong sign"
        else:
            kind = "the identity was expected" if want is None else "off the curve" if not C.on(got) else "another point"
        return [("%s %s%s" % (name, op, " kernel" if want is None else ""), "%s: %s(%s) recorded %s expected %s" % (kind, op, a, r, want))]

    def finish(self):
        """the published test vector out of the recorded maps"""
        out = []
        for name in sorted({n for n, _ in self.maps}):
            us = fields(name, b"", 2)
            assert hash_to_curve(name, b"") == EMPTY[name], "the reference is wrong"
            q = [self.maps.get((name, u), "missing") for u in us]
            if "missing" in q:
                out.append(("%s vector" % name, "the vector's inputs were not recorded"))
                continue
            C = curve(name)
            self.see("published_vector", (name, "vector"), True)
            s = C.add(*q) if all(C.on(x) for x in q) else None
            if s is None or C.mul_(s, H_EFF[name]) != EMPTY[name]:
                out.append(("%s vector" % name, "hash_to_curve of the empty message is not the published point"))
        return out + super().finish()
