"""Offline judge of recorded curve operations: naive affine group laws over Python integers."""
import vf
from primes_table import P
from curves_table import CURVES
from tower_oracle import Tower, TOWERS, DEPTH, vec, fmt

BAD = "not a point"


class Field:
    """elements are tuples of coordinates"""
    def __init__(self, where):
        name, field = where
        if field == "fp":
            self.p, self.T, self.size = P[name], None, 1
        else:
            p, lv = TOWERS[name]
            self.p, self.T = p, Tower(p, lv[:DEPTH[field]])
            self.size = self.T.size
        self.zero = (0,) * self.size
        self.one = (1,) + (0,) * (self.size - 1)

    def __call__(self, s):
        v = vec(s) if isinstance(s, str) else [s]
        assert len(v) <= self.size
        return tuple(x % self.p for x in v) + (0,) * (self.size - len(v))

    def raw(self, s):
        """coordinates as recorded; None unless canonical"""
        v = vec(s)
        return tuple(v) if len(v) == self.size and all(0 <= x < self.p for x in v) else None

    def add(self, a, b):
        return tuple((x + y) % self.p for x, y in zip(a, b))

    def sub(self, a, b):
        return tuple((x - y) % self.p for x, y in zip(a, b))

    def neg(self, a):
        return tuple(-x % self.p for x in a)

    def mul(self, a, b):
        return (a[0] * b[0] % self.p,) if self.T is None else tuple(self.T.mul(list(a), list(b)))

    def inv(self, a):
        return (pow(a[0], -1, self.p),) if self.T is None else tuple(self.T.inv(list(a)))

    def div(self, a, b):
        return self.mul(a, self.inv(b))

    def times(self, k, a):
        return tuple(k * x % self.p for x in a)


class Curve:
    """points are None (identity) or (x, y)"""
    def __init__(self, name):
        self.name = name
        self.model, where, c1, c2, gx, gy, r = CURVES[name]
        self.F = F = Field(where)
        self.c1, self.c2, self.r = F(c1), F(c2), int(r, 16)
        self.G = (F(gx), F(gy))
        self.ratio = None
        self.muls = {}

    def on(self, p):
        if p is None:
            return True
        F = self.F
        x, y = p
        xx, yy = F.mul(x, x), F.mul(y, y)
        if self.model == "weierstrass":
            return yy == F.add(F.mul(F.add(xx, self.c1), x), self.c2)
        if self.model == "twisted":
            return F.add(F.mul(self.c1, xx), yy) == F.add(F.one, F.mul(self.c2, F.mul(xx, yy)))
        return F.mul(self.c2, yy) == F.mul(F.add(F.add(xx, F.mul(self.c1, x)), F.one), x)

    def canon(self, p):
        if self.model == "twisted" and p == (self.F.zero, self.F.one):
            return None
        return p

    def neg(self, p):
        if p is None:
            return None
        F = self.F
        return self.canon((F.neg(p[0]), p[1]) if self.model == "twisted" else (p[0], F.neg(p[1])))

    def add(self, p, q):
        F = self.F
        if p is None:
            return q
        if q is None:
            return p
        (x1, y1), (x2, y2) = p, q
        if self.model == "twisted":
            xy, yx, xx, yy = F.mul(x1, y2), F.mul(y1, x2), F.mul(x1, x2), F.mul(y1, y2)
            t = F.mul(self.c2, F.mul(xx, yy))
            return self.canon((F.div(F.add(xy, yx), F.add(F.one, t)), F.div(F.sub(yy, F.mul(self.c1, xx)), F.sub(F.one, t))))
        if x1 == x2:
            if F.add(y1, y2) == F.zero:
                return None
            xx = F.mul(x1, x1)
            if self.model == "weierstrass":
                l = F.div(F.add(F.times(3, xx), self.c1), F.times(2, y1))
            else:
                l = F.div(F.add(F.add(F.times(3, xx), F.times(2, F.mul(self.c1, x1))), F.one), F.times(2, F.mul(self.c2, y1)))
        else:
            l = F.div(F.sub(y2, y1), F.sub(x2, x1))
        ll = F.mul(l, l)
        if self.model == "montgomery":
            ll = F.sub(F.mul(self.c2, ll), self.c1)
        x3 = F.sub(F.sub(ll, x1), x2)
        return (x3, F.sub(F.mul(l, F.sub(x1, x3)), y1))

    def mul(self, p, k):
        if (p, k) not in self.muls:
            self.muls[p, k] = self.mul_(p, k)
        return self.muls[p, k]

    def mul_(self, p, k):
        r = None
        for bit in bin(k)[2:] if k else "":
            r = self.add(r, r)
            if bit == "1":
                r = self.add(r, p)
        return r

    def parse(self, coords, s):
        """recorded coordinates to point, or BAD; second value: the tuple solves the curve equation"""
        F = self.F
        if s == "O":
            return None, True
        c = [F.raw(x) for x in s.split(";")]
        if any(x is None for x in c) or len(c) != {"affine": 2, "montgomery": 2, "extended": 4}.get(coords, 3):
            return BAD, False
        z = F.zero
        if len(c) == 2:
            pt = self.canon((c[0], c[1]))
            return (pt, True) if self.on(pt) else (BAD, False)
        X, Y, Z = c[0], c[1], c[-1]
        if coords == "inverted":
            if Y == z and Z == z:
                return None, True
            if X == z or Y == z or Z == z:
                return BAD, None
            pt = (F.div(Z, X), F.div(Z, Y))
        elif coords == "extended":
            if Z == z:
                return BAD, False
            if F.mul(X, Y) != F.mul(c[2], Z):
                return BAD, False
            i = F.inv(Z)
            pt = (F.mul(X, i), F.mul(Y, i))
        else:
            if Z == z:
                # the identity: (0:0:0) by convention, or the point at infinity of the equation; other tuples with
                # Z = 0 count as the identity in is_zero and are not judged by is_well_formed (None)
                if coords.startswith("jacobian"):
                    return None, True if F.mul(Y, Y) == F.mul(X, F.mul(X, X)) else None
                return None, X == z
            i = F.inv(Z)
            i2 = F.mul(i, i)
            pt = (F.mul(X, i2), F.mul(Y, F.mul(i2, i))) if coords.startswith("jacobian") else (F.mul(X, i), F.mul(Y, i))
        pt = self.canon(pt)
        return (pt, True) if self.on(pt) else (BAD, False)


_made = {}


def curve(name):
    if name not in _made:
        _made[name] = Curve(name)
    return _made[name]


def other(name):
    return name[:-2] if name.endswith("_m") else name + "_m"


class CurveOracle(vf.Oracle):
    def __init__(self):
        super().__init__()
        self.ones = {}

    def event(self, f):
        name, coords, op, a, b, r = f
        C = curve(name)
        F = C.F
        site = "%s %s %s" % (name, coords, op)
        key = (name, coords, a, b)

        def bad(msg):
            return [(site, "%s: %s(%s%s) recorded %s" % (msg, op, a, ", " + b if b else "", r))]

        if op in ("zero", "default"):
            self.see(op, (name, coords), True)
            return [] if C.parse(coords, r)[0] is None else bad("not the identity")
        if op == "zero_is_zero":
            self.see(op, (name, coords), True)
            return [] if r == "1" else bad("zero() is not zero")
        if op == "one":
            self.see(op, (name, coords), True)
            p = C.parse(coords, r)[0]
            out = []
            if p is BAD or p is None:
                return bad("generator is not a point of the curve")
            if p != C.G:
                out += bad("generator is not the published one")
            if C.mul(p, C.r) is not None:
                out += bad("generator does not have the declared order")
            return out
        if op == "scalar_modulus":
            self.see(op, (name, coords), True)
            return [] if int(r, 16) == C.r and is_prime(C.r) else bad("scalar field modulus is not the prime group order")
        if op == "coefficients":
            self.see(op, (name, coords), True)
            return [] if (F(a), F(b)) == (C.c1, C.c2) else bad("curve coefficients are not the published ones")
        p, wf = C.parse(coords, a)
        if op == "is_well_formed":
            if wf is None:
                return []
            self.see(op, key, not wf)
            self.see("well_formed" if wf else "malformed", key, True)
            return [] if (r == "1") == wf else bad("should be %d" % wf)
        if op == "to_twisted":
            D = curve(other(name))
            if p is None:
                return []
            self.see(op, key, True)
            q = D.parse("affine", b)[0]
            if q is BAD:
                return bad("not a point of the twisted Edwards curve")
            return [] if r == a else bad("does not convert back")
        if op == "normal":
            self.see(op, key, p is not None)
            return [] if F.raw(b) == F.one and (p is None or F.raw(r) == F.one) else bad("not normalised")
        if op == "montgomery_sum":
            M = curve(other(name))
            m1, m2, m3 = (M.parse("montgomery", s)[0] for s in (a, b, r))
            if BAD in (m1, m2, m3):
                return bad("not a point of the montgomery curve")
            if m1 is None or m2 is None or m3 is None:
                self.see(op, key, False)
            else:
                self.see(op, key, True)
            return [] if M.add(m1, m2) == m3 else bad("the map is not a homomorphism")
        if p is BAD:
            return bad("operand is not a point")
        self.see(op, key, p is not None)
        if op == "is_zero":
            return [] if (r == "1") == (p is None) else bad("should be %d" % (p is None))
        if op in ("eq", "ne"):
            q = C.parse(coords, b)[0]
            want = (p == q) == (op == "eq")
            return [] if (r == "1") == want else bad("should be %d" % want)
        if op == "to_montgomery":
            M = curve(other(name))
            m = M.parse("montgomery", b)[0]
            if p is None:
                return [] if m is None and r == "O" else bad("identity does not map to identity")
            if m is BAD or m is None:
                return bad("not a point of the montgomery curve")
            x, y = p
            u = F.div(F.add(F.one, y), F.sub(F.one, y))
            ratio = F.div(F.mul(m[1], x), u)
            if C.ratio is None:
                C.ratio = ratio
            if m[0] != u or ratio != C.ratio:
                return bad("not the birational map")
            return [] if r == a else bad("does not convert back")
        if op.startswith("same:"):
            if r == "O":
                got = None
            else:
                got = C.parse(op[5:], b)[0]
            return [] if got == p else bad("not the same point")
        if op == "mul":
            want = C.mul(p, int(b, 16))
            got = C.parse(coords, r)[0]
            return [] if got == want else bad("expected %s" % show(want))
        if op == "neg":
            want = C.neg(p)
        elif op == "dbl":
            want = C.add(p, p)
        else:
            q = C.parse(coords, b)[0]
            if q is BAD:
                return bad("operand is not a point")
            want = C.add(p, q if op == "add" else C.neg(q))
        got = C.parse(coords, r)[0]
        return [] if got == want else bad("expected %s" % show(want))


def show(p):
    return "O" if p is None else "(%s; %s)" % (fmt(p[0]), fmt(p[1]))


def is_prime(n):
    if n < 2 or any(n % q == 0 and n != q for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37)):
        return False
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43):
        if a % n == 0:
            continue
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True
