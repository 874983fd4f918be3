"""Offline judge of recorded extension-field operations: naive tower arithmetic over Python integers."""
import vf
from primes_table import P

# published towers: (prime, [(degree, non-residue over the level below, flattened)])
BLS12_381 = (P["bls12_381_fq"], [(2, [-1]), (3, [1, 1]), (2, [0, 0, 1, 0, 0, 0])])
BLS12_377 = (P["bls12_377_fq"], [(2, [-5]), (3, [0, 1]), (2, [0, 0, 1, 0, 0, 0])])
ALT_BN128 = (P["alt_bn128_fq"], [(2, [-1]), (3, [9, 1]), (2, [0, 0, 1, 0, 0, 0])])
BN128 = (P["bn128_fq"], [(2, [-1]), (3, [9, 1]), (2, [0, 0, 1, 0, 0, 0])])
MNT4 = (P["mnt4_fq"], [(2, [17]), (2, [0, 1])])
MNT6 = (P["mnt6_fq"], [(3, [5]), (2, [0, 1, 0])])
EDWARDS = (P["edwards_fq"], [(3, [61]), (2, [0, 1, 0])])
TOWERS = dict(bls12_381=BLS12_381, bls12_377=BLS12_377, alt_bn128=ALT_BN128, bn128=BN128, mnt4=MNT4, mnt6=MNT6, edwards=EDWARDS)
DEPTH = {"fp": 0, "fp2": 1, "fp3": 1, "fp4": 2, "fp6_2over3": 2, "fp6_3over2": 2, "fp12": 3}


class Tower:
    def __init__(self, p, levels):
        self.p, self.up = p, [(d, [x % p for x in nr]) for d, nr in levels]
        self.sizes = [1]
        for d, _ in levels:
            self.sizes.append(self.sizes[-1] * d)
        self.size, self.n = self.sizes[-1], len(levels)
        self.frob = None

    def zero(self):
        return [0] * self.size

    def one(self):
        return [1] + [0] * (self.size - 1)

    def pad(self, a):
        return a + [0] * (self.size - len(a))

    def add(self, a, b):
        return [(x + y) % self.p for x, y in zip(a, b)]

    def sub(self, a, b):
        return [(x - y) % self.p for x, y in zip(a, b)]

    def mul(self, a, b, lv=None):
        lv = self.n if lv is None else lv
        if lv == 0:
            return [a[0] * b[0] % self.p]
        if not any(a) or not any(b):
            return [0] * self.sizes[lv]
        d, nr = self.up[lv - 1]
        m = self.sizes[lv - 1]
        acc = [[0] * m for _ in range(2 * d - 1)]
        for i in range(d):
            for j in range(d):
                acc[i + j] = self.add(acc[i + j], self.mul(a[i * m:i * m + m], b[j * m:j * m + m], lv - 1))
        r = []
        for i in range(d):
            c = acc[i]
            if i + d < len(acc):
                c = self.add(c, self.mul(acc[i + d], nr, lv - 1))
            r += c
        return r

    def pow(self, a, e):
        r = self.one()
        for bit in bin(e)[2:] if e else "":
            r = self.mul(r, r)
            if bit == "1":
                r = self.mul(r, a)
        return r

    def frobenius(self, a, k):
        """a^(p^k), from the images of the basis under one Frobenius (the map is F_p-linear)"""
        if self.frob is None:
            self.frob = []
            for i in range(self.size):
                e = self.zero()
                e[i] = 1
                self.frob.append(self.pow(e, self.p))
        for _ in range(k):
            r = self.zero()
            for x, img in zip(a, self.frob):
                if x:
                    r = [(u + x * v) % self.p for u, v in zip(r, img)]
            a = r
        return a

    def norm(self, a):
        """product of all conjugates: an element of the prime field"""
        acc, c = a, a
        for _ in range(self.size - 1):
            c = self.frobenius(c, 1)
            acc = self.mul(acc, c)
        assert not any(acc[1:])
        return acc[0]

    def is_square(self, a):
        # a is a square in the extension iff its norm is a square in F_p
        n = self.norm(a)
        return n == 0 or pow(n, (self.p - 1) // 2, self.p) == 1

    def inv(self, a):
        acc, c = self.one(), a
        for _ in range(self.size - 1):
            c = self.frobenius(c, 1)
            acc = self.mul(acc, c)
        n = self.mul(acc, a)
        i = pow(n[0], -1, self.p)
        return [x * i % self.p for x in acc]


_made = {}


def tower(name, field):
    k = (name, DEPTH[field])
    if k not in _made:
        p, lv = TOWERS[name]
        _made[k] = Tower(p, lv[:DEPTH[field]])
    return _made[k]


def vec(s):
    return [int(x, 16) for x in s.split(",")] if s else []


def fmt(a):
    return ",".join("%x" % x for x in a)


class TowerOracle(vf.Oracle):
    def event(self, f):
        name, field, op, a, b, r = f
        T = tower(name, field)
        a = vec(a)
        e = b
        b = vec(b)
        r = vec(r)
        one = T.one()
        self.see(op, (name, field, f[3], f[4]), bool(a) and (any(a[1:]) or a[0] > 1))
        if op in ("inv", "unitary_inversed"):
            got, want = T.mul(a, r), one
        elif op == "sqrt":
            got, want = T.mul(r, r), a
        else:
            got = r
            want = {
                "zero": T.zero, "one": T.one,
                "add": lambda: T.add(a, b), "sub": lambda: T.sub(a, b), "mul": lambda: T.mul(a, b),
                "scale": lambda: T.mul(a, T.pad(b)), "neg": lambda: T.sub(T.zero(), a), "dbl": lambda: T.add(a, a),
                "sqr": lambda: T.mul(a, a), "cyclotomic_squared": lambda: T.mul(a, a),
                "pow": lambda: T.pow(a, int(e, 16)), "cyclotomic_exp": lambda: T.pow(a, int(e, 16)),
                "frobenius": lambda: T.frobenius(a, int(e, 16)), "kept": lambda: b,
                "eq": lambda: [int(a == b)], "is_zero": lambda: [int(not any(a))], "is_one": lambda: [int(a == one)],
                "is_square": lambda: [int(T.is_square(a))],
            }[op]()
        self.sample("%s %s %s %s %s = %s" % (name, field, op, f[3][:60], f[4][:60], f[5][:60]))
        if got != want:
            return [(op, "%s %s: %s(%s ; %s) gave %s, %s expected" % (name, field, op, f[3], f[4], f[5],
                     "%s multiplied back, %s" % (fmt(got), fmt(want)) if op in ("inv", "sqrt", "unitary_inversed") else fmt(want)))]
        return []
