"""Judges recorded final exponentiations: x^(c (q^k-1)/r) by plain powers over Python integers."""
import vf
from curves_table import CURVES
from tower_oracle import tower, vec, fmt

# curve: (tower field, k, easy part as [(power of Frobenius, exponent of that conjugate)...] steps, cofactor c)
KINDS = {
    "bls12_381": ("fp12", 12, [[(6, 1), (0, -1)], [(2, 1), (0, 1)]], lambda q: q**4 - q**2 + 1, 3),
    "mnt4": ("fp4", 4, [[(2, 1), (0, -1)]], lambda q: q**2 + 1, 1),
    "mnt6": ("fp6_2over3", 6, [[(3, 1), (0, -1)], [(1, 1), (0, 1)]], lambda q: q**2 - q + 1, 1),
    "edwards": ("fp6_2over3", 6, [[(3, 1), (0, -1)], [(1, 1), (0, 1)]], lambda q: q**2 - q + 1, 1),
}
GROUP = {"bls12_381": "bls12_381_g1", "mnt4": "mnt4_g1", "mnt6": "mnt6_g1", "edwards": "edwards"}


def final(name, x):
    field, k, easy, hard, c = KINDS[name]
    T = tower(name, field)
    r = int(CURVES[GROUP[name]][6], 16)
    q = T.p
    for step in easy:
        y = T.one()
        for f, s in step:
            t = T.frobenius(x, f)
            y = T.mul(y, t if s > 0 else T.inv(t))
        x = y
    assert hard(q) % r == 0
    e = c * hard(q) // r
    digits = []
    while e:
        digits.append(e % q)
        e //= q
    conj = [T.frobenius(x, i) for i in range(len(digits))]
    y = T.one()
    for bit in range(max(d.bit_length() for d in digits) - 1, -1, -1):
        y = T.mul(y, y)
        for d, z in zip(digits, conj):
            if d >> bit & 1:
                y = T.mul(y, z)
    return y


class PairingOracle(vf.Oracle):
    def event(self, f):
        name, op, a, r = f
        self.see(op, (name, a), True)
        want = final(name, vec(a))
        self.sample("%s %s of %s..." % (name, op, a[:60]))
        if vec(r) != want:
            return [("%s %s" % (name, op), "of %s recorded %s expected %s" % (a, r, fmt(want)))]
        return []
