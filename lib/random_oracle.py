"""Judges recorded random points: members of the prime-order subgroup, fixed by the generator's state, and varying."""
import vf
from curve_oracle import curve, BAD


class RandomOracle(vf.Oracle):
    def __init__(self):
        super().__init__()
        self.drawn = set()

    def event(self, f):
        name, coords, a, b = f
        C = curve(name)
        p = C.parse(coords, a)[0]
        q = C.parse(coords, b)[0]
        site = "random point of " + name
        self.see("point", (name, a), True)
        self.sample("%s %s %s" % (name, coords, a))
        if p is BAD:
            return [(site, "not on the curve: " + a)]
        if p != q:
            return [(site, "equal generators gave %s and %s" % (a, b))]
        if C.mul_(p, C.r) is not None:
            return [(site, "outside the subgroup of prime order: " + a)]
        if (name, p) in self.drawn:
            return [(site, "drawn twice: " + a)]
        self.drawn.add((name, p))
        return []
