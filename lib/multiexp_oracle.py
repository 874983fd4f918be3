"""Judges recorded multi-exponentiations: bases are named by their multiple of the generator."""
from curve_oracle import CurveOracle, curve, BAD


class MultiexpOracle(CurveOracle):
    def event(self, f):
        name, coords, op, ks, ss, r = f
        C = curve(name)
        log = sum(int(k) * int(s, 16) for k, s in zip(ks.split(","), ss.split(","))) % C.r if ks else 0
        got = C.parse(coords, r)[0]
        self.see(op, (name, ks, ss), log != 0)
        self.sample("%s %s of %s with scalars %s" % (name, op, ks or "nothing", ss[:80]))
        want = C.mul(C.G, log)
        if got is BAD or got != want:
            return [("%s %s" % (name, op), "bases %s times the generator, scalars %s: recorded %s" % (ks, ss, r))]
        return []
