"""Offline judge of recorded prime-field operations: integers modulo the published modulus."""
import vf
from primes_table import P
EXPECT = {
    "zero": lambda a, b, p: 0, "one": lambda a, b, p: 1, "default_assigned": lambda a, b, p: 1,
    "from_integral": lambda a, b, p: a, "from_u64": lambda a, b, p: a % p,
    "add": lambda a, b, p: (a + b) % p, "sub": lambda a, b, p: (a - b) % p, "mul": lambda a, b, p: a * b % p,
    "neg": lambda a, b, p: -a % p, "dbl": lambda a, b, p: 2 * a % p, "sqr": lambda a, b, p: a * a % p,
    "inc": lambda a, b, p: (a + 1) % p, "keep_inc": lambda a, b, p: (a + 1) % p, "dec": lambda a, b, p: (a - 1) % p,
    "eq": lambda a, b, p: int(a == b), "ne": lambda a, b, p: int(a != b), "lt": lambda a, b, p: int(a < b),
    "gt": lambda a, b, p: int(a > b), "le": lambda a, b, p: int(a <= b), "ge": lambda a, b, p: int(a >= b),
    "is_zero": lambda a, b, p: int(a == 0), "is_one": lambda a, b, p: int(a == 1),
    "inv": lambda a, b, p: pow(a, -1, p), "pow": lambda a, b, p: pow(a, b, p),
    "is_square": lambda a, b, p: int(a == 0 or pow(a, (p - 1) // 2, p) == 1),
    "modulus": lambda a, b, p: p, "element_modulus": lambda a, b, p: p,
}


class FpOracle(vf.Oracle):
    def event(self, f):
        name, op, a, b, r = f
        p = P[name]
        if op == "modulus_bits":
            self.see(op, name)
            return [] if int(r) >= p.bit_length() else [("modulus_bits", "%s: %s bits cannot hold the modulus" % (name, r))]
        a, b, r = int(a, 16), int(b, 16), int(r, 16)
        self.see(op, (name, a, b), a > 1 or b > 1)
        if op == "sqrt":
            want = a
            r2, bad = r, r * r % p != a
            if bad:
                return [("sqrt", "%s: sqrt(%x) gave %x whose square is %x" % (name, a, r2, r * r % p))]
            return []
        want = EXPECT[op](a, b, p)
        self.sample("%s %s %x %x = %x" % (name, op, a, b, r))
        if r != want:
            return [(op, "%s: %s(%x, %x) gave %x expected %x" % (name, op, a, b, r, want))]
        return []
