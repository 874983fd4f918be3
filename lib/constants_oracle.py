"""Judges the constants field types publish against their definitions, over Python integers."""
import vf
from primes_table import P
from tower_oracle import TOWERS, DEPTH, tower, vec


def _atan_inverse(n, bits):
    x = (1 << bits) // n
    s, k, sign = x, 3, -1
    while x:
        x //= n * n
        s, k, sign = s + sign * (x // k), k + 2, -sign
    return s


def _pi(bits):
    return 4 * (4 * _atan_inverse(5, bits + 64) - _atan_inverse(239, bits + 64)) >> 64


def _e(bits):
    t, s, k = 1 << bits + 64, 0, 1
    while t:
        s, t, k = s + t, t // k, k + 1
    return s >> 64


MODP = {1024: 129093, 1536: 741804, 2048: 124476, 3072: 1690314, 4096: 240904, 6144: 929484, 8192: 4743158}
FFDHE = {2048: 560316, 3072: 2625351, 4096: 5736041, 6144: 15705020, 8192: 10965728}
SRP_G = {1024: 2, 1536: 2, 2048: 2, 3072: 5, 4096: 5, 6144: 5, 8192: 19}
_cache = {}


def modulus(field):
    """published modulus; None when only primality is known about it"""
    if field in _cache:
        return _cache[field]
    kind, _, bits = field.partition("_")
    if kind in ("modp", "srp", "ffdhe") and field not in P:
        b = int(bits)
        if kind == "ffdhe":
            r = 2**b - 2**(b - 64) + (_e(b - 130) + FFDHE[b] << 64) - 1
        elif kind == "modp" or b > 2048:
            r = 2**b - 2**(b - 64) - 1 + (_pi(b - 130) + MODP[b] << 64)
        else:
            r = None
    elif field in TOWERS:
        r = TOWERS[field][0]
    else:
        r = P.get(field)
    _cache[field] = r
    return r


def is_prime(n):
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % q == 0:
            return n == q
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in (2, 3, 5) if n.bit_length() > 1500 else range(2, 30):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


_primes = {}


def prime(n):
    if n not in _primes:
        _primes[n] = is_prime(n)
    return _primes[n]


SMALL = [q for q in range(2, 2000) if all(q % d for d in range(2, int(q**0.5) + 1))]


class ConstantsOracle(vf.Oracle):
    def __init__(self):
        super().__init__()
        self.got = {}

    def event(self, f):
        field, kind, where, name, text = f
        self.got.setdefault((field, kind, where), {})[name] = text
        self.sample("%s %s %s %s = %s" % (field, kind, where, name, text[:60]))
        return []

    def finish(self):
        out = []
        for (field, kind, where), c in sorted(self.got.items()):
            for name, bad in sorted(self.judge(field, kind, where, c).items()):
                self.see(name, (field, kind, where), True)
                if bad:
                    out.append(("%s %s %s" % (field, kind, name), "%s::%s = %s: %s" % (where, name, c[name][:200], bad)))
        return out + super().finish()

    def judge(self, field, kind, where, c):
        """constant -> '' or what is wrong"""
        r = {}
        T = tower(field, kind) if field in TOWERS else None
        k = T.size if T else 1
        p = modulus(field)
        have = int(c["modulus"], 16) if "modulus" in c else None
        if p is None:
            p = have

        def say(name, ok, why):
            if name in c:
                r[name] = "" if ok else why

        def num(name):
            return int(c[name], 16)

        def element(text):
            v = vec(text.replace(";", ","))
            return v if T is None else T.pad([x % p for x in v])

        def mul_pow(a, e):
            return [pow(a[0], e, p)] if T is None else T.pow(a, e)

        one = [1] + [0] * (k - 1)
        q = p**k
        if have is not None:
            say("modulus", have == p and prime(p), "not the published prime %x" % p)
        if "modulus_bits" in c:
            say("modulus_bits", num("modulus_bits") == p.bit_length(), "the modulus has %d bits" % p.bit_length())
        if "number_bits" in c:
            say("number_bits", num("number_bits") == p.bit_length(), "the modulus has %d bits" % p.bit_length())
        if "arity" in c:
            say("arity", num("arity") == k, "the degree is %d" % k)
        if "value_bits" in c:
            bits = k * (num("modulus_bits") if "modulus_bits" in c else p.bit_length())
            say("value_bits", num("value_bits") == bits, "expected %d" % bits)
        # extension parameters inherit the prime field's constant unless they state their own
        for name in ("group_order_minus_one_half", "group_order"):
            if name in c:
                say(name, num(name) in ((p - 1) // 2, (q - 1) // 2), "expected %x" % ((q - 1) // 2))
        s, t = 0, q - 1
        while t % 2 == 0:
            s, t = s + 1, t // 2
        if "s" in c:
            say("s", num("s") == s, "expected %x" % s)
        if "t" in c:
            say("t", num("t") == t, "expected %x" % t)
        if "t_minus_1_over_2" in c:
            say("t_minus_1_over_2", num("t_minus_1_over_2") == (t - 1) // 2, "expected %x" % ((t - 1) // 2))
        if "nqr" in c:
            n = element(c["nqr"])
            say("nqr", mul_pow(n, (q - 1) // 2) == [p - 1] + [0] * (k - 1), "a square")
            if "nqr_to_t" in c:
                want = mul_pow(n, t)
                say("nqr_to_t", element(c["nqr_to_t"]) == want, "expected %s" % ";".join("%x" % x for x in want))
        if "root_of_unity" in c:
            w = num("root_of_unity")
            say("root_of_unity", w < p and pow(w, 1 << (s - 1), p) == p - 1, "its order is not 2^%d" % s)
        if "multiplicative_generator" in c:
            g = num("multiplicative_generator")
            bad = [l for l in SMALL if (p - 1) % l == 0 and pow(g, (p - 1) // l, p) == 1]
            say("multiplicative_generator", g % p and not bad, "a power with exponent dividing the group order: %s" % bad)
        if "mul_generator" in c:
            g = num("mul_generator")
            if field.startswith("srp_"):
                say("mul_generator", g == SRP_G[int(field[4:])], "not the published generator")
            elif field.startswith(("modp_", "ffdhe_")):
                say("mul_generator", g == 2, "not the published generator")
            else:
                bad = [l for l in SMALL if (p - 1) % l == 0 and pow(g, (p - 1) // l, p) == 1]
                say("mul_generator", g % p and not bad, "a power with exponent dividing the group order: %s" % bad)
        if "arithmetic_generator" in c:
            say("arithmetic_generator", num("arithmetic_generator") % p, "zero")
        if "geometric_generator" in c:
            g = num("geometric_generator") % p
            say("geometric_generator", g > 1, "generates nothing")
        R = 1 << (p.bit_length() + 63) // 64 * 64
        if "Rsquared" in c:
            say("Rsquared", num("Rsquared") == R * R % p, "expected %x" % (R * R % p))
        if "Rcubed" in c:
            say("Rcubed", num("Rcubed") == R**3 % p, "expected %x" % (R**3 % p))
        if where == "extension":
            levels = TOWERS[field][1]
            depth = DEPTH[kind]
            # the residue a level is stated by: of the prime field, or of fp2 under sextic and dodecic towers
            nr = levels[min(depth, 2) - 1][1] if levels[0][0] == 2 and len(levels) == 3 else levels[0][1]
            if "non_residue" in c:
                say("non_residue", vec(c["non_residue"]) == [x % p for x in nr], "expected %s" % nr)
            if any(n.startswith("Frobenius") for n in c):
                low = tower(field, {v: n for n, v in DEPTH.items() if self.fits(field, n)}[depth - 1]) if depth > 1 else None
                d, beta = levels[depth - 1]
                for name, m in (("Frobenius_coeffs_c1", 1), ("Frobenius_coeffs_c2", 2)):
                    if name not in c:
                        continue
                    flat = vec(c[name].replace(";", ","))
                    n = max(1, len(flat) // k)
                    got = [flat[i:i + n] for i in range(0, len(flat), n)]
                    why = ""
                    for i, g in enumerate(got):
                        e = m * (p**i - 1) // d
                        want = [pow(beta[0], e, p)] if low is None else low.pow([x % p for x in beta], e)
                        g = g + [0] * (len(want) - len(g))
                        if g != want:
                            why = "entry %d should be %s" % (i, want)
                            break
                    if not why and len(got) != k:
                        why = "%d entries for degree %d" % (len(got), k)
                    say(name, not why, why)
        return r

    @staticmethod
    def fits(field, kind):
        sizes = {"fp2": [2], "fp3": [3], "fp4": [2, 2], "fp6_2over3": [3, 2], "fp6_3over2": [2, 3], "fp12": [2, 3, 2]}
        return sizes.get(kind) == [d for d, _ in TOWERS[field][1]][:DEPTH[kind]] and kind != "fp"
