#!/usr/bin/env python3
"""Self-test of the machinery (offline): the toolchain works and the boost::multiprecision stand-in agrees with Python integers."""
import os, subprocess, sys, tempfile
from math import gcd, isqrt
V = os.environ.get("VERIF_HOME") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def expect(f):
    w, op, a, b = int(f[0]), f[1], int(f[2], 16), int(f[3], 16)
    m = (1 << w) - 1
    if len(f) == 6:
        p = int(f[5], 16)
        if op == "minv":
            return pow(a, -1, p) if a % p else 0
        if op == "mdiv":
            return a * pow(b, -1, p) % p if b % p else 0
        return {"madd": lambda: (a + b) % p, "msub": lambda: (a - b) % p, "mmul": lambda: a * b % p, "mneg": lambda: -a % p,
                "mpow": lambda: pow(a, b, p), "mid": lambda: a % p, "minc": lambda: (a + 1) % p, "mb": lambda: b % p,
                "mpow3": lambda: pow(a, 3, p), "mdivself": lambda: 1 if a % p else 0}[op]()
    if op == "invab":
        return pow(a, -1, b) if b > 1 and gcd(a, b) == 1 else 0
    return {"add": lambda: (a + b) & m, "sub": lambda: (a - b) & m, "mul": lambda: a * b & m, "div": lambda: a // b, "mod": lambda: a % b,
            "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b, "not": lambda: ~a & m, "shl": lambda: a << b & m, "shr": lambda: a >> b,
            "gcd": lambda: gcd(a, b), "parse": lambda: a, "lit": lambda: a, "wide": lambda: a * b & ((1 << 2 * w) - 1),
            "narrow": lambda: a * b & m, "import": lambda: a, "inc": lambda: (a + 1) & m, "dec1": lambda: (a - 1) & m,
            "plus7": lambda: (a + 7) & m, "minus2": lambda: (a - 2) & m, "isqrt": lambda: isqrt(a), "lcmw": lambda: a * b // gcd(a, b),
            "pow3": lambda: a**3 & m, "pow70": lambda: pow(a, 70, m + 1), "powmab": lambda: pow(a, a, b), "powm9": lambda: pow(a, 9, b),
            "same_b": lambda: b, "narrow_a": lambda: a, "set3": lambda: a | 8, "unset3": lambda: a & ~8, "fliptop": lambda: a ^ 1 << w - 1}[op]()


def agrees(f):
    w, op, a, b, r = int(f[0]), f[1], int(f[2], 16), int(f[3], 16), f[4]
    if op == "meq":
        p = int(f[5], 16)
        return int(r) == ((a - b) % p == 0) + 2
    if op == "msqrt":
        p, x = int(f[5], 16), int(r, 16)
        return x * x % p == a % p if pow(a, (p - 1) // 2, p) == 1 else x == 0
    if op == "cmp":
        return int(r) == (a < b) + 2 * (a == b) + 4 * (a > b) + 8 * (a <= b) + 16 * (a >= b) + 32 * (a != b)
    if op in ("bit", "msb", "dec", "u64", "lsb", "mod97"):
        return int(r) == {"bit": lambda: a >> b & 1, "msb": lambda: a.bit_length() - 1, "dec": lambda: a, "u64": lambda: a & (1 << 64) - 1,
                           "lsb": lambda: (a & -a).bit_length() - 1, "mod97": lambda: a % 97}[op]()
    if op == "export":
        return int(r, 16) == a and len(r) == 2 * max(1, (a.bit_length() + 7) // 8)
    if op.startswith("wnaf"):
        d, k = [int(x) for x in r.split(",") if x], int(op[4:])
        nz = [i for i, x in enumerate(d) if x]
        return (sum(x << i for i, x in enumerate(d)) == a and all(x % 2 and abs(x) < 1 << k for x in d if x)
                and all(j - i > k for i, j in zip(nz, nz[1:])))
    return int(r, 16) == expect(f)


def main():
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ops = {}
    with tempfile.TemporaryDirectory(prefix="verif_setup_") as d:
        exe = os.path.join(d, "selftest")
        r = subprocess.run(["clang++-18", "-std=c++17", "-w", "-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                            "-I", os.path.join(V, "shim"), os.path.join(V, "harness", "shim_selftest.cpp"), "-o", exe])
        if r.returncode:
            sys.exit("setup: the self-test does not compile")
        for seed in ("1", "2", "3"):
            r = subprocess.run([exe, seed], stdout=subprocess.PIPE, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
            if r.returncode:
                sys.exit("setup: the self-test ended with %d" % r.returncode)
            for l in r.stdout.decode().splitlines():
                f = l.split(" ")
                if not agrees(f):
                    sys.exit("setup: the stand-in disagrees with Python: " + l)
                ops[f[1]] = ops.get(f[1], 0) + 1
    print("setup: the stand-in agrees with Python integers on", sum(ops.values()), "results of", len(ops), "operations")


main()
