import os
import vf
from curve_units import SHIM
def inc(d):
    return [os.path.join(vf.VERIF, "harness", d)]
def units(tier):
    def unit(name, part, *defs, **kw):
        return vf.Unit(name, "c29_threads.cpp", ["PART=%d" % part] + list(defs), san=vf.TSAN, libs=kw.pop("libs", []) + ["-pthread"], **dict({"opt": "-O0"}, **kw))
    groups = [3, 5, 8, 13, 14] if tier == "quick" else list(range(15))
    return [unit("linear", 0), unit("mixed", 1)] + [unit("curve%d" % g, 1, "GROUP=%d" % g) for g in groups] + \
           [unit("sums", 2, opt="-O1"), unit("bytes", 3, inc=inc("stubs_pack"), libs=["-lboost_random"]), unit("primes", 4, inc=inc("stubs_primes"), shim=False, libs=["-lboost_random"]), unit("hash_to_curve", 5, inc=inc("stubs_h2c"))] + \
           [unit("pairing_" + c, 10 + i) for i, c in enumerate(["bls12_381", "mnt4", "mnt6", "edwards"])]
def run():
    return vf.main("C29", units, "six threads running every listed operation on shared constant inputs, at first use together and then in seeded mixed orders, under ThreadSanitizer; each thread's results are compared with those "
                   "of a single thread afterwards; non-trivial: every comparison",
                   assumptions=[SHIM, "the multiprecision backend itself is a stand-in and free of shared state", "ThreadSanitizer judges executed accesses by happens-before, within its bounded access history"])
