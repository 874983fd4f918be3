import vf
from fp_oracle import FpOracle
def units(tier):
    return [vf.Unit("small_%d" % p, "c07_small.cpp", ["PART=%d" % p]) for p in range(3)] + \
           [vf.Unit("trace_%d" % g, "c07_trace.cpp", ["GROUP=%d" % g], oracle=FpOracle, opt="-O0") for g in range(9 if tier == "thorough" else 8)]
def run():
    return vf.main("C07", units, "every element pair of ten tiny prime fields for every operation, judged in process; seeded random and edge pairs of 52 predefined fields, recorded "
                   "and judged offline with Python integers and an independent table of moduli; non-trivial: an operand is neither 0 nor 1",
                   exhaustive="all pairs of elements of F_p for p in 3,5,7,13,17,31,61,97,127,257",
                   assumptions=["modular arithmetic backend is the stand-in in shim/"], quick_memcheck=("trace_7",))
