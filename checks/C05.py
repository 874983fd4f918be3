import vf
def units(tier):
    return [vf.Unit("scalar_%d" % p, "c05_scalar.cpp", ["PART=%d" % p], shim=False) for p in range(3)]
def run():
    return vf.main("C05", units, "seeded random and special arguments (zero, subnormal, huge, infinite, NaN, extreme exponents) of each scalar function, judged against 80-bit libm "
                   "within a few ulp under a CPU-time watchdog per call; non-trivial: argument is not 0 or 1",
                   assumptions=["nthroot degrees 1..1000", "glibc long double functions as reference"])
