import vf
def units(tier):
    types = ["double", "float", "int", "unsigned", "long", "std::complex<double>"]
    return [vf.Unit("red_%d" % i, "c03_reduce.cpp", ["ETYPE=" + t], shim=False) for i, t in enumerate(types)]
def run():
    return vf.main("C03", units, "seeded random vectors (with forced ties and all-negative data) and non-square matrices x 6 element types; every result entry is compared with its defining "
                   "sum computed independently (exactly for integers and integer-valued floats, within rounding otherwise); non-trivial: more than one term",
                   assumptions=["floating-point tolerance 4(n+4) epsilon of the sum of magnitudes", "signed integers stay in range"])
