import vf
def units(tier):
    types = ["double", "float", "int", "unsigned", "std::uint64_t", "long", "std::complex<double>"]
    return [vf.Unit("el_%d" % i, "c01_elementwise.cpp", ["ETYPE=" + t], shim=False) for i, t in enumerate(types)]
def run():
    return vf.main("C01", units, "seeded random containers of 11 shapes x 7 element types with ordinary, extreme and NaN/inf values; each operator's result is compared "
                   "position by position with the scalar operation; a case is non-trivial when the container has more than one position", 
                   assumptions=["sign of zero and NaN payloads are not distinguished", "element values avoid signed integer overflow"])
