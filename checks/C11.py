import vf
from curve_units import SHIM
from constants_oracle import ConstantsOracle
def units(tier):
    return [vf.Unit("part_%d" % p, "c11_constants.cpp", ["PART=%d" % p], opt="-O0", oracle=ConstantsOracle) for p in [40, 41, 42, 43, 0, 1, 2, 3, 4, 5, 6, 7, 20, 21, 22, 23, 30, 31]]
def run():
    return vf.main("C11", units, "every constant of every field type, its params, arithmetic parameters and extension policy, read from the running program and judged against its definition over Python integers and the published "
                   "moduli; each (type, constant) counts once", exhaustive="all constants of every field that compiles", assumptions=[SHIM, "the odd-order part of multiplicative generators is tested for prime factors below 2000"])
