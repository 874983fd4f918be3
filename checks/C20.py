import vf
from curve_units import SHIM, identities
from multiexp_oracle import MultiexpOracle
def units(tier):
    return identities([vf.Unit("p%d" % p, "c20_multiexp.cpp", ["MODE=20", "PART=%d" % p], opt="-O1" if p < 2 else "-O0", oracle=None if p < 2 else MultiexpOracle) for p in range(9)], tier)
def run():
    return vf.main("C20", units, "each policy's result over the additive group Z_(2^61-1) (lists up to 20000), tiny curves (exhaustive short lists) and seven predefined curves, judged against the sum of scalar*point; "
                   "non-trivial: the sum is not the identity",
                   exhaustive="every list of at most one point/scalar pair (two, thorough) over five tiny groups",
                   assumptions=[SHIM, "chunk counts from 1 on; scalars and points lists of equal length"], quick_memcheck=("p7",))
