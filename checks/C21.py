import vf
from curve_units import SHIM, identities
from multiexp_oracle import MultiexpOracle
def units(tier):
    return identities([vf.Unit("p%d" % p, "c20_multiexp.cpp", ["MODE=21", "PART=%d" % p], opt="-O1" if p < 2 else "-O0", oracle=None if p < 2 else MultiexpOracle) for p in range(9)] +
                      [vf.Unit("p0_lowmem", "c20_multiexp.cpp", ["MODE=21", "PART=0", "LOWMEM"])], tier)
def run():
    return vf.main("C21", units, "wNAF exponentiation (windows 1..18) and fixed-base window tables (windows 1..18, every entry), windowed_exp, batch_exp and batch_exp_with_coeff, over Z_(2^61-1), tiny curves exhaustively "
                   "and seven predefined curves with their own window tables, judged against scalar*base; non-trivial: the result is not the identity",
                   exhaustive="every base and every scalar up to past the order on five tiny groups",
                   assumptions=[SHIM, "scalars below 2^scalar_size, windows from 1 on", "find_wnaf is part of the stand-in in shim/"], quick_memcheck=("p7",))
