import vf
from curve_units import SHIM, identities
CURVES = ["bls12_381", "mnt4", "mnt6", "edwards"]
def units(tier):
    return identities([vf.Unit(c, "c18_pairing.cpp", ["MODE=18", "CURVE=%d" % i]) for i, c in enumerate(CURVES)], tier)
def run():
    return vf.main("C18", units, "algebraic relations between reduced pairings of seeded and special multiples of the generators (and of sums, negations, respelled points and the identity), each judged in process "
                   "against powers of the pairing of the generators; non-trivial: the expected value is not one",
                   assumptions=[SHIM, "arguments lie in the prime-order subgroups"])
