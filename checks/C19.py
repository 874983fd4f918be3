import vf
from curve_units import SHIM
from pairing_oracle import PairingOracle
from C18 import CURVES
def units(tier):
    return [vf.Unit(c, "c18_pairing.cpp", ["MODE=19", "CURVE=%d" % i], oracle=PairingOracle) for i, c in enumerate(CURVES)]
def run():
    return vf.main("C19", units, "stage compositions (single and double Miller loops, precomputed and direct pairing, reuse and copies of precomputed values) judged in process; final exponentiations of seeded target-field "
                   "elements recorded and judged offline as exact powers; non-trivial: the value is not one",
                   assumptions=[SHIM, "the fixed exponent is (q^k-1)/r, three times that for bls12-381"], quick_memcheck=("edwards",))
