import os
import vf
from curve_units import SHIM
from h2c_oracle import H2cOracle
INC = [os.path.join(vf.VERIF, "harness", "stubs_h2c")]
def units(tier):
    return [vf.Unit("g%d" % (c + 1), "c22_h2c.cpp", ["CURVE=%d" % c], inc=INC, oracle=H2cOracle) for c in (0, 1)] + \
           [vf.Unit("tiny", "c22_h2c.cpp", ["CURVE=2"], opt="-O2", inc=INC)]
def run():
    return vf.main("C22", units, "the simplified SWU template over tiny fields judged in process, and SWU, isogeny and their composition on bls12-381 G1 and G2 (seeded inputs and their negations, 0, inputs with vanishing "
                   "denominators, inputs landing in the isogeny's kernel, the kernel itself, the published vector's inputs) recorded and judged offline; non-trivial: the input is not 0",
                   exhaustive="every admissible (A, B, Z) and every input for p = 7, 11, 13 (17, 19 in the thorough tier)",
                   assumptions=[SHIM, "suite constants and sgn0 come from stand-in headers (they live in another repository)"], quick_memcheck=("g1", "g2",))
