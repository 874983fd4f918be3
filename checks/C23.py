import os
import vf
from curve_units import SHIM, identities
from marshalling_oracle import MarshallingOracle
INC = [os.path.join(vf.VERIF, "harness", "stubs_pack")]
def units(tier):
    return identities([vf.Unit(n, "c23_marshalling.cpp", ["PART=%d" % i], inc=INC, oracle=MarshallingOracle) for i, n in enumerate(("g1", "g2", "fields"))], tier)
def run():
    return vf.main("C23", units, "bls12-381 points (identity, generator, multiples, several representatives of each) encoded and decoded in both formats through every entry point, with flag bits, lengths and coordinates "
                   "malformed one by one; field elements of nine fields into clean and dirty buffers. Recorded and judged offline; rejections (assertions) are recorded as such; non-trivial: not the identity or 0",
                   assumptions=[SHIM, "the library rejects malformed points by BOOST_ASSERT, which the harness routes to a handler"], quick_memcheck=("fields", "g2",))
