import vf
from curve_units import SHIM
from print_oracle import PrintOracle
GROUPS = {"bls": 0, "mnt": 4, "secp_r1": 9, "ed25519": 11, "jubjub": 12, "edwards": 14}
def units(tier):
    groups = GROUPS if tier == "quick" else {"g%d" % g: g for g in range(15)}
    return [vf.Unit("tiny", "c28_print.cpp", ["PART=0"], opt="-O0", oracle=PrintOracle), vf.Unit("fields", "c28_print.cpp", ["PART=1"], opt="-O0", oracle=PrintOracle)] + \
           [vf.Unit("points_" + n, "c28_print.cpp", ["PART=2", "GROUP=%d" % g], opt="-O0", oracle=PrintOracle) for n, g in groups.items()]
def run():
    return vf.main("C28", units, "hash values and printed forms of elements of tiny fields and towers, each reached by several operation histories, of seeded elements of predefined fields, and printed points and pairing "
                   "precomputations of predefined curves, parsed back offline; non-trivial: the value is not zero",
                   exhaustive="every element of five prime fields up to 257 and of fp2, fp3 and fp4 over 3 to 13",
                   assumptions=[SHIM], quick_memcheck=("fields",))
