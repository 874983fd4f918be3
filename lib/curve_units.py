import copy
import vf
from curve_oracle import CurveOracle
WEIERSTRASS, EDWARDS = range(0, 11), range(11, 16)
def trace(mode, groups=range(16)):
    return [vf.Unit("curves_%d" % g, "curve_trace.cpp", ["MODE=%d" % mode, "GROUP=%d" % g], opt="-O0", oracle=CurveOracle) for g in groups]
def tiny(mode):
    return [vf.Unit("tiny_%d" % p, "c14_tiny.cpp", ["MODE=%d" % mode, "PART=%d" % p]) for p in range(6)]
SHIM = "modular arithmetic backend is the stand-in in shim/"
def identities(units, tier, quick=False):
    """the same units again under the build option that represents the identity by other coordinates"""
    if tier == "quick" and not quick:
        return units
    again = [copy.copy(u) for u in units]
    for u in again:
        u.name, u.defs = u.name + "_std", u.defs + ["STANDARD_EC_INF_POINTS_ENABLED"]
    return units + again
