import vf, curve_units as cu
def units(tier):
    return cu.identities([vf.Unit("weierstrass_%d" % p, "c12_curves.cpp", ["PART=%d" % p]) for p in range(3)] + cu.trace(12, cu.WEIERSTRASS), tier)
def run():
    return vf.main("C12", units, "six coordinate systems over tiny curves (prime order, with points of order two, several field sizes): every pair of points in varied representatives, plus "
                   "histories of 40 operations on one point, judged by naive chord-and-tangent arithmetic over integers; seeded and special points of every predefined short Weierstrass group "
                   "in every coordinate system, recorded and judged offline; non-trivial: first operand is not the identity",
                   exhaustive="every pair of points of 18 curves; every pair of representatives over F_7", assumptions=[cu.SHIM], quick_memcheck=("curves_1", "curves_4", "curves_8",))
