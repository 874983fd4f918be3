import vf, curve_units as cu
def units(tier):
    return cu.identities(cu.tiny(14) + cu.trace(14), tier)
def run():
    return vf.main("C14", units, "every conversion between coordinate systems and between the twisted Edwards and Montgomery models: over tiny curves every point in varied representatives (and every pair of "
                   "points for the homomorphism), judged in process; on the predefined curves seeded points, recorded and judged offline; non-trivial: the point is not the identity",
                   exhaustive="every point of the tiny curves, every pair under the birational maps",
                   assumptions=[cu.SHIM, "the points v=0 and u=-1, where the birational map is undefined, are left out"], quick_memcheck=("curves_12", "curves_4", "curves_0",))
