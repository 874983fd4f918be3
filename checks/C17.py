import vf, curve_units as cu
def units(tier):
    return cu.identities(cu.tiny(17) + cu.trace(17), tier)
def run():
    return vf.main("C17", units, "scalar * point by number, unsigned integer, field element and in place: over tiny curves every point in varied representatives times every scalar up to past the order plus random "
                   "larger ones, judged by repeated addition over integers; on the predefined curves special and seeded scalars, recorded and judged offline; non-trivial: the point is not the identity",
                   exhaustive="all points times scalars 0..order+5 of 28 tiny curves", assumptions=[cu.SHIM], quick_memcheck=("curves_1", "curves_14",))
