import vf, curve_units as cu
def units(tier):
    return cu.identities(cu.tiny(15) + cu.trace(15), tier)
def run():
    return vf.main("C15", units, "==, !=, is_zero and is_well_formed: over tiny curves every pair of representatives and every coordinate tuple; on the predefined curves seeded points, their rescalings and "
                   "perturbations, recorded and judged offline; non-trivial: operands not the identity, tuples off the curve",
                   exhaustive="every coordinate tuple over F_7 and F_13, every pair of points in varied representatives",
                   assumptions=[cu.SHIM, "tuples that represent no point at all (all zero beyond the documented identity, Z=0 off the equation) are not judged"], quick_memcheck=("curves_1", "curves_12",))
