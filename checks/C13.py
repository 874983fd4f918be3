import os, vf, curve_units as cu
STUBS = os.path.join(vf.VERIF, "harness", "stubs")
def units(tier):
    return cu.identities([vf.Unit("edwards_%d" % p, "c12_curves.cpp", ["PART=%d" % p], inc=[STUBS]) for p in (3, 4, 5)] + cu.trace(12, cu.EDWARDS), tier)
def run():
    return vf.main("C13", units, "affine, extended and inverted (twisted and plain) Edwards classes and the Montgomery class over tiny curves: every pair of points the representation expresses in varied "
                   "representatives, plus histories of 40 operations, judged by naive unified addition over integers; seeded points of ed25519, jubjub, babyjubjub and edwards recorded and judged "
                   "offline; non-trivial: first operand is not the identity",
                   exhaustive="every pair of (expressible) points of 15 curves",
                   assumptions=[cu.SHIM, "inverted coordinates: points of odd order (the others are not expressible)",
                                "the missing header of the plain Edwards affine class is supplied by harness/stubs"], quick_memcheck=("curves_14", "curves_12",))
