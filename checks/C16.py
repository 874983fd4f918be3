import vf, curve_units as cu
def units(tier):
    return cu.identities(cu.trace(16), tier, True)
def run():
    return vf.main("C16", units, "zero, one, coefficients and group order of every predefined group in every coordinate system, recorded and judged offline: published values, curve equation, primality of the "
                   "order, order*generator = identity by naive arithmetic and by the library; every event is non-trivial", exhaustive="every predefined group and coordinate system that compiles", assumptions=[cu.SHIM])
