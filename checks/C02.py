import vf
def units(tier):
    types = ["int", "double", "std::complex<double>"]
    return [vf.Unit("shape_%d_%d" % (i, p), "c02_shape.cpp", ["ETYPE=" + t, "PART=%d" % p], shim=False)
            for i, t in enumerate(types) for p in range(3)]
def run():
    return vf.main("C02", units, "every shape operation on containers whose elements carry their position as id, for 7 vector sizes and 9 matrix shapes x 3 element types, "
                   "all in-range indices, all rotations within three periods plus extremes, and out-of-range indices that must throw; "
                   "non-trivial: more than one element is placed, or a range error is provoked",
                   assumptions=["linspace is exercised for N >= 2 with spacing exact in the element type"], quick_memcheck=("shape_2_2",))
