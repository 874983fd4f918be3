import vf
def units(tier):
    return [vf.Unit("solve_%s_%d" % (t, p), "c04_solve.cpp", ["ETYPE=" + t, "PART=%d" % p], shim=False)
            for t in ("double", "float") for p in range(3)]
def run():
    return vf.main("C04", units, "every integer matrix of several small shapes and entry ranges (times powers of two), and random well-conditioned or exactly rank-deficient larger ones; "
                   "results are compared with exact rational elimination; non-trivial: non-zero matrix with more than one entry",
                   assumptions=["tolerances 4096 epsilon (2^34 epsilon for shuffled larger double matrices, where first-larger pivoting loses digits) relative to the exact result's magnitude", "rank of larger deficient matrices is observed through rref with an explicit tolerance"])
