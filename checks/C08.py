import vf
from tower_oracle import TowerOracle
def units(tier):
    return [vf.Unit("small_%d" % p, "c08_small.cpp", ["MODE=0", "PART=%d" % p]) for p in range(4)] + \
           [vf.Unit("trace_%d" % g, "tower_trace.cpp", ["MODE=0", "GROUP=%d" % g], oracle=TowerOracle, opt="-O0") for g in range(7)]
def run():
    return vf.main("C08", units, "the element templates instantiated over tiny primes, every element (and pair where the field is small enough), judged in process by naive polynomial "
                   "arithmetic; seeded elements of the seven predefined towers, recorded and judged offline over Python integers; non-trivial: an operand is not 0 or 1",
                   exhaustive="all elements of F_25, F_49, F_343 (all pairs of F_25, F_49)",
                   assumptions=["modular arithmetic backend is the stand-in in shim/", "the defining binomials of the predefined towers are the published ones"], quick_memcheck=("trace_6", "trace_4",))
