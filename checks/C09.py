import vf
from tower_oracle import TowerOracle
def units(tier):
    return [vf.Unit("small_%d" % p, "c08_small.cpp", ["MODE=1", "PART=%d" % p]) for p in range(3)] + \
           [vf.Unit("trace_%d" % g, "tower_trace.cpp", ["MODE=1", "GROUP=%d" % g], oracle=TowerOracle, opt="-O0") for g in range(7)]
def run():
    return vf.main("C09", units, "Frobenius_map(k) for k from 0 past twice the extension degree, and the cyclotomic operations on elements of the cyclotomic subgroup, over tiny towers (judged in "
                   "process by repeated p-th powers) and the seven predefined towers (offline); non-trivial: an operand is not 0 or 1",
                   assumptions=["modular arithmetic backend is the stand-in in shim/"], quick_memcheck=("trace_6",))
