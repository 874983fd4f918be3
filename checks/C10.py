import vf
from tower_oracle import TowerOracle
from fp_oracle import FpOracle
def units(tier):
    return [vf.Unit("small", "c08_small.cpp", ["MODE=2", "PART=0"])] + \
           [vf.Unit("trace_%d" % g, "tower_trace.cpp", ["MODE=2", "GROUP=%d" % g], oracle=TowerOracle, opt="-O0") for g in range(7)] + \
           [vf.Unit("fp_%d" % g, "c10_fp.cpp", ["GROUP=%d" % g], oracle=FpOracle, opt="-O0") for g in range(8)]
def run():
    return vf.main("C10", units, "every element of nine tiny prime fields, six F_p2 and two F_p3; seeded squares and non-squares of the predefined fields and their quadratic/cubic extensions, judged "
                   "offline (Euler's criterion and norms); a sqrt that does not return within its time limit is a violation; non-trivial: operand not 0 or 1",
                   exhaustive="every element of F_p for p in 3,5,7,13,17,41,97,193,257, of F_p2 for p in 3,5,7,17,31,41, of F_p3 for p in 7,13",
                   assumptions=["modular arithmetic backend is the stand-in in shim/"], quick_memcheck=("fp_7", "trace_2",))
