import vf
from curve_units import SHIM
from random_oracle import RandomOracle
def units(tier):
    return [vf.Unit("tiny", "c24_random.cpp", ["PART=0"], libs=["-lboost_random"]),
            vf.Unit("predefined", "c24_random.cpp", ["PART=1"], libs=["-lboost_random"], oracle=RandomOracle)]
def run():
    return vf.main("C24", units, "random_element with seeded generators: cell counts over tiny fields, every pair of coordinates of tiny extension towers and every point of tiny groups, bit and bucket counts over predefined "
                   "fields, judged by chi-square and worst-cell bounds with a false-alarm chance below 1e-10 per statistic; points of predefined groups judged offline; each statistic, element or point counts once",
                   assumptions=[SHIM, "the integer distribution itself belongs to Boost and is part of the stand-in"])
