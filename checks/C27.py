import vf


def units(tier):
    return [vf.Unit("library", "c27_traits.cpp", ["PART=0"], opt="-O0"), vf.Unit("lookalikes", "c27_traits.cpp", ["PART=1"], opt="-O0", shim=False)]


def run():
    return vf.main("C27", units, "trait values over every predefined curve's groups, fields, points and elements in each coordinate system, over standard containers and iterators, and over classes built with every required "
                   "member and with each one left out; non-trivial: a type that models some concept or misses exactly one member",
                   exhaustive="for each policy concept: all members, each one missing, each one alone",
                   assumptions=["is_curve on curves without a second group, cv-qualified types and void are not judged"])
