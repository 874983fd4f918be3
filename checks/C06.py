import os
import re
import vf
from curve_units import SHIM
FIRST = re.compile(r"^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$", re.M)
NOT_CONSTANT = re.compile(r"must be initialized by a constant expression|never produces a constant expression|not a constant expression|non-.constexpr. function|non-constexpr function|"
                          r"constant expression|constexpr. (?:evaluation|loop)|uninitialized .* in constant")
def not_constant(out):
    """The compiler refused to evaluate something: it is no constant expression, or its evaluation is undefined."""
    m = FIRST.search(out)
    if not m or not NOT_CONSTANT.search(m.group(3)):
        return None
    case = re.search(r"\|\s+((?:SAME|CASE|STEPS)\(.*)", out)
    why = [n for n in re.findall(r": note: (.*)", out) if not re.match(r"in (instantiation|call)|expanded|declared here|in definition", n)]
    return ("constant evaluation", "not usable in a constant expression: %s -- %s%s" % (case.group(1).strip() if case else m.group(0), m.group(3), " -- " + why[0] if why else ""))
def units(tier):
    us = []
    seed = int(os.environ.get("VERIF_SEED", "1"))
    def add(name, cxx, opt, san, *defs):
        us.append(vf.Unit(name, "c06_constexpr.cpp", list(defs) + ["SEED=%d" % (seed * 100 + k)], san=san, opt=opt, cxx=cxx, compile_fail=not_constant, extra=["-fconstexpr-steps=2000000000"] if "clang" in cxx else []))
    CL, GC, NO = "clang++-18", "g++", []
    k = 0
    for part, name in enumerate(["vector", "matrix", "scalar"]):
        add(name, CL, "-O0", vf.ASAN, "PART=%d" % part)
        add(name + "_clang_O2", CL, "-O2", NO, "PART=%d" % part)
    add("matrix_gcc_O2", GC, "-O2", NO, "PART=1")
    add("scalar_gcc_O2", GC, "-O2", NO, "PART=2")
    for piece, name in enumerate(["tiny_fields", "bls12_fields", "fq_fp2", "mnt_fields"]):
        add(name, CL, "-O0", vf.ASAN, "PART=3", "PIECE=%d" % piece)
    add("tiny_fields_gcc_O2", GC, "-O2", NO, "PART=3", "PIECE=0")
    for g, name in ((0, "bls12_381"), (4, "mnt4"), (9, "secp_r1"), (11, "ed25519"), (12, "jubjub"), (14, "edwards")):
        add("points_" + name, CL, "-O0", vf.ASAN, "PART=4", "GROUP=%d" % g)
    add("points_jubjub_gcc_O2", GC, "-O2", NO, "PART=4", "GROUP=12")
    add("strxor", CL, "-O0", vf.ASAN, "PART=5")
    if tier != "quick":
        for part, name in enumerate(["vector", "matrix", "scalar"]):
            for cxx, short in ((CL, "clang"), (GC, "gcc")):
                for level in "0123":
                    add("%s_%s_O%s_deep" % (name, short, level), cxx, "-O" + level, NO, "PART=%d" % part)
        for k in range(1, 7):
            for part, name in enumerate(["vector", "matrix", "scalar"]):
                add("%s_seed%d" % (name, k), CL, "-O1", NO, "PART=%d" % part)
            for piece in range(4):
                add("fields%d_seed%d" % (piece, k), CL, "-O1", NO, "PART=3", "PIECE=%d" % piece)
        for g in range(15):
            add("points_%d_O2" % g, CL, "-O2", NO, "PART=4", "GROUP=%d" % g)
    return us
def run():
    return vf.main("C06", units, "one expression per case, evaluated by the compiler and by the running program on the same seeded arguments hidden from the optimiser, compared bit for bit; undefined behaviour is reported by the "
                   "constant evaluator and by ASan+UBSan; non-trivial: some bit of the value is set",
                   assumptions=[SHIM, "the compilers' constant evaluators are faithful", "scalar multiples are excepted: their recoding allocates"])
