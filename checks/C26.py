import os
import subprocess
import vf
NAMES = ["strxor", "shifts", "words", "state_adder"]
SRC = os.path.join(vf.VERIF, "harness", "c26_helpers.cpp")


def units(tier):
    return [vf.Unit(n, "c26_helpers.cpp", ["PART=%d" % i], shim=False) for i, n in enumerate(NAMES)]


def compiles(values):
    cmd = ["clang++-18", "-std=c++17", "-w", "-fsyntax-only", "-I" + os.path.join(vf.REPO, "include"), "-DPART=10", "-DVALUES=" + values, SRC]
    return subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120).returncode == 0


def same_value(results, violations, counters):
    # what the compiler does with the values is the execution observed: equal ones have a value, others have none
    for values, want in (("5", True), ("5,5", True), ("0,0,0", True), ("-1,-1,-1,-1,-1", True), ("1,2", False), ("2,1", False), ("1,1,2", False), ("1,2,1", False), ("2,1,1", False), ("3,3,3,3,4", False),
                         ("0,0,0,1,0,0", False), ("1,2,3", False), ("1,1,2,2", False), ("1,2,2,1", False)):
        counters["op:all_same_value accepts"] = counters.get("op:all_same_value accepts", 0) + 1
        counters["evaluations"] = counters.get("evaluations", 0) + 1
        if compiles(values) != want:
            violations.append(("all_same_value", "of %s %s" % (values, "has no value" if want else "has a value"), "same_value"))


def run():
    return vf.main("C26", units, "strxor over both overloads, containers and aliasing; shifts and masks over every width with amounts below, at and past the width, judged by repeated doubling and halving; words and "
                   "arrays against their parts; non-trivial: a non-empty input or a shift by more than zero", post=same_value,
                   exhaustive="all 8-bit words for the listed shift amounts; strxor of every length up to 70 (400 thorough)",
                   assumptions=["the empty all_same_value and parts wider than the word are not judged"])
