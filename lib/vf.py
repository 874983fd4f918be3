"""Driver for the runtime monitors: builds harness units against /repo's working tree, runs them
under sanitizers, judges what they observed (in-process verdicts, sanitizer reports, and offline
oracles over their trace events), and writes the evidence file."""
import concurrent.futures as cf
import copy, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
TSAN = ["-fsanitize=thread", "-fno-omit-frame-pointer"]
ENV_SAN = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=1:detect_stack_use_after_return=1:symbolize=1:strict_string_checks=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=1:history_size=7",
    "LSAN_OPTIONS": "exitcode=77",
}


class Unit:
    """One harness binary."""
    def __init__(self, name, src, defs=(), shim=True, san=ASAN, opt="-O1", cxx="clang++-18", std="c++17",
                 extra=(), libs=(), args=(), oracle=None, timeout=600, env=None, compile_fail=None, inc=(), wrap=()):
        self.name, self.src, self.defs, self.shim, self.san = name, src, list(defs), shim, san
        self.opt, self.cxx, self.std, self.extra, self.libs = opt, cxx, std, list(extra), list(libs)
        self.args, self.oracle, self.timeout, self.env = list(args), oracle, timeout, env or {}
        self.compile_fail = compile_fail      # None: compile failure is an error of the check
        self.inc = list(inc)
        self.wrap = list(wrap)                # a tool the binary runs under


class Result:
    def __init__(self):
        self.violations, self.counters, self.samples, self.errors = [], {}, [], []


def read_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) site=(\S+) match=/(.*?)/ -- (.*)", l.strip())
            if m:
                out.append(dict(property=m.group(1), site=m.group(2), match=re.compile(m.group(3)), text=m.group(4)))
    return out


# processor time of one unit; ordinary units take seconds, so running out of it is a call that does not come back
CPU_S = {"quick": 150, "thorough": 6000}


def _limits(tier):
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_S[tier], CPU_S[tier] + 20))


def build(u, bdir):
    exe = os.path.join(bdir, u.name)
    std = "-std=" + u.std
    cmd = [u.cxx, std, u.opt, "-g1", "-w"] + u.san
    if "clang" in u.cxx:
        cmd += ["-fconstexpr-steps=200000000", "-fbracket-depth=1024"]
    else:
        cmd += ["-fconstexpr-ops-limit=2000000000", "-fconstexpr-loop-limit=10000000"]
    cmd += ["-D" + d for d in u.defs] + u.extra
    cmd += ["-I" + os.path.join(VERIF, "harness")]
    if u.shim:
        cmd += ["-I" + os.path.join(VERIF, "shim")]
    cmd += ["-I" + i for i in u.inc]
    cmd += ["-I" + os.path.join(REPO, "include"), os.path.join(VERIF, "harness", u.src), "-o", exe] + u.libs
    t = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800, text=True, errors="replace")
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, out = 124, "compiler timed out"
    return exe, rc, out, time.time() - t, cmd


def rejected_constants(out):
    """The compiler evaluated code of the repository and it failed there (a failed assertion, undefined behaviour or endless recursion in a constant); any other
    compile failure is an error of the check, and so is one the stand-ins for absent libraries have a part in."""
    m = re.search(r"^(\S+?):\d+:\d+: (?:fatal )?error: (.*)$", out, re.M)
    if not m or not re.search(r"static assertion failed|static_assert failed|constant expression|recursive template instantiation exceeded|shift count|division by zero", m.group(2)):
        return None
    end = re.compile(r"^\S+:\d+:\d+: (?:fatal )?error: ", re.M).search(out, m.end())
    block = out[m.start():end.start() if end else len(out)]
    if os.path.join(REPO, "include") + "/" not in block or "boost" in block or os.path.join(VERIF, "shim") in block or "maximum step limit" in block or "cannot be used in a constant expression" in block:
        return None
    return "%s: %s" % (os.path.basename(m.group(1)), m.group(2)[:300])


def run_unit(u, bdir, tier, seed):
    res = Result()
    exe, rc, out, ct, cmd = build(u, bdir)
    res.counters["compile_s:" + u.name] = round(ct, 1)
    if rc != 0:
        if u.compile_fail:
            v = u.compile_fail(out)
            if v:
                res.violations.append((v[0], v[1], u.name))
                return res
        v = rejected_constants(out)
        if v:
            res.violations.append(("compile", v, u.name))
            return res
        res.errors.append("%s: does not compile:\n%s" % (u.name, out[-6000:]))
        return res
    env = dict(os.environ, **ENV_SAN)
    env.update(dict(dict(VERIF_TIER=tier, VERIF_SEED=str(seed)), **u.env))
    log = os.path.join(bdir, u.name + ".log")
    err = os.path.join(bdir, u.name + ".err")
    if u.wrap:
        tier = "thorough"                     # the tool is slow: the generous limits
    t = time.time()
    with open(log, "wb") as lo, open(err, "wb") as er:
        try:
            rc = subprocess.run(u.wrap + [exe] + u.args, stdout=lo, stderr=er, env=env, timeout=420 if u.wrap else u.timeout * (4 if tier == "thorough" else 1), preexec_fn=lambda: _limits(tier)).returncode
        except subprocess.TimeoutExpired:
            rc = None
    res.counters["run_s:" + u.name] = round(time.time() - t, 2)
    done, crash, events = False, False, 0
    orc = u.oracle() if u.oracle else None
    with open(log, "r", errors="replace") as f:
        for line in f:
            if line.startswith("T\t"):
                events += 1
                if orc is None or not line.endswith("\n"):    # a process that was stopped may leave half a record
                    continue
                fields = line.rstrip("\n").split("\t")[1:]
                for site, detail in orc.event(fields):
                    res.violations.append((site, detail, u.name))
            elif line.startswith("V\t"):
                p = line.rstrip("\n").split("\t", 2)
                res.violations.append((p[1], p[2] if len(p) > 2 else "", u.name))
                crash = crash or p[1] in ("crash", "hang")
            elif line.startswith("C\t"):
                p = line.rstrip("\n").split("\t")
                res.counters[p[1]] = res.counters.get(p[1], 0) + int(p[2])
            elif line.startswith("X\t"):
                res.samples.append(line.rstrip("\n")[2:])
            elif line.startswith("D"):
                done = True
    if orc is not None:
        for site, detail in orc.finish():
            res.violations.append((site, detail, u.name))
        for k, v in orc.counters.items():
            res.counters[k] = res.counters.get(k, 0) + v
        res.samples += orc.samples
    etext = open(err, errors="replace").read()
    if u.wrap:
        n = res.counters.get("evaluations", 0)
        res.counters = {"memcheck_units": 1, "memcheck_observations": n + events, "run_s:" + u.name: res.counters["run_s:" + u.name]}
        last = [v[1] for v in res.violations if v[0] == "crash"]
        res.violations = []                   # values are the instrumented twin's business (valgrind computes long double in 64 bits)
        rep = sanitizer_summary(etext)
        if rc == 78 and rep and rep[0] == "memcheck":
            res.violations.append((rep[0], (last[-1] + ": " if last else "") + rep[1], u.name))
        elif rc is None or not done:
            res.counters["memcheck_units_stopped_early"] = 1
        return res
    if rc is None:
        res.errors.append("%s: wall-clock limit of the harness" % u.name)
    elif rc != 0 or not done:
        rep = sanitizer_summary(etext)
        if rep:
            # attach the report to the last operation announced
            last = [v for v in res.violations if v[0] == "crash"]
            res.violations = [v for v in res.violations if v[0] != "crash"]
            res.violations.append((rep[0], (last[-1][1] + ": " if last else "") + rep[1], u.name))
        elif not crash:
            if rc < 0 and rc in (-9,):
                res.errors.append("%s: killed (memory?) %s" % (u.name, etext[-500:]))
            else:
                res.violations.append(("abnormal-exit", "rc=%s %s" % (rc, etext[-1500:].replace("\n", " | ")), u.name))
        else:
            pass
    res.etext = etext
    return res


MEMCHECK = ["valgrind", "-q", "--error-exitcode=78", "--exit-on-first-error=yes", "--leak-check=no", "--num-callers=16"]


def memcheck(units, tier, quick):
    """The units again, uninstrumented under valgrind, which sees uses of values nobody wrote; at the quick workload, and in the quick tier only those named."""
    again = []
    for u in units:
        if shutil.which("valgrind") and u.san == ASAN and not u.compile_fail and "clang" in u.cxx and (tier == "thorough" or u.name in quick):
            v = copy.copy(u)
            v.name, v.san, v.opt, v.wrap, v.oracle = u.name + "_memcheck", [], "-O0", MEMCHECK, None
            v.env = dict(u.env, VERIF_TIER="quick", VF_SLOW="1")
            again.append(v)
    return units + again


def sanitizer_summary(e):
    m = re.search(r"^==\d+== ((?:Conditional jump|Use of uninit|Invalid |Syscall param|Source and dest|Argument ).*)$", e, re.M)
    if m:
        frames = re.findall(r"^==\d+==\s+(?:at|by) 0x[0-9A-F]+: (.*)$", e[m.end():], re.M)[:8]
        return "memcheck", "%s | %s" % (m.group(1), " < ".join(f[:160] for f in frames)[:900])
    m = re.search(r"^SUMMARY: (\w+): (.*)$", e, re.M)
    if m:
        first = re.search(r"(ERROR: AddressSanitizer: .*|WARNING: ThreadSanitizer: .*|[^\n]*runtime error: .*)", e)
        frames = re.findall(r"^\s+#\d+ .*?(?:in )?(\S.*)$", e, re.M)[:6]
        kind = m.group(1)
        return "sanitizer", "%s %s | %s | %s" % (kind, m.group(2), first.group(1) if first else "", " < ".join(frames)[:900])
    m = re.search(r"([^\n]*runtime error: [^\n]*)", e)
    if m:
        return "sanitizer", m.group(1)
    return None


class Oracle:
    """Offline checker base: subclasses implement op_<name>(args) -> None | (site, detail)."""
    def __init__(self):
        self.counters, self.samples, self.keys = {}, [], set()

    def see(self, op, key, nontrivial=True):
        self.counters["evaluations"] = self.counters.get("evaluations", 0) + 1
        k = "op:" + op
        self.counters[k] = self.counters.get(k, 0) + 1
        if nontrivial:
            self.keys.add(hash((op, key)))

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def event(self, f):
        return []

    def finish(self):
        self.counters["distinct_nontrivial"] = self.counters.get("distinct_nontrivial", 0) + len(self.keys)
        return []


def main(pid, units, rule, level="exploration", assumptions=(), exhaustive=None, post=None, quick_memcheck=()):
    tier = os.environ.get("VERIF_TIER", "quick")
    for i, a in enumerate(sys.argv):
        if a == "--tier":
            tier = sys.argv[i + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    only = None
    if "--only" in sys.argv:
        only = sys.argv[sys.argv.index("--only") + 1]
    t0 = time.time()
    bdir = tempfile.mkdtemp(prefix="vf-%s-" % pid, dir=os.environ.get("VERIF_TMP"))
    violations, errors, counters, samples, per_unit = [], [], {}, [], {}
    try:
        us = [u for u in memcheck(units(tier), tier, quick_memcheck) if not only or only in u.name]
        with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as ex:
            futs = {ex.submit(run_unit, u, bdir, tier, seed): u for u in us}
            results = []
            for f in cf.as_completed(futs):
                results.append((futs[f].name, f.result()))
        results.sort(key=lambda x: x[0])
        for name, r in results:
            violations += r.violations
            errors += r.errors
            if not r.errors and not r.violations and not r.counters.get("evaluations") and not r.counters.get("memcheck_units"):
                errors.append(name + ": ran and observed nothing")
            per_unit[name] = int(r.counters.get("evaluations", 0))
            for k, v in r.counters.items():
                counters[k] = counters.get(k, 0) + v
            samples += r.samples[:3]
        if post:
            post(results, violations, counters)
    finally:
        if "--keep" in sys.argv:
            print("build dir", bdir)
        else:
            shutil.rmtree(bdir, ignore_errors=True)
    known = [k for k in read_findings() if k["property"] == pid]
    new, hit = [], {}
    for v in violations:
        for k in known:
            if k["site"] == v[0] and k["match"].search(v[1]):
                hit.setdefault(k["text"], 0)
                hit[k["text"]] += 1
                break
        else:
            new.append(v)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = int(counters.pop("evaluations", 0))
    dn = int(counters.pop("distinct_nontrivial", 0))
    cov = dict(evaluations=ev, distinct_nontrivial=dn, rule=rule, samples=samples[:24],
               units=len(us), observed_per_unit=per_unit, observed={k[3:]: v for k, v in sorted(counters.items()) if k.startswith("op:")},
               other={k: v for k, v in sorted(counters.items()) if not k.startswith(("op:", "compile_s", "run_s"))},
               timing={k: v for k, v in sorted(counters.items()) if k.startswith(("compile_s", "run_s"))})
    if exhaustive is not None:
        cov["exhaustive"] = exhaustive
    evidence = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
                    assumptions=list(assumptions), wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for t, n in sorted(hit.items()):
        print("KNOWN-FINDING: property=%s %s (%d observations)" % (pid, t, n))
    if not only:
        for e in errors:
            print("ERROR " + e, file=sys.stderr)
    else:
        for e in errors:
            print("ERROR " + e)
    if new:
        rp = os.path.join(VERIF, "evidence", "replay-%s.json" % pid)
        with open(rp, "w") as f:
            json.dump(dict(property=pid, tier=tier, seed=seed, command="VERIF_SEED=%d python3 bin/check.py %s --tier %s" % (seed, pid, tier),
                           violations=[dict(site=s, detail=d, unit=u) for s, d, u in new[:200]]), f, indent=1)
        for s, d, u in new[:10]:
            print("  [%s] %s: %s" % (u, s, d[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if errors:
        return 2
    if ev == 0 or dn < 2:
        print("ERROR nothing observed", file=sys.stderr)
        return 2
    print("OK property=%s tier=%s observations=%d distinct=%d wall=%.1fs" % (pid, tier, ev, dn, time.time() - t0))
    return 0
