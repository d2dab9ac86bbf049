"""Shared machinery of the checks: build drivers from /repo's working tree, run
TLC, replay behaviours through the drivers, judge, write evidence."""
import fcntl, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
NPROC = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself could not give an answer (exit code 2)."""


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ building
def build_dir(flavour="O1"):
    return os.path.join(BUILD, flavour)


FLAVOURS = {
    "O1": "-O1",
    "tsan": "-O1 -g -fsanitize=thread",
    "asan": "-O1 -g -fsanitize=address,undefined -fno-sanitize-recover=undefined -D_GLIBCXX_ASSERTIONS",
}


def build(targets, flavour="O1"):
    """(Re)build the given targets out of tree; returns the build directory."""
    d = build_dir(flavour)
    os.makedirs(d, exist_ok=True)
    flags = FLAVOURS[flavour]
    env = dict(os.environ, CC="gcc", CXX="g++", LC_ALL="C.UTF-8", CCACHE_DISABLE="1")
    with open(os.path.join(BUILD, flavour + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t0 = time.time()
        conf = ["cmake", "-S", os.path.join(VERIF, "harness"), "-B", d, "-G", "Ninja",
                "-DREPO_DIR=" + REPO,
                "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
                "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=" + flags,
                "-DCMAKE_C_FLAGS_RELWITHDEBINFO=-O1",
                "-DGSL_DIR=/opt/vp/cmake/GSL",
                "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
                "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
                "-DCMAKE_EXPORT_PACKAGE_REGISTRY=OFF"]
        r = subprocess.run(conf, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError("cmake failed:\n" + r.stdout[-3000:])
        r = subprocess.run(["ninja", "-C", d, "-j", str(NPROC)] + list(targets), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError("build failed:\n" + r.stdout[-4000:])
        log("built %s (%s) in %.1f s" % (" ".join(targets), flavour, time.time() - t0))
    return d


def driver(name, flavour="O1"):
    """Build one driver and return its path."""
    try:
        d = build([name], flavour)
        return os.path.join(d, name)
    except CheckError:
        d = build([name + "_full"], flavour)
        return os.path.join(d, name + "_full")


def prog_path(name, flavour="O1"):
    return os.path.join(build_dir(flavour), "bsmpt", "bin", name)


# ----------------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self, out, code):
        self.out, self.code = out, code
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ","))
        m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        g = re.findall(r"The number of states generated: ([\d,]+)", out)
        if g and not m:
            self.generated = self.distinct = int(g[-1].replace(",", ""))
        if not self.generated:
            p = re.findall(r"Progress.*?: ([\d,]+) states checked", out)
            if p:
                self.generated = self.distinct = int(p[-1].replace(",", ""))
        self.cases = []
        for line in out.splitlines():
            if line.startswith('"CASE '):
                self.cases.append(json.loads(json.loads(line)[5:]))
        self.ok = code == 0
        self.violated = None
        v = re.search(r"Invariant (\w+) is violated", out)
        if v:
            self.violated = v.group(1)
        elif "Temporal properties were violated" in out:
            self.violated = "temporal"
        elif re.search(r"Error: .*[Aa]ction property (\w+)", out):
            self.violated = "action"


def tlc(module, cfg=None, env=None, workers=None, simulate=None, depth=None, seed=None,
        timeout=600, heap="6g", cfg_text=None, dedup=True, extra=()):
    """Run TLC on spec/<module>.tla in a scratch directory."""
    tmp = tempfile.mkdtemp(prefix="tlc-")
    try:
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), tmp)
        cfgname = cfg or module + ".cfg"
        if cfg_text is not None:
            cfgname = module + "_gen.cfg"
            open(os.path.join(tmp, cfgname), "w").write(cfg_text)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp",
               tlc_classpath(), "tlc2.TLC", "-workers", str(workers or NPROC),
               "-metadir", os.path.join(tmp, "md"), "-noGenerateSpecTE",
               "-config", cfgname]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate]
            if depth:
                cmd += ["-depth", str(depth)]
        if seed is not None:
            cmd += ["-seed", str(seed)]
        cmd += list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            r = subprocess.run(cmd, cwd=tmp, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + module)
        res = TlcResult(r.stdout, r.returncode)
        if dedup and res.cases:
            seen, u = set(), []
            for c in res.cases:
                k = json.dumps(c, sort_keys=True)
                if k not in seen:
                    seen.add(k)
                    u.append(c)
            res.cases = sorted(u, key=lambda c: json.dumps(c, sort_keys=True))
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def tlc_classpath():
    cps = ["/opt/veriftools/tla/tla2tools.jar"]
    for root, _, fs in os.walk("/opt/veriftools/tla"):
        for f in fs:
            if f.endswith(".jar") and "tla2tools" not in f:
                cps.append(os.path.join(root, f))
    return ":".join(cps)


def tlc_must_hold(module, **kw):
    """Model checking of the specification itself: a violation here is a fault
    of the specification, not of the code."""
    r = tlc(module, **kw)
    if not r.ok:
        raise CheckError("specification %s does not satisfy its own properties:\n%s"
                         % (module, r.out[-3500:]))
    return r


# ------------------------------------------------------------------- drivers
def run_driver(path, cases, timeout=300, env=None, cwd=None, jobs=1, per_case=None, together=None):
    """Feed JSON lines, get one JSON line per case.  A crash or hang on a case
    yields {"crash": ...} for it and the driver is restarted after it."""
    if together is not None:  # cases of the same key go to the same process, one after the other
        groups = {}
        for i, c in enumerate(cases):
            groups.setdefault(together(c), []).append(i)
        parts = [[] for _ in range(jobs)]
        for g in sorted(groups.values(), key=len, reverse=True):
            min(parts, key=len).extend(g)
        from concurrent.futures import ThreadPoolExecutor
        res = [None] * len(cases)
        with ThreadPoolExecutor(jobs) as ex:
            for ids, outs in zip(parts, ex.map(lambda p: run_driver(path, [cases[i] for i in p], timeout, env, cwd), parts)):
                for i, o in zip(ids, outs):
                    res[i] = o
        return res
    if jobs > 1 and len(cases) > jobs:
        from concurrent.futures import ThreadPoolExecutor
        parts = [cases[i::jobs] for i in range(jobs)]
        with ThreadPoolExecutor(jobs) as ex:
            outs = list(ex.map(lambda p: run_driver(path, p, timeout, env, cwd), parts))
        res = [None] * len(cases)
        for i, o in enumerate(outs):
            for j, x in enumerate(o):
                res[i + j * jobs] = x
        return res
    res = []
    restarts = 0
    e = dict(os.environ)
    e.update(env or {})
    while len(res) < len(cases):
        inp = "".join(json.dumps(c) + "\n" for c in cases[len(res):])
        p = subprocess.Popen([path], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, text=True, env=e, cwd=cwd)
        try:
            out, err = p.communicate(inp, timeout=timeout)
            code = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            code = "timeout"
        got = []
        for line in out.splitlines():
            if line.startswith("{"):
                try:
                    got.append(json.loads(line))
                except ValueError:
                    pass
        res += got[: len(cases) - len(res)]
        if len(res) >= len(cases):
            break
        restarts += 1
        res.append({"crash": "exit %s: %s" % (code, (err or "")[-600:])})
        if restarts > 20:
            while len(res) < len(cases):
                res.append({"crash": "not run: driver crashed %d times" % restarts})
    return res


# --------------------------------------------------------------------- check
class Check:
    def __init__(self, pid, tier, level="model_checking"):
        self.pid, self.tier, self.level = pid, tier, level
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, pid)))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.assumptions, self.extra = [], [], {}
        self.violations = []
        self.known_hits = {}
        self.known = load_known(pid)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def spec(self, module, **kw):
        r = tlc_must_hold(module, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        log("spec %s: %d states, %d transitions, %d behaviours emitted"
            % (kw.get("cfg") or module, r.distinct, r.generated, len(r.cases)))
        return r

    def specs(self, runs):
        """Several TLC runs at once; returns the concatenated behaviours."""
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(NPROC) as ex:
            rs = list(ex.map(lambda kw: tlc_must_hold(**dict({"workers": 1, "heap": "3g"}, **kw)), runs))
        cases = []
        for kw, r in zip(runs, rs):
            self.states += r.distinct
            self.transitions += r.generated
            cases += r.cases
        log("spec %s (%d runs): %d behaviours emitted" % (runs[0]["module"], len(runs), len(cases)))
        return cases

    def sample(self, x, maximum=6):
        if len(self.samples) < maximum:
            self.samples.append(x)

    def violation(self, what, detail, key=None):
        """key identifies the specific input/call site for known findings."""
        if key is not None:
            for k in self.known:
                if k["key"] == key:
                    self.known_hits.setdefault(key, k["text"])
                    return
        self.violations.append({"what": what, "detail": detail})

    def finish(self):
        evd = os.path.join(VERIF, "evidence")
        os.makedirs(os.path.join(evd, "replay"), exist_ok=True)
        for key, text in sorted(self.known_hits.items()):
            log("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        for i, v in enumerate(self.violations[:10]):
            p = os.path.join("evidence", "replay", "%s-%d.json" % (self.pid, i))
            with open(os.path.join(VERIF, p), "w") as f:
                json.dump(v, f, indent=1, default=str)
            if i < 5:
                log("  ", v["what"][:400])
            log("VIOLATION property=%s replay=%s" % (self.pid, p))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples[:8]}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(evd, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        log("%s %s: %d states, %d traces against the implementation, %d violations, %.1f s"
            % (self.pid, self.tier, self.states, self.traces, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0


def load_known(pid):
    """known_findings.jsonl: {"property","key","text"} suppresses exactly the
    violation with that key; lines with "fixed" suppress nothing."""
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                k = json.loads(line)
                if k.get("property") == pid and "key" in k:
                    out.append(k)
    return out


def close(a, b, rel=1e-9, abs_=0.0):
    if a is None or b is None:
        return a is b
    a, b = float(a), float(b)   # drivers write nan and inf as strings
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def trace_check(ck, module, traces, cfg_text, name="TRACES", chunk=None, heap="6g", timeout=800):
    """Validate recorded traces with TLC: the module reads the JSON file named by
    the environment variable, and emits a CASE {"trace": i, "step": l, ...} line
    for every trace that is not a behaviour.  Returns those, with the index made
    global."""
    bad = []
    n = chunk or max(1, len(traces))
    for off in range(0, len(traces), n):
        part = traces[off:off + n]
        fd, path = tempfile.mkstemp(suffix=".json", prefix="trace-")
        with os.fdopen(fd, "w") as f:
            json.dump(part, f)
        try:
            r = tlc(module, cfg_text=cfg_text, env={name: path}, heap=heap, timeout=timeout)
        finally:
            os.unlink(path)
        if not r.ok:
            raise CheckError("trace validation with %s failed:\n%s" % (module, r.out[-3000:]))
        ck.states += r.distinct
        ck.transitions += r.generated
        for c in r.cases:
            c["trace"] += off - 1
            bad.append(c)
    ck.extra["traces_validated_by_tlc"] = ck.extra.get("traces_validated_by_tlc", 0) + len(traces)
    return bad
