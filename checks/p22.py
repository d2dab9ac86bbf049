"""P22: scans over temperatures and grids over fields."""
import os
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction as F
import points
import vlib

CFG = """SPECIFICATION Spec
CONSTANTS
 Kinds = {%s}
 Dims = {%s}
 Steps = {%s}
 MaxRows = %d
 Starts = {%s}
 Sizes <- %s
 Lengths = {%s}
 Rests = {%s}
 Pick <- %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
NV = {"sm": 1, "cxsm": 3, "r2hdm": 4, "c2hdm": 4, "n2hdm": 5, "cpinthedark": 5}
UNITS = [F(1), F(1, 10), F(1, 100), F(1, 4), F(7, 10), F(1, 3), F(13, 1000)]


def close(a, b, scale):
    return isinstance(a, float) and abs(a - b) <= 1e-12 * scale + 1e-13


def table(ck, m, d, variant):
    """A parameter table with several points; the asked line is not the first."""
    text = [points.legend(m)] + [points.line(m, ck.rng, 0.03, i, variant) for i in range(1, 4)]
    path = os.path.join(d, "%s-%d.tsv" % (m, ck.rng.randrange(10**9)))
    open(path, "w").write("\n".join(text) + ("\n" if ck.rng.random() < 0.5 else ""))
    k = ck.rng.randrange(2, 5)
    return path, k, text[0], text[k - 1]


def call(cmd):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
        return r.returncode, r.stdout[-500:]
    except subprocess.TimeoutExpired:
        return "timeout", ""


def read(path):
    try:
        lines = open(path).read().splitlines()
    except OSError:
        return [], []
    rows = []
    for l in lines[1:]:
        try:
            rows.append([float(x) for x in l.split("\t")])
        except ValueError:
            rows.append(l.split("\t"))
    return (lines[0].split("\t") if lines else []), rows


def axis(ck, n):
    """Ends of an axis on the lattice."""
    u = ck.rng.choice(UNITS)
    lo = ck.rng.choice([-1, 0, 1, -2, ck.rng.randrange(-300, 300)])
    return float(lo * u), float((lo + ck.rng.choice([1, 3, ck.rng.randrange(1, 300)])) * u)


def at(lo, hi, i, n):
    return float(F(lo) + (F(hi) - F(lo)) * F(i, n))


def grids(ck, cases, exe):
    """The two grid helpers: an axis of a grid and the line between two points."""
    todo = []
    for c in cases:
        d = len(c["n"])
        p = [ck.rng.choice([0.0, ck.rng.uniform(-300, 300)]) for _ in range(d)]
        k = ck.rng.randrange(d)
        lo, hi = axis(ck, c["n"][k])
        if ck.rng.random() < 0.2:
            lo, hi = hi, lo
        todo.append(dict(cmd="axis", point=p, axis=k, low=lo, high=hi, n=c["n"][k]))
        q = [ck.rng.choice([x, x + ck.rng.uniform(-300, 300), x + 0.1]) for x in p]
        todo.append(dict(cmd="line", a=p, b=q, n=c["n"][k]))
    for c, r in zip(todo, vlib.run_driver(exe, todo)):
        n, got = c["n"], r.get("rows")
        if c["cmd"] == "axis":
            want = [list(c["point"]) for _ in range(n + 1)]
            for i in range(n + 1):
                if n:
                    want[i][c["axis"]] = at(c["low"], c["high"], i, n)
            scale = max(abs(c["low"]), abs(c["high"]))
        else:
            want = [[at(a, b, i, n) if n else a for a, b in zip(c["a"], c["b"])] for i in range(n + 1)]
            scale = 600
        if got is None or len(got) != len(want) or not all(
                len(g) == len(w) and all(close(float(x), y, scale) for x, y in zip(g, w)) for g, w in zip(got, want)):
            ck.violation("the grid helper does not return the requested points", {"case": c, "got": got, "want": want})
    ck.traces += len(todo)


def develop(ck, cases, exe):
    todo = []
    for c in cases:
        s, u = c["scan"], ck.rng.choice(UNITS)
        d = ck.rng.randrange(1, 4)
        todo.append(dict(cmd="develop", start=float(s["start"] * u), stop=float(s["stop"] * u), step=float(s["size"] * u),
                         at=[ck.rng.uniform(-100, 100) for _ in range(d)], slope=[ck.rng.uniform(-1, 1) for _ in range(d)],
                         k=[ck.rng.uniform(0.5, 3) for _ in range(d)], seed=ck.rng.randrange(10**6),
                         points=ck.rng.choice([1, 2]), which=ck.rng.choice([2, 4])))
    for c, s, r in zip(todo, cases, vlib.run_driver(exe, todo, jobs=vlib.NPROC, timeout=40)):
        want = [float(F(c["start"]) + i * F(c["step"])) for i in range(len(s["rows"]))]
        ch = r.get("chains")
        scale = max(map(abs, want)) + 1
        if ch is None or len(ch) != c["points"]:
            ck.violation("development of the minima: no result", {"case": c, "got": r})
            continue
        for x in ch:
            ts = [e[0] for e in x]
            if len(ts) != len(want) or not all(close(float(a), b, scale) for a, b in zip(ts, want)):
                ck.violation("development of the minima: temperatures are not those of the scan", {"case": c, "got": ts, "want": want})
                break
            # the simplex search is sharp; the linear one (COBYLA) may stop early, but does not climb
            f = lambda v, T: sum(k * (y - a - b * T) ** 2 for y, a, b, k in zip(v, c["at"], c["slope"], c["k"]))
            steps = list(zip([x[0]] + x, x))
            if not all(f(v, T) < 1e-4 if c["which"] == 2 else f(v, T) <= f(u, T) + 1e-2 for (_, u), (T, v) in steps):
                ck.violation("development of the minima: not the minimum at that temperature", {"case": c, "got": x})
                break
    ck.traces += len(todo)


def plotter(ck, cases, exe, tmp):
    jobs = []
    for c in cases:
        n = c["n"]
        d = len(n)
        m = ck.rng.choice([k for k in NV if NV[k] == d] or ["cxsm"])
        slice_ = NV[m] != d
        tab, line, leg, row = table(ck, m, tmp, ck.rng.choice([0, 3]))
        T = ck.rng.choice([0.0, ck.rng.uniform(0, 300)])
        out = tab + ".out"
        cmd = [vlib.prog_path("PotPlotter"), "--model=" + m, "--input=" + tab, "--output=" + out, "--line=%d" % line,
               "--temperature=%r" % T]
        j = dict(m=m, leg=leg, row=row, T=T, out=out, cmd=cmd, ref=None)
        fmt = ck.rng.choice([repr, lambda x: "%.17g" % x])
        if slice_:
            d = NV[m]
            a = [float(ck.rng.randrange(-3000, 3000) * ck.rng.choice(UNITS)) for _ in range(d)]
            b = [float(ck.rng.randrange(-3000, 3000) * ck.rng.choice(UNITS)) for _ in range(d)]
            j["want"] = [[at(x, y, i, n[0]) if n[0] else x for x, y in zip(a, b)] for i in range(n[0] + 1)]
            cmd += ["--slice=true", "--min_start=" + ",".join(map(fmt, a)), "--min_end=" + ",".join(map(fmt, b)), "--npoints=%d" % n[0]]
        else:
            ref = [0.0] * d if ck.rng.random() < 0.4 else [ck.rng.choice([0.0, -1.0, float(ck.rng.randrange(-3000, 3000) * ck.rng.choice(UNITS))]) for _ in range(d)]
            if any(ref):
                cmd.append("--point=" + ",".join(map(fmt, ref)))
            ends = []
            for k in range(d):
                lo, hi = axis(ck, n[k])
                ends.append((lo, hi))
                if n[k] or ck.rng.random() < 0.3:
                    cmd += ["--npoints%d=%d" % (k + 1, n[k]), "--low%d=%s" % (k + 1, fmt(lo)), "--high%d=%s" % (k + 1, fmt(hi))]
            j["ref"] = ref
            j["want"] = [[at(*ends[k], i[k], n[k]) if n[k] else ref[k] for k in range(d)] for i in c["rows"]]
        jobs.append(j)
    with ThreadPoolExecutor(vlib.NPROC) as ex:
        codes = list(ex.map(lambda j: call(j["cmd"]), jobs))
    vals = vlib.run_driver(exe, [dict(cmd="veff", model=j["m"], legend=j["leg"], line=j["row"],
                                      at=[[w, j["T"]] for w in j["want"] + ([j["ref"]] if j["ref"] else [])]) for j in jobs], jobs=vlib.NPROC)
    for j, (code, text), v in zip(jobs, codes, vals):
        head, rows = read(j["out"])
        det = {"command": j["cmd"][1:], "code": code, "text": text, "line": j["row"], "rows": rows[:8], "want": j["want"][:8]}
        if "at" not in v:
            raise vlib.CheckError("no reference values: %s" % v)
        if code != 0:
            ck.violation("PotPlotter fails on a valid grid", det)
            continue
        names = v["legend"]
        if head != names + ([x + "_point" for x in names] + ["Veff(v,T)", "Veff(point,T)", "T"] if j["ref"] else ["Veff(v,T)", "T"]):
            ck.violation("PotPlotter: unexpected legend", dict(det, legend=head))
            continue
        val = [x["V"] for x in v["at"]]
        d = len(names)
        scale = max(abs(x) for w in j["want"] for x in w) + 1
        if len(rows) != len(j["want"]):
            ck.violation("PotPlotter: %d rows for %d grid points" % (len(rows), len(j["want"])), det)
            continue
        vs = max([abs(x) for x in val if isinstance(x, float)] + [1.0])
        for i, (g, w) in enumerate(zip(rows, j["want"])):
            want = w + (j["ref"] + [val[i], val[-1], j["T"]] if j["ref"] else [val[i], j["T"]])
            ok = len(g) == len(want)
            for k, (x, y) in enumerate(zip(g, want)):
                isv = k >= d and k not in range(d, 2 * d if j["ref"] else d) and k != len(want) - 1
                if isinstance(y, str):
                    ok = ok and str(x).replace("-nan", "nan") == y
                else:
                    # the grid point is rounded, the potential is steep
                    ok = ok and close(x, y, max(scale, j["T"]) if not isv else 1e3 * vs)
            if not ok:
                ck.violation("PotPlotter: row %d is not the potential at its grid point" % (i + 1), dict(det, got=g, wanted=want))
                break
    ck.sample({"plotter": jobs[0]["cmd"][1:], "rows": len(jobs[0]["want"])})
    ck.traces += len(jobs)


def delicate(start, stop, step, n):
    t, k = start, 0
    while t <= stop and k < 1000:
        t, k = t + step, k + 1
    return k != n or int((stop - start) / step) + 1 != n or start + (n - 1) * step > stop


def vevevo(ck, cases, exe, tmp):
    jobs = []
    for i, c in enumerate(cases):
        s = c["scan"]
        m = ck.rng.choice(["sm", "cxsm", "cxsm", "r2hdm"] if i % 8 or not ck.thorough else ["n2hdm", "c2hdm"])
        tab, line, leg, row = table(ck, m, tmp, ck.rng.choice([0, 3]))
        # prefer scans whose accumulated or divided rounding errors would lose or add the last point
        us = [u for u in UNITS if delicate(*[float(s[k] * u) for k in ("start", "stop", "size")], len(c["rows"]))]
        u = ck.rng.choice(us or UNITS)
        out = tab + ".out"
        ends = [float(s[k] * u) for k in ("start", "stop", "size")]
        cmd = [vlib.prog_path("VEVEVO"), "--model=" + m, "--input=" + tab, "--output=" + out, "--line=%d" % line,
               "--temperatureStart=%r" % ends[0], "--temperatureEnd=%r" % ends[1], "--temperatureStep=%r" % ends[2]]
        jobs.append(dict(m=m, leg=leg, row=row, out=out, cmd=cmd, want=[float(F(ends[0]) + i * F(ends[2])) for i in range(len(c["rows"]))]))
    with ThreadPoolExecutor(vlib.NPROC) as ex:
        codes = list(ex.map(lambda j: call(j["cmd"]), jobs))
    asked = []
    for j, (code, text) in zip(jobs, codes):
        head, rows = read(j["out"])
        det = {"command": j["cmd"][1:], "code": code, "text": text, "line": j["row"], "rows": rows[:8], "want": j["want"]}
        if code != 0:
            ck.violation("VEVEVO fails on a valid scan", det)
            continue
        ts = [r[0] for r in rows]
        scale = max(map(abs, j["want"])) + 1
        if len(ts) != len(j["want"]) or not all(close(a, b, scale) for a, b in zip(ts, j["want"])):
            ck.violation("VEVEVO: temperatures are not those of the scan", det)
            continue
        if any(len(r) != NV[j["m"]] + 3 for r in rows) or len(head) != NV[j["m"]] + 3:
            ck.violation("VEVEVO: rows do not match the legend", dict(det, legend=head))
            continue
        # any change of the rows would show at the ends and in the middle
        some = [rows[i] for i in sorted({0, len(rows) - 1})]
        asked.append((j, head, some, det))
    vals = vlib.run_driver(exe, [dict(cmd="veff", model=j["m"], legend=j["leg"], line=j["row"], min=True,
                                      at=[[r[2:-1], r[0]] for r in some]) for j, h, some, det in asked], jobs=vlib.NPROC)
    for (j, head, some, det), v in zip(asked, vals):
        if "at" not in v:
            raise vlib.CheckError("no reference values: %s" % v)
        if head != ["T", "v"] + v["legend"] + ["Veff(v,T)"]:
            ck.violation("VEVEVO: unexpected legend", dict(det, legend=head))
        for r, x in zip(some, v["at"]):
            if not (isinstance(x["V"], float) and isinstance(x["depth"], float)):
                ck.extra["points without a finite potential"] = ck.extra.get("points without a finite potential", 0) + 1
                continue
            s = max(abs(x["V"]), abs(x["depth"]), 1.0)
            if not (abs(r[1] - x["v"]) <= 1e-10 * (1 + x["v"]) and abs(r[-1] - x["V"]) <= 1e-9 * s):
                ck.violation("VEVEVO: the row is not the potential at its point", dict(det, row=r, wanted=x))
                break
            # (two searches need not find the same minimum to better than this)
            if r[-1] > x["depth"] + 1e-3 * s:
                ck.violation("VEVEVO: the row is not the global minimum", dict(det, row=r, wanted=x))
                break
    ck.sample({"vevevo": jobs[0]["cmd"][1:], "temperatures": jobs[0]["want"]})
    ck.traces += len(jobs)


def run_specs(ck):
    ck.spec("MC_Scan", cfg_text=CFG % ('"grid", "scan"', "1, 2, 3", "0, 1, 2, 3", 64, "0, 3", "SmallSizes", "0, 1, 2, 5", "0, 1, 2", "All", "GRank GAll SScan"))
    quick = dict(depth=400, seed=ck.seed, workers=1)
    g = ck.spec("MC_Scan", cfg_text=CFG % ('"grid"', "1, 2, 3, 4, 5", "0, 0, 1, 2, 3, 5, 7, 11", ck.pick(150, 400), "0", "SmallSizes", "0", "0", "One", "Emit GCount GRank"),
                simulate=ck.pick(1500, 6000), **quick).cases
    s = ck.spec("MC_Scan", cfg_text=CFG % ('"scan"', "1", "0", 1, "0, 0, 1, 3, 17, 100, 130", "ManySizes", "0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 12, 14", "0, 0, 1, 2, 6", "One", "Emit SScan"),
                simulate=ck.pick(2500, 10000), **quick).cases
    ck.rng.shuffle(g)
    ck.rng.shuffle(s)
    return g, s


def run(ck):
    g, s = run_specs(ck)
    vlib.build(["d_scan", "PotPlotter", "VEVEVO"])
    exe = vlib.driver("d_scan")
    grids(ck, g, exe)
    develop(ck, s[:ck.pick(300, 2000)], exe)
    with tempfile.TemporaryDirectory(prefix="p22-") as tmp:
        per = {}
        some = []
        for c in g:  # every dimension, models with two dimensions do not exist
            d = len(c["n"])
            per[d] = per.get(d, 0) + 1
            if per[d] <= ck.pick(12, 60):
                some.append(c)
        plotter(ck, some, exe, tmp)
        # the temperature rises in this program and is not negative
        up = [c for c in s if c["scan"]["size"] > 0 and len(c["rows"]) <= 7]
        up.sort(key=lambda c: not any(delicate(*[float(c["scan"][k] * u) for k in ("start", "stop", "size")], len(c["rows"])) for u in UNITS))
        k = ck.pick(8, 80)
        vevevo(ck, up[:k] + up[-k:], exe, tmp)
    ck.assumptions += ["axes are given as 17-digit decimals of lattice points in units of 1, 1/10, 1/100, 1/4, 7/10, 1/3, 13/1000",
                       "the end of a temperature scan is met when it is a whole number of steps away up to rounding",
                       "no shipped model has two or six vacuum directions; grids of six directions are not reached"]
    ck.extra["grids"] = len(g)
    ck.extra["scans"] = len(s)
