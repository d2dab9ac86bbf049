"""P05: rows of the programs that work through a table of parameter points."""
import json
import os
import random
import shutil
import subprocess
import tempfile
import threading
from concurrent.futures import ThreadPoolExecutor
import p04
import points
import vlib

CFG = """SPECIFICATION Spec
CONSTANTS
 MaxLines = %d
 Points = {%s}
 Beyond = 2
 Pick <- %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
PROGRAMS = ["BSMPT", "NLOVEV", "CalcCT", "TripleHiggsNLO", "CalcTemps", "CalcGW", "MinimaTracer"]
FAST = ["sm", "cxsm", "r2hdm"]


def pool(m, seed):
    """Three parameter points of a model: columns without the index."""
    rng = random.Random(seed * 31 + len(m))
    k0 = 1 if points.DATA[m]["index"] else 0
    # points without tachyons at their vacuum: the triple couplings are not defined otherwise
    kinds = [(3, 0.05), (3, 0.02), (0, 0.002)] if m == "cxsm" else [(0, 0.05)] * 3
    return [points.line(m, rng, sp, 1, variant=v).split("\t")[k0:] for v, sp in kinds]


def head(m):
    k0 = 1 if points.DATA[m]["index"] else 0
    return points.DATA[m]["legend"].split("\t")[k0:]


def answers(k, par):
    """What tracing and bounce would report for point k: differs per point."""
    pairs = []
    for i in range(k % 3):
        pairs.append({"f": i, "t": i + 1, "lo": 10.0 + k, "hi": 200.0 + i, "crit": "success", "Tc": 150.5 + k + i / 8,
                      "bounce": "success" if (k + i) % 4 else "failure", "alpha": 0.1 * (k + 1), "vw": 0.5 + k / 16,
                      "beta": 80.0 + k, "nucl_approx": 140.25 + k, "nucl": 139.5 + k,
                      "perc": 130.75 + k + i / 4, "compl": 120.125 + k if (k + i) % 5 else None})
    return {"par": par, "nlo": k != 3, "ewsr": [3, 2, 3, 1][k % 4], "tracing": "success",
            "coex": "success" if pairs else "no_coex_pair",
            "phases": [{"T": [float(10 * k + j) for j in range(1 + (k + i) % 3)]} for i in range(1 + k % 3)], "pairs": pairs}


def run_program(prog, m, rows, index, newline, first, last, extra=None):
    """rows: list of point columns or None for an empty line."""
    d = tempfile.mkdtemp(prefix="rows-")
    try:
        leg = head(m)
        lines = []
        for k, r in enumerate(rows):
            lines.append("" if r is None else "\t".join(([str(100 + k)] if index else []) + r))
        text = "\n".join(["\t".join(([""] if index else []) + leg)] + lines)
        open(d + "/in", "w").write(text + ("\n" if newline else ""))
        log = d + "/calls"
        open(log, "w").close()
        uniq = []
        for p in pool_of(m):
            uniq.append([float(x) for x in p])
        json.dump({"log": log, "points": [answers(k + 1, p) for k, p in enumerate(uniq)]}, open(d + "/scenario", "w"))
        args = ["--model=" + m, "--input=" + d + "/in", "--output=" + d + "/out", "--firstline=%d" % first, "--lastline=%d" % last]
        if prog in ("CalcTemps", "CalcGW"):
            args += ["--checknlo=off"]
        try:
            r = subprocess.run([p04.exe(prog)] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                               timeout=120, env=dict(os.environ, STUB_SCENARIO=d + "/scenario", STUB_LOG=log))
            code, msg = r.returncode, r.stdout[-300:]
        except subprocess.TimeoutExpired:
            code, msg = "timeout", ""
        files = {f: [l.split("\t") for l in open(d + "/" + f).read().split("\n")] for f in sorted(os.listdir(d)) if f.startswith("out")}
        return {"code": code, "msg": msg, "files": files, "lines": lines}
    finally:
        shutil.rmtree(d, ignore_errors=True)


_pools = {}
_seed = 1


def pool_of(m):
    if m not in _pools:
        _pools[m] = pool(m, _seed)
    return _pools[m]


_single = {}
_locks = {}
_guard = threading.Lock()


def single(prog, m, k):
    """The row of point k alone: legend and cells after the parameter columns."""
    key = (prog, m, k)
    with _guard:
        lock = _locks.setdefault(key, threading.Lock())
    with lock:
        if key not in _single:
            p = pool_of(m)[k - 1]
            res = run_program(prog, m, [p], False, True, 2, 2)
            f = res["files"].get("out_1.tsv" if prog == "MinimaTracer" else "out", [])
            if res["code"] != 0 or len(f) < 3:
                raise vlib.CheckError("%s does not process a single point of %s: %s %s" % (prog, m, res["code"], res["msg"]))
            n = len(p)
            _single[key] = (f[0][n:], [r[n:] for r in f[1:-1]])
        return _single[key]


def named(legend, row):
    return {c: x for c, x in zip(legend, row) if c != "runtime"}


def same_cells(prog, legend, row, sl, srow):
    """None, or what differs between a row and the row of its point alone."""
    if prog in ("CalcTemps", "CalcGW"):
        # later rows may have more transitions: the columns of those are empty here
        a, b = named(legend, row), named(sl, srow)
        for c in b:
            if a.get(c) != b[c]:
                return "%s: %s instead of %s" % (c, a.get(c), b[c])
        for c in a:
            if c not in b and a[c] != "nan":
                return "%s: %s instead of nothing" % (c, a[c])
        return None
    skip = [k for k, c in enumerate(sl) if c == "runtime"]
    a = [x for k, x in enumerate(row) if k not in skip]
    b = [x for k, x in enumerate(srow) if k not in skip]
    return None if a == b and legend == sl else "%s instead of %s" % (str(a)[:150], str(b)[:150])


def judge(prog, m, c, res):
    n = len(head(m)) + (1 if c["index"] else 0)
    chosen = [c["table"][k - 2] for k in c["lines"]]
    texts = [res["lines"][k - 2] for k in c["lines"]]
    if res["code"] != 0:
        return ["the run ends with %s" % res["code"]]
    bad = []
    legend = ([""] if c["index"] else []) + head(m)
    if prog == "MinimaTracer":
        if sorted(res["files"]) != sorted("out_%d.tsv" % (k + 1) for k in range(len(chosen))):
            return ["files %s for the lines %s" % (sorted(res["files"]), c["lines"])]
        tabs = [(res["files"]["out_%d.tsv" % (k + 1)], [t], [p]) for k, (t, p) in enumerate(zip(texts, chosen))]
    else:
        f = res["files"].get("out", [[""]])
        if not chosen and len(f) <= 1:
            return []
        tabs = [(f, texts, chosen)]
    for f, ts, ps in tabs:
        if f[0][:n] != legend:
            bad.append("legend begins with %s" % f[0][:n])
        body = f[1:-1] if f[-1] == [""] else f[1:]
        i = 0
        for t, p in zip(ts, ps):
            sl, srows = single(prog, m, p)
            for s in srows:
                if i >= len(body):
                    bad.append("%d rows for the lines %s" % (len(body), c["lines"]))
                    return bad
                if "\t".join(body[i][:n]) != t:
                    bad.append("a row begins with %s instead of the line of its point" % str(body[i][:n])[:200])
                    return bad
                diff = same_cells(prog, f[0][n:], body[i][n:], sl, s)
                if diff:
                    bad.append("a row differs from that of its point alone: " + diff)
                i += 1
        if i < len(body):
            bad.append("%d rows for the lines %s" % (len(body), c["lines"]))
    return bad


def run(ck):
    global _seed
    _seed = ck.seed
    p04.build()
    ck.spec("MC_LineTable", cfg_text=CFG % (ck.pick(3, 5), "1, 2", "All", "Ordered OnlyAsked AllAsked Parts"), timeout=1500)
    small = ck.spec("MC_LineTable", cfg_text=CFG % (2, "1", "All", "Emit"))
    n = ck.pick(180, 1800)
    drawn = ck.specs([dict(module="MC_LineTable", cfg_text=CFG % (k, "1, 2, 3", "One", "OnlyAsked Emit"), simulate=n // 3, depth=30,
                           seed=ck.seed * 100 + k) for k in (3, 5, 7)])
    jobs = []
    rng = random.Random(ck.seed * 977)
    for prog in PROGRAMS:
        models = FAST if not ck.thorough else points.MODELS
        if prog == "TripleHiggsNLO":
            models = ["sm", "cxsm"] if not ck.thorough else ["sm", "cxsm", "r2hdm", "n2hdm"]
        mine = rng.sample(small.cases, min(len(small.cases), ck.pick(24, 400))) + \
            rng.sample(drawn, min(len(drawn), ck.pick(30, 400)))
        for i, c in enumerate(mine):
            jobs.append((prog, models[i % len(models)], c))

    def one(j):
        prog, m, c = j
        rows = [None if x == 0 else pool_of(m)[x - 1] for x in c["table"]]
        res = run_program(prog, m, rows, c["index"], c["newline"], c["first"], c["last"])
        return judge(prog, m, c, res), res
    with ThreadPoolExecutor(vlib.NPROC) as ex:
        rs = list(ex.map(one, jobs))
    for (prog, m, c), (bad, res) in zip(jobs, rs):
        ck.traces += 1
        d = {"program": prog, "model": m, "table": c["table"], "lines requested": [c["first"], c["last"]],
             "final newline": c["newline"], "index column": c["index"], "rows expected for lines": c["lines"],
             "code": res["code"], "message": res["msg"]}
        ck.sample(d)
        for b in bad[:2]:
            ck.violation("%s: %s" % (prog, b), d)
    ck.extra["runs"] = {p: sum(1 for j in jobs if j[0] == p) for p in PROGRAMS}
    ck.extra["models"] = sorted({j[1] for j in jobs})
    ck.assumptions += ["minimisation, tracing and bounce are scripted functions of the parameter point; counterterms and triple couplings are the real ones"]
