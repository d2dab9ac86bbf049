"""P06: the tables of CalcTemps, CalcGW and MinimaTracer."""
import random
from concurrent.futures import ThreadPoolExecutor
import analysis as A
import points
import vlib

TAB = """SPECIFICATION Spec
CONSTANTS
 Points = %d
 MaxPhases = %d
 MaxLength = %d
 EwsrChecks = {0, 1}
 EwsrAnswers <- Answers
 TraceAnswers <- Traces
 Pick <- %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
OPTS = {"nlo": False, "ewsr": 0, "gw": False, "chosen": 3}
MODELS = ["sm", "cxsm", "r2hdm", "sm", "cxsm", "c2hdm", "sm", "cxsm", "n2hdm", "sm", "cxsm", "cpinthedark"]


def combine(ck, behaviours, n):
    """Tables whose rows come from different behaviours of the same options:
    every mixture of early ends, many pairs and few pairs, in any order."""
    by = {}
    for b in behaviours:
        by.setdefault(str(sorted(b["opts"].items())), []).append(b)
    out = []
    keys = sorted(by)
    for i in range(n):
        bs = by[keys[i % len(keys)]]
        rows = [r for b in ck.rng.sample(bs, min(len(bs), 3)) for r in b["rows"]]
        ck.rng.shuffle(rows)
        out.append({"opts": bs[0]["opts"], "rows": rows[:ck.rng.randrange(1, 6)]})
    return out


def judge_table(res, rows, opts, model):
    """Disagreements of a whole table: (what, text)."""
    if res["code"] != 0:
        return [("exit code", "%s: %s" % (res["code"], res["msg"][-200:]))]
    t = res["table"]
    if len(t) != len(rows) + 1:
        return [("number of rows", "%d lines for %d points" % (len(t), len(rows)))]
    bad = []
    leg = points.legend(model).split("\t")
    if t[0][:len(leg)] != leg:
        bad.append(("legend of the input", str(t[0][:len(leg)])))
    for k, (row, cells, sc, line) in enumerate(zip(rows, t[1:], res["scripts"], res["lines"])):
        for kind, text in A.judge_row(t[0], cells, row, opts, model, sc, res["options"]):
            if kind in ("shape", "cell", "value", "status"):
                bad.append(({"shape": "shape of the table", "cell": "cells a point does not have"}.get(kind, "cell under a wrong name"), "row %d: %s" % (k, text)))
        if cells[:len(leg)] != line.split("\t"):
            bad.append(("cells of the input", "row %d: %s for %s" % (k, cells[:len(leg)], line)))
        n = t[0].index("status_nlo_stability") if "status_nlo_stability" in t[0] else 0
        for name, c in zip(t[0][len(leg):n], cells[len(leg):n]):
            if A.num(c) is None:
                bad.append(("cells of the counterterms", "%s is %r" % (name, c)))
    return bad


def alone(res, k, single):
    """A point's cells do not depend on the other points."""
    if single["code"] != 0 or len(single["table"]) != 2:
        return [("the point alone", "exit code %s, %d lines: %s" % (single["code"], len(single["table"]), single["msg"][-200:]))]
    many = dict(zip(res["table"][0], res["table"][1 + k]))
    one = dict(zip(*single["table"]))
    bad = []
    for name in one:
        if name == "runtime":
            continue
        if name not in many:
            bad.append("%s is missing in the larger table" % name)
        elif many[name] != one[name]:
            bad.append("%s is %s, alone %s" % (name, many[name], one[name]))
    bad += ["%s is %s, alone there is no such column" % (name, c) for name, c in many.items() if name not in one and c != "nan"]
    return [("dependence on the other points", "row %d: %s" % (k, b)) for b in bad[:3]]


def minima(case, model, rng):
    names = {3: "ew_sym_res", 2: "ew_sym_non_res", 1: "flat_region", 0: "failure", -1: "non_bfb", -2: "off"}
    rows = []
    for t in case["tables"]:
        p = t["point"]
        rows.append({"rep": {"nlo": "success" if p["nlo"] else "no_nlo_stability", "ewsr": names[p["ewsr"]],
                             "tracing": p["trace"], "coex": "not_set"}, "pairs": [], "hist": [],
                     "len": p["len"], "cells": t["cells"]})
    opts = {"nlo": True, "ewsr": case["ewsr"], "gw": False, "chosen": 3}
    return rows, opts


def run_minima(case, model, seed):
    rng = random.Random(seed)
    rows, opts = minima(case, model, rng)
    old = A.script

    def script(row, o, par, r):
        s = old(dict(row, rep=dict(row["rep"], coex="no_coex_pair")), o, par, r)
        s["nlo"] = row["rep"]["nlo"] == "success"
        s["phases"] = [{"T": [300.0 - 7 * k - 1.5 * i for i in range(n)]} for k, n in enumerate(row["len"])]
        return s
    res = A.run("MinimaTracer", model, opts, rows, rng, extra={"checknlo": None}, script=script)
    if res["code"] != 0:
        return [("exit code", "%s: %s" % (res["code"], res["msg"][-200:]))]
    bad = []
    leg = points.legend(model).split("\t")
    nv = A.NV[model]
    for k, (row, t, sc) in enumerate(zip(rows, res["table"], res["scripts"])):
        if t is None or len(t) != len(row["cells"]) + 1:
            bad.append(("number of rows", "point %d: %s lines, expected %d" % (k, t and len(t), len(row["cells"]) + 1)))
            continue
        h = t[0]
        if len(set(h)) != len(h) or h[:len(leg)] != leg or h[-1] != "runtime":
            bad.append(("legend of the minima", "point %d: %s" % (k, h)))
        try:
            first = h.index("status_nlo_stability")
        except ValueError:
            bad.append(("legend of the minima", "point %d: no status columns in %s" % (k, h)))
            continue
        vev = [x for x in h[first + 3:-1]]
        names = []
        for i in range(len(row["len"])):
            g = vev[i * (nv + 2):(i + 1) * (nv + 2)]
            if len(g) != nv + 2 or g[0] != "Temp_%d" % i or any("(Temp_%d)" % i not in x for x in g[1:]) or not g[-1].startswith("Veff"):
                bad.append(("legend of the minima", "point %d: columns of phase %d are %s" % (k, i, g)))
            names.append([x.replace("(Temp_%d)" % i, "") for x in g[1:]])
        if any(x != names[0] for x in names) or len(vev) != (nv + 2) * len(row["len"]):
            bad.append(("legend of the minima", "point %d: %s" % (k, vev)))
        ct = None
        for r, cells in enumerate(t[1:]):
            if len(cells) != len(h):
                bad.append(("shape of the table", "point %d row %d: %d cells, %d names" % (k, r, len(cells), len(h))))
                continue
            if cells[:len(leg)] != res["lines"][k].split("\t"):
                bad.append(("cells of the input", "point %d row %d: %s" % (k, r, cells[:len(leg)])))
            if ct is None:
                ct = cells[len(leg):first]
            if cells[len(leg):first] != ct or any(A.num(c) is None for c in ct):
                bad.append(("cells of the counterterms", "point %d row %d: %s" % (k, r, cells[len(leg):first])))
            st = cells[first:first + 3]
            want = [row["rep"]["nlo"], row["rep"]["ewsr"], row["rep"]["tracing"]]
            if [x.replace("syum", "sym") for x in st] != want:
                bad.append(("cell under a wrong name", "point %d row %d: status %s, expected %s" % (k, r, st, want)))
            for i, x in enumerate(row["cells"][r]):
                g = cells[first + 3 + i * (nv + 2):first + 3 + (i + 1) * (nv + 2)]
                if x < 0:
                    ok = all(c == "nan" for c in g)
                    w = "nan"
                else:
                    T = sc["phases"][i]["T"][x - 1]
                    w = [T] + A.at(i, T, nv) + [-1000 * (i + 1) - T]
                    ok = len(g) == len(w) and all(A.num(c) is not None and vlib.close(A.num(c), y, 1e-12) for c, y in zip(g, w))
                if not ok:
                    bad.append(("cell under a wrong name", "point %d row %d phase %d: %s, expected %s" % (k, r, i, g, w)))
            if A.num(cells[-1]) is None:
                bad.append(("cell under a wrong name", "runtime is %r" % cells[-1]))
    return bad


def run(ck):
    ck.spec("MC_MinimaTable", cfg_text=TAB % (ck.pick(1, 2), 2, 3, "All", "Aligned Complete"))
    A.specs(ck)
    cs = combine(ck, A.drawn(ck, ck.pick(60, 400)), ck.pick(64, 500))
    mt = ck.spec("MC_MinimaTable", cfg_text=TAB % (3, 4, 5, "One", "Aligned Complete Emit"), simulate=ck.pick(24, 200),
                 depth=200, seed=ck.seed, workers=1).cases
    vlib.build(["d_calctemps", "d_calcgw", "d_minimatracer"])

    def one(a):
        i, c = a
        m = MODELS[i % len(MODELS)]
        prog = "CalcGW" if c["opts"]["gw"] else "CalcTemps"
        rng = random.Random(ck.seed * 10007 + i)
        res = A.run(prog, m, c["opts"], c["rows"], rng)
        bad = judge_table(res, c["rows"], c["opts"], m)
        singles = 0
        if not bad and i % 2 == 0:
            k = rng.randrange(len(c["rows"]))
            s = A.run(prog, m, c["opts"], c["rows"], rng, extra={"firstline": k + 2, "lastline": k + 2},
                      keep_lines=res["lines"], scripts=res["scripts"])
            bad = alone(res, k, s)
            singles = 1
        return bad, res, c, m, prog, singles

    def tracer(a):
        i, c = a
        m = MODELS[i % len(MODELS)]
        return run_minima(c, m, ck.seed * 20011 + i), c, m
    with ThreadPoolExecutor(vlib.NPROC) as ex:
        rs = list(ex.map(one, enumerate(cs)))
        ts = list(ex.map(tracer, enumerate(mt)))
    for bad, res, c, m, prog, s in rs:
        ck.traces += 1 + s
        ck.sample({"program": prog, "model": m, "options": c["opts"], "pairs per row": [len(r["pairs"]) for r in c["rows"]]})
        for what, text in bad[:4]:
            ck.violation(what, {"program": prog, "model": m, "options": res["options"], "text": text,
                                "rows": c["rows"], "points": res["lines"]})
    for bad, c, m in ts:
        ck.traces += 1
        for what, text in bad[:4]:
            ck.violation(what, {"program": "MinimaTracer", "model": m, "text": text, "case": c})
    ck.extra["tables"] = len(cs) + 3 * len(mt)
    ck.extra["rows"] = sum(len(c["rows"]) for c in cs)
    ck.extra["tables with rows of different widths of content"] = sum(len({len(r["pairs"]) for r in c["rows"]}) > 1 for c in cs)
    ck.assumptions += ["the numerical work behind a run (global minimisation, tracing, bounce actions) is replaced by scripted answers; "
                       "the program, the transition analysis and the gravitational-wave part are the real ones",
                       "the running time of a point is the only cell allowed to differ between runs"]
