"""P19: stages, statuses and values of the transition analysis."""
import random
from concurrent.futures import ThreadPoolExecutor
import analysis as A
import vlib

CHOICES = {"vwall": [0.95, 0.4, 1, -1, -2], "perc_prbl": [0.71, 0.5, 0.9], "compl_prbl": [0.01, 0.2, 0.005],
           "epsturb": [0.1, 0, 1, -1], "thigh": [300, 250, 400.5], "num_pts": [10, 3, 25],
           "multistepmode": ["default", "0", "1", "2", "auto"], "maxpathintegrations": [7, 3]}


def variants(rng, gw):
    o = {}
    for k, v in CHOICES.items():
        if k == "epsturb" and not gw:  # an option of CalcGW only
            continue
        if rng.random() < 0.4:
            o[k] = rng.choice(v)
    return o


def run(ck):
    A.specs(ck)
    cs = A.drawn(ck, ck.pick(90, 900), points=3, pairs=3)
    cs += A.drawn(ck, ck.pick(20, 200), points=3, pairs=3, gw="TRUE")
    vlib.build(["d_calctemps", "d_calcgw"])
    models = ["sm", "cxsm", "sm", "cxsm", "sm", "cxsm", "sm", "r2hdm"] if not ck.thorough else ["sm", "cxsm", "r2hdm", "c2hdm", "n2hdm", "cpinthedark"]

    def one(a):
        i, c = a
        rng = random.Random(ck.seed * 7919 + i)
        m = models[i % len(models)]
        prog = "CalcGW" if c["opts"]["gw"] else "CalcTemps"
        extra = variants(rng, c["opts"]["gw"])
        res = A.run(prog, m, c["opts"], c["rows"], rng, extra=extra)
        if res["code"] != 0 or len(res["table"]) != len(c["rows"]) + 1:
            return [("no table", "%s: %d lines for %d points: %s" % (res["code"], len(res["table"]), len(c["rows"]), res["msg"]), None)], c, res
        bad = []
        for k, (row, cells, sc) in enumerate(zip(c["rows"], res["table"][1:], res["scripts"])):
            for kind, text in A.judge_row(res["table"][0], cells, row, c["opts"], m, sc, res["options"]):
                if kind == "status":
                    bad.append(("status of a stage", text, row))
                elif kind == "value":
                    bad.append(("value of a stage", text, row))
        for kind, text in A.judge_calls(res, c["rows"], c["opts"], res["options"]):
            bad.append(("stages entered" if kind == "stage" else "options of a stage", text, c["rows"]))
        return bad, c, res
    with ThreadPoolExecutor(vlib.NPROC) as ex:
        rs = list(ex.map(one, enumerate(cs)))
    seen = {}
    for bad, c, res in rs:
        ck.traces += 1
        ck.sample({"options": res["options"], "rows": [[r["rep"], len(r["pairs"])] for r in c["rows"]]})
        for r in c["rows"]:
            for k, v in r["rep"].items():
                seen["%s=%s" % (k, v)] = seen.get("%s=%s" % (k, v), 0) + 1
            for p in r["pairs"]:
                for k in ("crit", "bounce", "gw"):
                    seen["%s=%s" % (k, p[k])] = seen.get("%s=%s" % (k, p[k]), 0) + 1
        for what, text, ctx in bad[:4]:
            ck.violation(what, {"text": text, "context": ctx, "options": res["options"]})
    ck.extra["outcomes"] = seen
    ck.assumptions += ["the outcomes of the numerical stages (global minimum, tracing, critical temperature, bounce, characteristic temperatures, strength) are scripted; "
                       "the program, the gating, the record and the gravitational-wave stage are the real ones"]
