"""P23: counterterms keep the tree-level vacuum and the masses."""
import math
import points
import vlib

CFG = """SPECIFICATION Spec
CONSTANTS
 Models = {%s}
 Coefs %s
 Tadpoles = %s
 Single = %s
 Pick <- %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
ALL = ["sm", "cxsm", "r2hdm", "c2hdm", "n2hdm", "cpinthedark"]
V0 = 246.21965079413738
NEUTRAL = {"sm": (), "cxsm": (4, 5), "n2hdm": (8,), "cpinthedark": ()}


def line(m, vac, rng, variant):
    """A point of the model with its vacuum at vac (in units): (line, unit)."""
    leg = points.legend(m).split("\t")
    row = points.line(m, rng, 0.05).split("\t")

    def put(name, x):
        row[leg.index(name)] = repr(x)
    if m == "cxsm":
        u = V0 / vac[3]
        put("v", V0)
        put("vs", vac[4] * u)
        put("va", vac[5] * u)
        if variant == 1:
            put("Ima1", 3.25)
            put("Rea1", -2.5)
        elif variant == 2:
            put("Imb1", 41.5)
            put("Rea1", 17.25)
        return "\t".join(row), u
    if m in ("sm", "cpinthedark"):
        return "\t".join(row if m == "sm" else points.line(m).split("\t")), V0 / 3
    a, b = [x for x in vac if x != 0][:2]
    u = V0 / math.hypot(a, b)
    for n in ("tbeta", "p_tbeta"):
        if n in leg:
            put(n, b / a)
    if m == "n2hdm":
        put("p_vs", vac[8] * u)
    return "\t".join(row), u


def singlets(vac, rng):
    """A CxSM point with random singlet parameters."""
    leg = points.legend("cxsm").split("\t")
    row = points.line("cxsm", rng, 0.05).split("\t")
    u = V0 / vac[3]
    put = dict(v=V0, vs=vac[4] * u, va=vac[5] * u, delta2=rng.uniform(-0.2, 0.2), d2=rng.uniform(0.1, 2), b2=rng.uniform(-1e5, 2e5),
               Reb1=rng.uniform(-5e4, 5e4), Imb1=rng.uniform(-5e4, 5e4), Rea1=rng.uniform(-3e7, 3e7), Ima1=rng.uniform(-3e7, 3e7))
    for k, x in put.items():
        row[leg.index(k)] = repr(x)
    return "\t".join(row)


def close(a, b, size):
    return isinstance(a, float) and abs(a - b) <= 1e-9 * size


def judge(c, o, u):
    if "ct" not in o:
        return "fails: %s" % str(o)[:200]
    n = len(c["vac"])
    for k in range(n):
        if not close(o["v"][k], c["vac"][k] * u, 1e4):
            return "vacuum at %s, the point has %s" % (o["v"], [x * u for x in c["vac"]])
    byname = dict(zip(o["labels"], o["ct"]))
    if len(o["labels"]) != len(o["ct"]) or len(byname) != len(o["ct"]) or sorted(byname) != sorted(x["name"] for x in c["ops"]):
        return "counterterms %s (%s)" % (o["labels"], o["ct"])
    # the potential of the counterterms as specified
    cg = [0.0] * n
    ch = [[0.0] * n for _ in range(n)]
    size = [1.0, 1.0]
    for x in c["ops"]:
        z = byname[x["name"]]
        if not isinstance(z, float):
            z = float("nan")
        w = z * (math.sqrt(2) if x["root"] else 1) / 16
        for i in range(n):
            cg[i] += w * x["g"][i] * u ** (3 - x["d"])
            size[0] = max(size[0], abs(w * x["g"][i] * u ** (3 - x["d"])))
            for j in range(n):
                ch[i][j] += w * x["h"][i][j] * u ** (2 - x["d"])
                size[1] = max(size[1], abs(w * x["h"][i][j] * u ** (2 - x["d"])))
    lg = [x / 16 * u ** 3 for x in c["g"]]
    lh = [[x / 16 * u ** 2 for x in r] for r in c["h"]]
    size[0] = max(size[0], max(map(abs, lg)))
    size[1] = max(size[1], max(abs(x) for r in lh for x in r))
    size[0] = max(size[0], size[1] * u)
    for i in range(n):
        if not close(cg[i] + lg[i], 0, size[0]):
            return "gradient in field %d is left at %s (one-loop part %s)" % (i, cg[i] + lg[i], lg[i])
        if not close(o["N"][i], cg[i], size[0]) or not close(o["G"][i], cg[i], size[0]):
            return "gradient of the counterterm potential in field %d is %s / %s, from the counterterms %s" % (i, o["N"][i], o["G"][i], cg[i])
        for j in range(n):
            if not close(ch[i][j] + lh[i][j], 0, size[1]):
                return "mass shift of fields %d and %d is left at %s (one-loop part %s)" % (i, j, ch[i][j] + lh[i][j], lh[i][j])
            if not close(o["H"][i][j], ch[i][j], size[1]):
                return "masses of the counterterm potential in %d, %d: %s, from the counterterms %s" % (i, j, o["H"][i][j], ch[i][j])
    return None


def judge_real(o, model):
    """The one-loop potential of the model itself: '' when the point has no stable vacuum."""
    if "ct" not in o:
        return "fails: %s" % str(o)[:200]
    num = lambda x: x if isinstance(x, float) else float("nan")
    n = len(o["v"])
    m2 = max(abs(num(x)) for r in o["M"] for x in r)
    if not num(o["min"]) > -1e-3:
        return ""
    gs = max([abs(num(x)) for x in o["loopg"]] + [m2 * V0])
    hs = max([abs(num(x)) for r in o["looph"] for x in r] + [m2])
    fdh = iter(o["fdh"])
    # counterterms of 1e-5 and less are not kept
    vv = 4 * sum(x * x for x in o["v"])
    cut = 1e-5 * vv if any(x == 0 for x in o["ct"]) else 0
    left = set()
    if model == "cxsm":  # one operator for the mixing of the doublet with two singlet fields
        left = {3, 4} if o["v"][5] != 0 else {3, 5} if o["v"][4] != 0 else set()
    for i in range(n):
        if not abs(num(o["tree"][i])) <= 1e-9 * m2 * V0:
            return "tree-level gradient in field %d at the vacuum is %s" % (i, o["tree"][i])
        q = (4 * num(o["fd"][i][1]) - num(o["fd"][i][0])) / 3
        # very light scalars leave the quotients slowly: h^2 log h
        if not abs(q - num(o["loopg"][i])) <= 1e-7 * gs + 4 * abs(num(o["fd"][i][1]) - num(o["fd"][i][0])):
            return "one-loop gradient in field %d is %s, the potential has %s" % (i, o["loopg"][i], q)
        if not abs(num(o["N"][i]) + num(o["loopg"][i])) <= 1e-9 * gs + cut * vv ** 0.5:
            return "gradient in field %d is left at %s + %s" % (i, o["loopg"][i], o["N"][i])
        for j in range(n):
            x = num(o["looph"][i][j])
            if not abs(num(o["H"][i][j]) + x) <= 1e-9 * hs + cut and {i, j} != left:
                return "mass shift of fields %d and %d: one-loop %s, counterterms %s" % (i, j, x, o["H"][i][j])
            if j <= i:
                q = num(next(fdh))
                if num(o["light"]) > 3e3 and not abs(q - x) <= 1e-4 * hs:
                    return "one-loop masses of fields %d and %d are %s, the potential has %s" % (i, j, x, q)
    return None


def run(ck):
    models = ", ".join('"%s"' % m for m in ALL)
    ck.spec("MC_Counterterms", cfg_text=CFG % (models, "= {1}", "FALSE", "TRUE", "All", "Cancels Symmetric Goldstone"))
    runs = []
    runs.append(dict(module="MC_Counterterms", cfg_text=CFG % (models, "= {3}", "TRUE", "TRUE", "All", "Cancels Emit")))
    for t in ("TRUE", "FALSE"):
        for m in ALL:
            runs.append(dict(module="MC_Counterterms", cfg_text=CFG % ('"%s"' % m, "<- Mixed", t, "FALSE", "One", "Cancels Emit"),
                             simulate=ck.pick(15, 600), depth=6, seed=ck.seed * 7 + 1))
    cases = ck.specs(runs)
    work, lines = [], {}
    for c in cases:
        for k in range(3 if c["model"] == "cxsm" else 1):
            # a few points for each vacuum, so that drivers need not load a point for each shift
            key = (c["model"], tuple(c["vac"]), k, ck.rng.randrange(2))
            if key not in lines:
                lines[key] = line(c["model"], c["vac"], ck.rng, k)
            l, u = lines[key]
            work.append({"model": c["model"], "legend": points.legend(c["model"]), "line": l, "case": c, "u": u,
                         "g": [x / 16 * u ** 3 for x in c["g"]], "h": [[x / 16 * u ** 2 for x in r] for r in c["h"]]})
    outs = vlib.run_driver(vlib.driver("d_ct"), [{k: w[k] for k in ("model", "legend", "line", "g", "h")} for w in work],
                           jobs=vlib.NPROC, timeout=900, together=lambda w: w["model"] + w["line"])
    stat = {}
    for w, o in zip(work, outs):
        ck.traces += 1
        c = w["case"]
        bad = judge(c, o, w["u"])
        stat[c["model"]] = stat.get(c["model"], 0) + 1
        if bad:
            ck.violation("%s, vacuum %s: %s" % (c["model"], c["vac"], bad),
                         {"line": w["line"], "one-loop": {x["name"]: x["c"] for x in c["ops"] if x["c"]}, "observed": o})
    ck.extra["configurations"] = stat
    # the one-loop part of the model itself
    work, seen = [], set()
    for c in cases:
        k = (c["model"], tuple(c["vac"]))
        if k not in seen:
            seen.add(k)
            for v in range(3 if c["model"] == "cxsm" else 1):
                work.append({"model": c["model"], "legend": points.legend(c["model"]), "line": line(c["model"], c["vac"], ck.rng, v)[0]})
            if c["model"] == "cxsm":
                for _ in range(ck.pick(12, 200)):
                    work.append({"model": "cxsm", "legend": points.legend("cxsm"), "line": singlets(c["vac"], ck.rng)})
    for m in ALL:
        for _ in range(ck.pick(4, 150)):
            work.append({"model": m, "legend": points.legend(m), "line": points.line(m, ck.rng, 0.05 if m != "cpinthedark" else 0)})
    outs = vlib.run_driver(vlib.driver("d_ctreal"), work, jobs=vlib.NPROC, timeout=900)
    stat = {}
    for w, o in zip(work, outs):
        ck.traces += 1
        bad = judge_real(o, w["model"])
        if bad != "":
            stat[w["model"]] = stat.get(w["model"], 0) + 1
        if bad:
            ck.violation("%s, own one-loop potential: %s" % (w["model"], bad), {"line": w["line"], "observed": o})
    ck.extra["own one-loop potential"] = stat
