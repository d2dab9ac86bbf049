"""P09: coordinate maps, electroweak part, one-loop vacuum check."""
import math
import vlib
import points

CFG = "SPECIFICATION Spec\nCONSTANTS\n NMax = %d\n MaxOps = %d\n Pick <- %s\n%s" \
      "INVARIANTS RoundTrip Outside StripZero StripKeeps ScaleOfVacuum SelfSame%s\nCHECK_DEADLOCK FALSE\n"
# the documented field content: number of fields, vacuum directions, electroweak-neutral fields
SHIPPED = {
    "sm": (4, [2], []),
    "cxsm": (6, [3, 4, 5], [4, 5]),
    "r2hdm": (8, [2, 4, 6, 7], []),
    "c2hdm": (8, [2, 4, 6, 7], []),
    "n2hdm": (9, [1, 5, 6, 7, 8], [8]),
    "cpinthedark": (9, [2, 4, 6, 7, 8], [8]),
}


def near(a, b, tol=1e-12):
    return len(a) == len(b) and all(isinstance(x, (int, float)) and abs(x - y) <= tol * max(1, abs(y)) for x, y in zip(a, b))


def run(ck):
    rng = ck.rng
    ck.spec("MC_Layout", cfg_text=CFG % (2, 1, "All", " Vals <- SmallVals\n Near <- SmallNear\n Offs <- SmallOffs\n TreeVals <- SmallTree\n", ""), extra=())
    beh = ck.spec("MC_Layout", cfg_text=CFG % (6, 5, "One", " Vals <- BigVals\n Near <- BigNear\n Offs <- BigOffs\n TreeVals <- BigTree\n", " Emit"), simulate=ck.pick(6000, 100000), depth=40, seed=ck.seed, workers=1).cases
    cases = []
    for b in beh:
        c = {"cmd": "layout", "nH": b["n"], "order": [i - 1 for i in b["ord"]], "tree": [x / 8 for x in b["tree"]],
             "ew": [rng.randint(1, 3) if i + 1 in b["ew"] else 0 for i in range(b["n"])], "wells": [],
             "p": [x / 8 for x in b["hist"][0]["p"]], "f": [x / 8 for x in b["hist"][0]["f"]], "ops": [h["op"] for h in b["hist"][1:]]}
        cases.append(c)
    drv = vlib.driver("d_layout")
    outs = vlib.run_driver(drv, cases, jobs=vlib.NPROC, timeout=600)
    count = {}
    for b, c, o in zip(beh, cases, outs):
        ck.traces += 1
        if "out" not in o:
            ck.violation("layout operations failed: %s" % str(o)[:300], {"behaviour": b, "case": c, "observed": o})
            continue
        for k, (h, x) in enumerate(zip(b["hist"][1:], o["out"])):
            count[h["op"]] = count.get(h["op"], 0) + 1
            if h["op"] in ("same", "nan"):
                ok = x == h["out"]
                want = h["out"]
            elif h["op"] == "scale":
                want = 0.0 if h["out"] <= 16 else math.sqrt(h["out"]) / 8
                ok = abs(x - want) < 1e-9
            else:
                want = [v / 8 for v in h["out"]]
                ok = near(x, want)
            if not ok:
                ck.violation("%d fields, vacuum directions %s, charged %s: step %d (%s) gives %s, prescribed %s"
                             % (b["n"], c["order"], c["ew"], k + 1, h["op"], x, want), {"behaviour": b, "case": c, "observed": o})
                break
    # the shipped models
    models = sorted(SHIPPED)
    info = vlib.run_driver(drv, [{"cmd": "model", "model": m, "legend": points.legend(m), "line": points.line(m)} for m in models])
    work = []
    for m, o in zip(models, info):
        ck.traces += 1
        n, order, neutral = SHIPPED[m]
        if o.get("n") != n or o.get("ord") != order or o.get("nVEV") != len(order) or o.get("labels") != len(order):
            ck.violation("%s: field content %s, documented %s" % (m, str(o)[:300], SHIPPED[m]), o)
            continue
        for _ in range(ck.pick(60, 1000)):
            p = [rng.choice([-1, 1]) * abs(t + rng.choice([0, 0.5, -0.9, 0.99, 1.01, 5])) if rng.random() < 0.9 else rng.uniform(-300, 300) for t in o["tree"]]
            f = [rng.choice([0, rng.uniform(-300, 300), rng.uniform(-0.3, 0.3)]) for _ in range(n)]
            ops = [rng.choice(["embed", "project", "strip", "scale", "same"]) for _ in range(6)]
            work.append((m, o, {"cmd": "model", "model": m, "legend": points.legend(m), "line": points.line(m), "p": p, "f": f, "ops": ops}))
    outs = vlib.run_driver(drv, [w[2] for w in work], jobs=vlib.NPROC, timeout=600)
    for (m, inf, c), o in zip(work, outs):
        ck.traces += 1
        n, order, neutral = SHIPPED[m]
        p, f = list(c["p"]), list(c["f"])
        if "out" not in o:
            ck.violation("%s: %s" % (m, str(o)[:300]), {"case": c, "observed": o})
            continue
        for op, x in zip(c["ops"], o["out"]):
            if op == "embed":
                f = [p[order.index(i)] if i in order else 0.0 for i in range(n)]
                want, ok = f, near(x, f)
            elif op == "project":
                p = [f[i] for i in order]
                want, ok = p, near(x, p)
            elif op == "strip":
                p = [v if i in neutral else 0.0 for i, v in zip(order, p)]
                want, ok = p, near(x, p)
            elif op == "scale":
                want = math.sqrt(sum(v * v for i, v in enumerate(f) if i not in neutral))
                ok = abs(x - (want if want > 0.5 else 0)) < 1e-9 * max(1, want) or abs(want - 0.5) < 1e-9
            else:
                d = max(abs(abs(a) - abs(t)) for a, t in zip(p, inf["tree"]))
                want, ok = d < 1, (x == (d < 1)) or abs(d - 1) < 1e-9
            if not ok:
                ck.violation("%s: %s gives %s, prescribed %s" % (m, op, x, want), {"case": c, "observed": o})
                break
    ck.extra["operations"] = count
    ck.extra["shipped_models"] = models
    for b in beh[:4]:
        ck.sample(b)
    ck.assumptions = ["vacuum directions are declared in increasing order (all shipped models)"]
