"""P11: the global minimiser returns the deepest candidate."""
import math
import vlib

CFG = """SPECIFICATION Spec
CONSTANTS
 Dims = {1,2,3,4}
 Ranks = {0,1,2}
 NlCodes = {1,2,3,4,5,6,91,92,93,94,95}
 HaveCmaes = FALSE
 Pick <- One
INVARIANTS NotAboveOrigin NotAboveAny Legal Emit
CHECK_DEADLOCK FALSE
"""


def layout(rng, dim):
    """Fields: some are vacuum directions, some of all fields are electroweak-charged."""
    nH = dim + rng.choice([0, 0, 1, 2, 4])
    order = sorted(rng.sample(range(nH), dim))
    ew = [rng.randint(0, 1) for _ in range(nH)]
    return {"nH": nH, "order": order, "ew": ew, "tree": [rng.uniform(-200, 200) for _ in range(dim)]}


def length(lay, x):
    return math.sqrt(sum(v * v for i, v in zip(lay["order"], x) if lay["ew"][i]))


def candidate(rng, lay, ew):
    """A point away from the origin with the given electroweak part; None if the layout has none."""
    x = [rng.choice([-1, 1]) * rng.uniform(20, 250) for _ in lay["order"]]
    idx = [k for k, i in enumerate(lay["order"]) if lay["ew"][i]]
    sing = [k for k in range(len(x)) if k not in idx]
    if ew == "big":
        if not idx:
            return None
        if rng.random() < 0.2 and sing:
            r = 0.51 / length(lay, x)
            for k in idx:
                x[k] *= r
        return x
    if not sing:
        return None
    if ew == "zero" or not idx:
        for k in idx:
            x[k] = 0.0
        return x if ew == "zero" else None
    r = rng.choice([0.02, 0.3, 0.49]) / length(lay, x)
    for k in idx:
        x[k] *= r
    return x


def build(rng, c):
    i = c["in"]
    for _ in range(30):
        lay = layout(rng, i["dim"])
        g, n = candidate(rng, lay, i["eg"]), candidate(rng, lay, i["en"])
        if g and n:
            break
    else:
        return None
    w = lambda p, r: {"c": p, "vel": [0.0] * len(p), "lo": -1, "hi": 1e5, "a": 1000.0 * r, "b": 0}
    case = dict(lay, cmd="glob", wells=[w([0.0] * i["dim"], i["o"]), w(g, i["g"]), w(n, i["n"])], k=1e4, T=rng.choice([0.0, 50.0, 150.0]),
                mask=i["mask"], threads=i["th"], gsl=g if i["gs"] else "fail", nlopt=[i["nc"] if i["nc"] < 90 else 90 - i["nc"], n],
                check=[9.0] * rng.choice([0, 0, 2]))
    return case, {"origin": [0.0] * i["dim"], "gsl": g, "nlopt": n}


def run(ck):
    rng = ck.rng
    beh = ck.spec("MC_GlobalMin", cfg_text=CFG, simulate=ck.pick(4000, 60000), depth=10, seed=ck.seed, workers=1).cases
    work = []
    for b in beh:
        x = build(rng, b)
        if x:
            work.append((b,) + x)
    drv = vlib.driver("d_min")
    outs = vlib.run_driver(drv, [w[1] for w in work], jobs=vlib.NPROC, timeout=600)
    for (b, c, pts), o in zip(work, outs):
        ck.traces += 1
        if "crash" in o or "exception" in o:
            ck.violation("minimisation failed: %s" % str(o)[:300], {"behaviour": b, "case": c, "observed": o})
            continue
        allowed = []
        for s in b["best"]:
            x = list(pts[s])
            if length(c, x) <= 0.5:
                x = [0.0 if c["ew"][i] else v for i, v in zip(c["order"], x)]
            allowed.append(x)
        bad = None
        if o["sol"] not in allowed:
            bad = "returned %s, the deepest candidates are %s (%s)" % (o["sol"], allowed, b["best"])
        elif (o["gslCalls"] > 0) != b["gsl"] or (o["nlCalls"] > 0) != b["nl"]:
            bad = "back ends used: gsl %s nlopt %s, enabled %s %s" % (o["gslCalls"] > 0, o["nlCalls"] > 0, b["gsl"], b["nl"])
        elif o["check"][:len(c["check"])] != c["check"] or o["check"][-1] != b["flag"] or len(o["check"]) != len(c["check"]) + 1:
            bad = "check flags %s, prescribed %s" % (o["check"], b["flag"])
        if bad:
            ck.violation("mask %d, %d directions: %s" % (c["mask"], len(c["order"]), bad), {"behaviour": b, "case": c, "observed": o})
    # the real back ends
    real = []
    for _ in range(ck.pick(250, 4000)):
        dim = rng.choice([1, 2, 3, 4])
        lay = layout(rng, dim)
        multi = rng.random() < 0.5
        ws = []
        if rng.random() < 0.3 and not multi:     # outside +-300: the boxes have to follow the tree-level vacuum
            lay["tree"] = [rng.choice([-1, 1]) * rng.uniform(320, 420) if rng.random() < 0.5 else rng.uniform(-200, 200) for _ in range(dim)]
            p = [x * rng.uniform(0.9, 1.1) for x in lay["tree"]]
        else:
            p = [rng.uniform(-280, 280) for _ in range(dim)]
        far = lambda a: max(abs(x - y) for x, y in zip(a, p)) > 150
        ws.append({"c": p, "vel": [0.0] * dim, "lo": -1, "hi": 1e5, "a": rng.uniform(-1e5, 1e5), "b": 0})
        if multi:
            q = [rng.uniform(-280, 280) for _ in range(dim)]
            if far(q):
                ws.append({"c": q, "vel": [0.0] * dim, "lo": -1, "hi": 1e5, "a": ws[0]["a"] + 2e4, "b": 0})
        real.append(dict(lay, cmd="glob", wells=ws, k=1.0, T=rng.choice([0.0, 2.0]), mask=rng.choice([0, 2, 4, 6, 6, 7]), threads=rng.random() < 0.4))
    outs = vlib.run_driver(drv, real, jobs=vlib.NPROC, timeout=600)
    found = {}
    for c, o in zip(real, outs):
        ck.traces += 1
        if "crash" in o or "exception" in o:
            ck.violation("minimisation failed: %s" % str(o)[:300], {"case": c, "observed": o})
            continue
        w = c["wells"][0]
        used = c["mask"] & 2 or len(c["order"]) <= 2
        bad = None
        if len(o["sol"]) != len(c["order"]) or o["V"] > o["V0"] + 1e-9 * abs(o["V0"]) + 0.2:
            bad = "%s at V=%s lies above the origin V=%s" % (o["sol"], o["V"], o["V0"])
        elif 0 < length(c, o["sol"]) <= 0.5:
            bad = "%s keeps a negligible electroweak part" % o["sol"]
        hit = max(abs(a - b) for a, b in zip(o["sol"], w["c"])) < 0.6
        k = "%s/%d directions/%d wells" % ("gsl" if used else "no gsl", len(c["order"]), len(c["wells"]))
        found.setdefault(k, [0, 0])
        found[k][0] += 1
        found[k][1] += hit
        # several starts of the local search end in the only minimum
        if not bad and used and len(c["wells"]) == 1 and not hit:
            bad = "%s, the only minimum is %s" % (o["sol"], w["c"])
        # a box search that succeeds in a box that contains the only minimum
        if bad:
            ck.violation("mask %d, %d directions, real back ends: %s" % (c["mask"], len(c["order"]), bad), {"case": c, "observed": o})
    # the box of the global search contains the tree-level vacuum, whatever its signs
    box = []
    for _ in range(ck.pick(60, 600)):
        dim = rng.choice([3, 3, 4])
        lay = layout(rng, dim)
        lay["tree"] = [rng.choice([-1, 1]) * (rng.uniform(310, 500) if rng.random() < 0.4 else rng.uniform(0, 250)) for _ in range(dim)]
        ws = [{"c": lay["tree"], "vel": [0.0] * dim, "lo": -1, "hi": 1e5, "a": -1e5, "b": 0}]
        box.append(dict(lay, cmd="glob", wells=ws, k=1.0, T=0.0, mask=4))
    outs = vlib.run_driver(drv, box, jobs=vlib.NPROC, timeout=600)
    okbox = 0
    for c, o in zip(box, outs):
        ck.traces += 1
        if "crash" in o or "exception" in o:
            ck.violation("minimisation failed: %s" % str(o)[:300], {"case": c, "observed": o})
            continue
        okbox += max(abs(a - b) for a, b in zip(o["sol"], c["tree"])) < 5
        if len(o["box"][0]) != len(c["tree"]) or not all(l < t < h for l, t, h in zip(o["box"][0], c["tree"], o["box"][1])):
            ck.violation("search box %s does not contain the tree-level vacuum %s" % (o["box"], c["tree"]), {"case": c, "observed": o})
    ck.extra["only_minimum_at_tree_vacuum_found_by_box_search"] = [okbox, len(box)]
    m = vlib.run_driver(drv, [{"cmd": "mask"}])[0]
    for i, (cm, g, n, w) in enumerate(m.get("masks", [])):
        ck.traces += 1
        if cm or bool(i & 2) != g or bool(i & 4) != n or w != i:
            ck.violation("option mask %d read as cmaes=%s gsl=%s nlopt=%s, written as %d" % (i, cm, g, n, w), m)
    ck.extra["real_back_ends"] = found
    for b in beh[:: max(1, len(beh) // 5)]:
        ck.sample(b)
    ck.assumptions = ["CMA-ES is not available in this sandbox", "real back ends: only minima reachable by the search boxes"]
