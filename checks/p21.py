"""P21: thermal functions and loop functions."""
import itertools
import math
from decimal import Decimal as D, getcontext
import thermal
import vlib

LCFG = """SPECIFICATION Spec
CONSTANTS
 MaxArgs = %d
 Bases = {%s}
 Shifts = {%s}
 MaxExp = %d
 Pick <- %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
TCFG = """SPECIFICATION Spec
CONSTANTS
 MaxLen = %d
 Orders = {%s}
 Pick <- %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
THETA = {"boson": 9.469230596, "fermion": 2.216079120}


# ---------------------------------------------------------------- loop functions
def g(x, k, mu2):
    """k-th derivative of x log(x/mu2), divided by k!; logarithm of zero left out."""
    if x == 0:
        return D(1) if k == 1 else D(0)
    return [lambda: x * (x / mu2).ln(), lambda: 1 + (x / mu2).ln(), lambda: 1 / (2 * x), lambda: -1 / (6 * x * x)][k]()


def divided(a, scale):
    a = sorted(D(x) for x in a)
    mu2 = D(scale) * D(scale)
    if len(a) == 4 and a[2] == 0:  # three massless particles: by convention
        return (a[3] / mu2).ln() / a[3] ** 2 if a[3] else D(0)
    t = [g(x, 0, mu2) for x in a]
    for k in range(1, len(a)):
        t = [(t[i + 1] - t[i]) / (a[i + k] - a[i]) if a[i + k] != a[i] else g(a[i], k, mu2) for i in range(len(a) - k)]
    return t[0]


def masses(rng, c):
    bases = sorted({b for b, s in c["args"]} - {0})
    while True:
        m = {b: rng.uniform(9, 420) ** 2 for b in bases}
        v = sorted(m.values())
        if all(y - x > 0.05 * y for x, y in zip(v, v[1:])):
            break
    rel = 10.0 ** -c["close"] * rng.uniform(0.5, 1.5)
    out = []
    for b, s in c["args"]:
        # nearly vanishing: small compared with all masses, in absolute terms
        out.append(m[b] * (1 + rel * s) if b else (10.0 ** -c["close"] * abs(s) * 1e-3 if s else 0.0))
    return out


def loops(ck):
    # shifts must be distinguishable from other bases in the integer sample: 3*b+s with s in 0..2
    ck.spec("MC_LoopFunctions", cfg_text=LCFG % (4, "0, 1, 2", "0, 1, 2", 1, "All", "Symmetric Recursion Coincident Partition"))
    cases = ck.spec("MC_LoopFunctions", cfg_text=LCFG % (4, "0, 1, 2, 3", "0, 0, 1, 2", 14, "One", "Emit Partition"),
                    simulate=ck.pick(4000, 60000), depth=7, seed=ck.seed, workers=1).cases
    # every pattern without closeness, too
    cases += ck.spec("MC_LoopFunctions", cfg_text=LCFG % (4, "0, 1, 2, 3, 4", "0", 1, "All", "Emit Partition")).cases
    getcontext().prec = 60
    groups, work = {}, []
    for c in cases:
        if c["class"] == "divergent":
            continue
        a = masses(ck.rng, c)
        scale = ck.rng.choice([91.2, 246.22, 1000.0])
        perms = list(itertools.permutations(a))
        groups.setdefault(c["class"], 0)
        groups[c["class"]] += 1
        work.append((c, a, scale, perms))
    outs = vlib.run_driver(vlib.driver("d_loop"), [{"cmd": "loop", "scale": s, "args": p} for c, a, s, p in work], jobs=vlib.NPROC, timeout=600)
    for (c, a, scale, perms), o in zip(work, outs):
        ck.traces += 1
        v = o.get("values")
        if v is None or not all(isinstance(x, (int, float)) for x in v):
            ck.violation("loop function of %s fails: %s" % (a, o), {"args": a, "observed": o})
            continue
        e = float(divided([0.0 if c["class"] == "vanishing" and x < 1e-9 else x for x in a], scale))
        nz = [x for x in a if x > 1e-9]
        n = len(a)
        mag = abs(e)
        if c["class"] == "regulated" or n == 2:
            mag = max([mag] + [(1 + abs(math.log(x / scale ** 2))) / x ** (n - 2) for x in nz] or [1.0])
            if not nz:
                mag = 1.0
        if c["near"] and c["class"] == "vanishing":
            tol = 2e-3
        elif c["near"]:
            tol = 2e-3 if n > 2 else 1e-6
        elif c["class"] == "vanishing":
            tol = 1e-5
        else:
            tol = 1e-8
        bad = [(p, x) for p, x in zip(perms, v) if not abs(x - e) <= tol * mag]
        if bad:
            ck.violation("loop function at %s is %s, defined as %s (class %s)" % (list(bad[0][0]), bad[0][1], e, c["class"]),
                         {"case": c, "args": a, "scale": scale, "observed": v, "prescribed": e})
            continue
        if groups.pop("sample " + c["class"], None) is None and len([k for k in groups if k.startswith("sample")]) < 3:
            groups["sample " + c["class"]] = 1
            ck.sample("masses %s: all %d orders agree with the divided difference %.6g" % (["%.6g" % x for x in a], len(perms), e))
    ck.extra["loop functions"] = {k: x for k, x in groups.items() if not k.startswith("sample")}


# ---------------------------------------------------------------- thermal functions
def place(rng, f, p):
    th = THETA["fermion" if f.startswith("fermion") else "boson"]
    if f == "high":
        th = rng.choice(list(THETA.values()))
    cusps = [-(2 * math.pi * n) ** 2 for n in (1, 2, 3, 4, 5)]
    return {"beyond": lambda: -rng.uniform(3001, 9000), "lastnode": lambda: -3000.0, "deepnode": lambda: -float(rng.randint(300, 2999)),
            "deep": lambda: -rng.uniform(300, 2999), "cusp": lambda: rng.choice(cusps) + rng.uniform(-3, 3),
            "node": lambda: -float(rng.randint(1, 35)), "between": lambda: -rng.uniform(1, 35), "minus": lambda: -10.0 ** -rng.randint(5, 12),
            "zero": lambda: 0.0, "plus": lambda: 10.0 ** -rng.randint(5, 12), "tiny": lambda: 10.0 ** -rng.uniform(1, 5),
            "small": lambda: rng.uniform(0.1, th - 0.1), "below": lambda: th - 10.0 ** -rng.randint(6, 12), "switch": lambda: th,
            "above": lambda: th + 10.0 ** -rng.randint(6, 12), "middle": lambda: rng.uniform(th + 0.1, 20), "large": lambda: rng.uniform(20, 200),
            "huge": lambda: rng.uniform(200, 3e4)}[p]()


def tolerance(q, x, e):
    """Accuracy promised for an answer."""
    if q["promise"] == "exact":
        return 1e-5 * abs(e) + 1e-8 if q["d"] == 0 else 1e-3
    if q["promise"] == "series":
        return 1e-8 * abs(e) + 1e-9 if x < 60 or q["f"] == "high" else 1e-6 * abs(e)
    if q["promise"] == "integral":
        if q["d"] == 0:
            # the shift that joins the expansions, and the error of the series at the seam:
            # bosons lie below the integral, fermions above it
            return (-0.0066, 1e-4) if q["f"] == "boson" else (-1e-4, 0.0157)
        return 0.026 * abs(e) + 1e-9
    if q["promise"] == "table":
        node = x == int(x)
        if q["d"] == 0:
            return (1e-4 if x > -300 else 7e-4) + 2e-6 * abs(e) if node else 3e-3
        return 0.02 + 0.01 * abs(e)
    return (0.2 + 2e-3 * abs(e)) if q["d"] == 0 else None


def oracle(q, x):
    b = q["f"].startswith("boson")
    p = q["promise"]
    if p == "zero":
        return 0.0
    if p == "series":
        return thermal.high(x, q["n"], q["d"]) if q["f"] == "high" else thermal.low(b, x, q["n"], q["d"])
    return thermal.integral(b, x, q["d"])


def thermals(ck):
    ck.spec("MC_ThermalPieces", cfg_text=TCFG % (1, "0, 3", "All", "Intervals Owned Seams Stateless"))
    orders = "0, 1, 2, 3, 4, 5, 6, 7, 8"
    cases = ck.spec("MC_ThermalPieces", cfg_text=TCFG % (1, "3, 7", "All", "Emit")).cases
    joined = cases[0]["joined"]
    cases += ck.spec("MC_ThermalPieces", cfg_text=TCFG % (12, orders, "One", "Emit Stateless"),
                     simulate=ck.pick(250, 4000), depth=15, seed=ck.seed, workers=1).cases
    work = []
    for c in cases:
        xs = [place(ck.rng, q["f"], q["p"]) for q in c["hist"]]
        work.append({"cmd": "thermal", "calls": [{"f": q["f"], "x": x, "d": q["d"], "n": q["n"]} for q, x in zip(c["hist"], xs)]})
    # difference quotients and seams
    seams = []
    for f in ("boson", "fermion"):
        for lo, hi in joined[f]:
            for _ in range(4):
                a, b = place(ck.rng, f, lo), place(ck.rng, f, hi)
                seams.append((f, lo, hi, a, b))
    work += [{"cmd": "thermal", "calls": [{"f": f, "x": x, "d": 0, "n": 0} for x in (a, b)]} for f, lo, hi, a, b in seams]
    quots = []
    for f in ("boson", "fermion"):
        for p in ("deep", "cusp", "between", "minus", "tiny", "small", "middle", "large", "huge"):
            if f == "fermion" and p in ("deep", "cusp", "between", "minus"):
                continue
            for _ in range(ck.pick(25, 400)):
                x = place(ck.rng, f, p)
                h = 1e-4 * max(abs(x), 1e-3) if p not in ("minus",) else abs(x) / 8
                quots.append((f, p, x, h))
    work += [{"cmd": "thermal", "calls": [{"f": f, "x": x, "d": 1, "n": 0}] + [{"f": f, "x": x + s * h, "d": 0, "n": 0} for s in (-1, 1, -0.5, 0.5)]}
             for f, p, x, h in quots]
    outs = [o.get("values") for o in vlib.run_driver(vlib.driver("d_loop"), work, jobs=vlib.NPROC, timeout=600)]
    n = 0
    for c, w, o in zip(cases, work, outs):
        ck.traces += 1
        if o is None:
            ck.violation("thermal functions fail at %s" % w, w)
            continue
        for q, call, v in zip(c["hist"], w["calls"], o):
            if q["promise"] == "none":
                continue
            x = call["x"]
            if q["f"].endswith("int") and x > 2000:
                continue
            e = oracle(q, x)
            t = tolerance(q, x, e)
            if t is None:
                continue
            n += 1
            lo, hi = t if isinstance(t, tuple) else (-t, t)
            if not (isinstance(v, (int, float)) and lo <= v - e <= hi):
                ck.violation("%s(%r, order %d, derivative %d) is %s, defined as %s (%s, %s)" % (q["f"], x, q["n"], q["d"], v, e, q["p"], q["promise"]),
                             {"query": q, "x": x, "observed": v, "prescribed": e, "history": w["calls"]})
                break
    k = len(cases)
    for (f, lo, hi, a, b), o in zip(seams, outs[k:]):
        ck.traces += 1
        if not abs(o[0] - o[1]) <= 1e-6 + 2 * abs(a - b) * 3:
            ck.violation("%s jumps from %s at %r to %s at %r" % (f, o[0], a, o[1], b), {"f": f, "x": [a, b], "observed": o})
    k += len(seams)
    for (f, p, x, h), o in zip(quots, outs[k:]):
        ck.traces += 1
        d, q1, q2 = o[0], (o[2] - o[1]) / (2 * h), (o[4] - o[3]) / h
        noise = 1e-14 * (abs(o[1]) + 1e-3) / h
        if not abs(d - q2) <= 3 * abs(q1 - q2) + noise * 10 + 1e-5 * abs(q2) + 1e-12:
            ck.violation("derivative of %s at %r is %s, difference quotients %s %s" % (f, x, d, q1, q2), {"f": f, "x": x, "observed": o})
    ck.extra["thermal answers compared"] = n
    ck.extra["difference quotients compared"] = len(quots)


def run(ck):
    loops(ck)
    thermals(ck)
    ck.assumptions = ["squared masses of the loop functions are not negative; two or more vanishing masses are compared only when exactly zero",
                      "accuracy: at most 0.0066 below the integral (bosons) and 0.0157 above it (fermions), derivatives within 2.6 %, tabulated values at the nodes "
                      "to the printed digits, 0.2 around the cusps of negative arguments"]
