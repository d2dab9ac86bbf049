"""P10: discrete symmetries, representatives, flat directions."""
import itertools
import math
import vlib

CFG = """SPECIFICATION Spec
CONSTANTS
 NMax = %d
 MaxMono = %d
 Kinds = {%s}
 Signs <- %s
 Pick <- %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
KINDS = '"quartic","round","swap","absent"'


def concrete(rng, b, allpts):
    blocks, k = [], 0
    for name, size in b["kind"]:
        dirs = list(range(k, k + size))
        k += size
        blocks.append({"dirs": dirs, "a": 0 if name == "absent" else rng.uniform(0.3, 3), "b": 0 if name == "absent" else rng.uniform(0.3, 3), "round": name == "round"})
    mono = [{"dirs": [i - 1 for i in m], "c": rng.choice([-1, 1]) * rng.uniform(0.2, 2) * rng.choice([1, 1, 1e-4, 1e-5])} for m in b["mono"]]
    n = b["n"]
    mag = [rng.choice([246.0, 1.0, 0.01, 37.3, 600.0]) * rng.uniform(0.8, 1.2) for _ in range(n)]
    if allpts:
        sg = list(itertools.product((-1, 0, 1), repeat=n)) if n <= 3 else list(itertools.product((-1, 1), repeat=n))
        if n > 3:
            sg += [tuple(rng.choice((-1, 0, 0, 1)) for _ in range(n)) for _ in range(8)]
    else:
        sg = [tuple(b["pt"])] + [tuple(rng.choice((-1, 0, 1)) for _ in range(n)) for _ in range(4)]
    pts = [[s * m for s, m in zip(x, mag)] for x in sg]
    order = list(range(n))
    nH = n
    if rng.random() < 0.4:
        nH = n + rng.randint(1, 3)
        order = sorted(rng.sample(range(nH), n))
    return {"cmd": "sym", "nH": nH, "order": order, "tree": [1.0] * n, "ew": [1] * nH, "wells": [], "blocks": blocks, "mono": mono, "points": pts}


def judge(b, c, o):
    if "group" not in o:
        return "failed: %s" % str(o)[:300]
    n = b["n"]
    want = {tuple(-1.0 if i + 1 in g else 1.0 for i in range(n)) for g in map(set, b["group"])}
    got = [tuple(g) for g in o["group"]]
    if set(got) != want or len(got) != len(want):
        return "symmetries reported %s, the potential has %s" % (sorted(got), sorted(want))
    absent = {i - 1 for i in b["absent"]}
    if set(o["f1"]) != absent:
        return "one-dimensional flat directions %s, the potential has %s" % (o["f1"], sorted(absent))
    pair = lambda x: {(i - 1, j - 1) for i, j in x}
    f2 = {tuple(p) for p in o["f2"]}
    if not pair(b["must"]) <= f2 <= pair(b["may"]):
        return "rotation-flat pairs %s, the potential has %s (%s)" % (sorted(f2), sorted(pair(b["must"])), sorted(pair(b["may"])))
    may = pair(b["may"]) | {(i, i) for i in absent}
    for t in o["f3"]:
        if not all(tuple(sorted(p)) in may or (p[0] == p[1] and p[0] in absent) for p in itertools.combinations(t, 2)):
            return "rotation-flat triple %s is not flat" % t
    rep = {}
    close = lambda x, y: abs(x - y) <= 1e-9 * (abs(x) + abs(y))
    for x, r in zip(c["points"], o["points"]):
        if r["r"] != r["rr"] or r["r"] != r["m"]:
            return "%s reduces to %s, reduced again %s, as a minimum %s" % (x, r["r"], r["rr"], r["m"])
        orbit = [[s * v for s, v in zip(g, x)] for g in want]
        if not any(all(abs(a - y) < 1e-12 for a, y in zip(r["r"], q)) for q in orbit):
            return "%s reduces to %s, which is not equivalent" % (x, r["r"])
        if not close(r["V"], r["Vr"]):
            return "%s reduces to %s of different potential value" % (x, r["r"])
        key = min(tuple(v + 0.0 for v in q) for q in orbit)
        val = tuple(round(v, 9) + 0.0 for v in r["r"])
        if rep.setdefault(key, val) != val:
            return "equivalent vacua reduce to %s and %s" % (rep[key], val)
        if "pt" in b and x is c["points"][0]:
            p = [s * abs(v) for s, v in zip(b["rep"], x)]
            if any(abs(a - y) > 1e-12 for a, y in zip(p, r["r"])):
                return "%s reduces to %s, prescribed %s" % (x, r["r"], p)
        if not close(r["V"], r["Vfl"]) or any(not close(a, y) and abs(a - y) > 1e-9 for a, y in zip(r["fl"], r["fl2"])):
            return "removing flat directions of %s gives %s (again: %s), potential %s -> %s" % (x, r["fl"], r["fl2"], r["V"], r["Vfl"])
        for i, j in pair(b["must"]):
            if abs(r["fl"][j]) > 1e-9:
                return "%s keeps the flat direction %d: %s" % (x, j, r["fl"])
        for i in range(n):
            if not any(i in p for p in pair(b["may"])) and r["fl"][i] != x[i]:
                return "removing flat directions of %s changed direction %d: %s" % (x, i, r["fl"])
    return None


def run(ck):
    rng = ck.rng
    # all sign-flip groups of up to four directions
    ck.spec("MC_Symmetry", cfg_text=CFG % (3, 3, '"quartic"', "Signs3", "All", "IsGroup Canonical Idempotent Unique"))
    pots = ck.spec("MC_Symmetry", cfg_text=CFG % (4, 4, '"quartic"', "Signs1", "All", "IsGroup EmitPot")).cases
    byg = {}
    for b in pots:
        byg.setdefault((b["n"], str(sorted(map(sorted, b["group"])))), []).append(b)
    work = []
    for k in sorted(byg):
        for b in rng.sample(byg[k], min(ck.pick(3, 20), len(byg[k]))):
            work.append((b, concrete(rng, b, True)))
    ck.extra["sign_flip_groups"] = len(byg)
    beh = ck.spec("MC_Symmetry", cfg_text=CFG % (5, 4, KINDS, "Signs3", "One", "Emit"), simulate=ck.pick(4000, 60000), depth=20, seed=ck.seed, workers=1).cases
    for b in beh:
        work.append((b, concrete(rng, b, False)))
    outs = vlib.run_driver(vlib.driver("d_layout"), [w[1] for w in work], jobs=vlib.NPROC, timeout=600)
    for (b, c), o in zip(work, outs):
        ck.traces += 1
        bad = judge(b, c, o)
        if bad:
            ck.violation("blocks %s, monomials %s: %s" % (b["kind"], b["mono"], bad), {"behaviour": b, "case": c, "observed": o})
    for b in beh[:4]:
        ck.sample(b)
    ck.assumptions = ["symmetry-breaking terms are larger than the detection threshold 1e-8 of the code", "potentials do not vanish identically"]
