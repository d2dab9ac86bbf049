"""Phase diagrams from PhaseDiagram.tla made concrete: wells of a synthetic potential."""
import math

CFG = """SPECIFICATION Spec
CONSTANTS
 NW = {%s}
 Modes <- %s
 LoPool <- LoP
 HiPool <- HiP
 APool <- %s
 CPool = %s
 Windows <- W
 NumPoints = {4, 9, 19}
 Extras = %s
 Margin = 2000
 Step = 10
 Focus = "%s"
 Pick <- One
INVARIANTS OncePerPhase Covered GlobalCoverage NeverStuck EndsFound Emit
CHECK_DEADLOCK FALSE
"""
PTS = {1: [(0,), (150,), (-160,), (310,), (-330,), (470,), (-480,)],
       2: [(0, 0), (130, 20), (-110, 90), (40, -160), (180, 170), (-190, -60), (-40, 210)],
       3: [(0, 0, 0), (130, 20, -30), (-110, 90, 40), (40, -160, 10), (180, 170, -60), (-190, -60, 80), (20, -30, 190)],
       4: [(0, 0, 0, 0), (130, 20, -30, 10), (-110, 90, 40, -20), (40, -160, 10, 60), (180, 170, -60, 0), (-190, -60, 80, 30), (20, -30, 190, -80)]}
SV = 5.0


def runs(ck, modes, per, n=200, sets=None, focus="any"):
    """TLC runs: several sizes of the chain, several seeds."""
    out = []
    for i, (nw, ap, cp) in enumerate(sets or [("1", "AP", "{0,1,2}"), ("2", "AP", "{0,1,2}"), ("3", "AP", "{0,1,2}"),
                                              ("3", "APs", "{1,2}"), ("4", "APs", "{1,2}"), ("4", "APs", "{1,2}"),
                                              ("5", "APs", "{1,2}"), ("5", "APs", "{1,2}")]):
        out.append(dict(module="MC_PhaseDiagram", cfg_text=CFG % (nw, modes, ap, cp, '{"none","htv","saved"}', focus),
                        simulate=per[i] if isinstance(per, list) else per, depth=n, seed=ck.seed * 100 + i))
    return out


def concrete(rng, c, fine=False):
    """One abstract diagram -> driver case."""
    ws, par = c["wells"], c["par"]
    n = len(ws)
    dim = rng.choice([d for d in (1, 2, 2, 3, 4)])
    pts = list(PTS[dim][:max(n, 4)])
    rng.shuffle(pts)
    wells = []
    for i, w in enumerate(ws):
        ew = par["ew"] == i + 1
        vmax = 0.02 if ew else rng.choice([0.0, 0.02, 0.1])
        pos = [x + rng.uniform(-8, 8) for x in pts[i]]
        mid = 100.0
        vel = [rng.uniform(-vmax, vmax) for _ in pos]
        c0 = [p - v * mid for p, v in zip(pos, vel)]
        wells.append({"c": c0, "vel": vel, "lo": w["lo"] / 10.0, "hi": w["hi"] / 10.0, "a": SV * w["A"], "b": 0.0,
                      "cq": SV * w["C"], "m": w["m"] / 10.0})
    Tl, Th = par["win"][0] / 10.0, par["win"][1] / 10.0
    at = lambda i, T: [a + b * T for a, b in zip(wells[i]["c"], wells[i]["vel"])]
    # with no electroweak well the tree-level point lies far from every well
    tree = at(par["ew"] - 1, 0.0) if par["ew"] else [777.0 + 13 * j for j in range(dim)]
    case = {"cmd": "vacuum", "wells": wells, "k": 400.0, "tree": tree, "Tlow": Tl, "Thigh": Th,
            "mode": par["mode"], "num_points": par["np"], "minimizer": 6}
    if par["x"] == "htv":
        case["htv"] = at(par["xi"] - 1, Th)
    if par["x"] == "saved":
        case["saved"] = [[par["st"] / 10.0, at(par["xi"] - 1, par["st"] / 10.0)]]
    return case


def depth(w, T):
    return w["a"] + w["b"] * T + w.get("cq", 0.0) * (T - w.get("m", 0.0)) ** 2


def pos(w, T):
    return [a + b * T for a, b in zip(w["c"], w["vel"])]


def which(case, ph):
    """The well a reported phase follows (index), judged at its middle knot."""
    m = ph["mins"][len(ph["mins"]) // 2]
    best, bi = 1e9, None
    for i, w in enumerate(case["wells"]):
        if not (w["lo"] - 1e-3 <= m[0] <= w["hi"] + 1e-3):
            continue
        d = max(abs(a - b) for a, b in zip(pos(w, m[0]), m[1]))
        if d < best:
            best, bi = d, i
    return bi if best < 0.5 else None


END = 3e-4


def judge_tracing(c, case, o):
    """The reported phases, status and numbering against the specification."""
    if "crash" in o or "exception" in o:
        return "tracing failed: %s" % str(o)[:300]
    if o["status"] != c["status"]:
        return "tracing status %s, the specification prescribes %s" % (o["status"], c["status"])
    if c["numbered"] and o["coex"] != c["coex"]:
        return "coexistence status %s, prescribed %s" % (o["coex"], c["coex"])
    exp = {p[0] - 1: (p[1] / 10.0, p[2] / 10.0) for p in c["phases"]}
    got = {}
    for ph in o["phases"]:
        i = which(case, ph)
        if i is None:
            return "reported phase follows no minimum of the potential: range [%s,%s]" % (ph["lo"], ph["hi"])
        if i in got:
            return "phase of well %d reported twice" % i
        got[i] = ph
    if set(got) != set(exp):
        return "phases reported for wells %s, prescribed %s" % (sorted(got), sorted(exp))
    for i, ph in got.items():
        w = case["wells"][i]
        lo, hi = exp[i]
        inlo, inhi = lo > case["Tlow"], hi < case["Thigh"]
        if not (lo - 1e-9 <= ph["lo"] <= lo + (END if inlo else 1e-9)) or not (hi - (END if inhi else 1e-9) <= ph["hi"] <= hi + 1e-9):
            return "phase of well %d reported over [%s,%s], it exists over [%s,%s]" % (i, ph["lo"], ph["hi"], lo, hi)
        t = [m[0] for m in ph["mins"]]
        if any(a >= b for a, b in zip(t, t[1:])) or t[0] != ph["lo"] or t[-1] != ph["hi"]:
            return "minima of phase of well %d not in order over its range" % i
        for T, p, V, e in ph["mins"]:
            if max(abs(a - b) for a, b in zip(p, pos(w, T))) > 0.05 or abs(V - depth(w, T)) > 0.05 * (1 + T * T) / 100 + 1e-6 * abs(V) + 1:
                return "minimum of phase of well %d at T=%s: %s V=%s, true one %s V=%s" % (i, T, p, V, pos(w, T), depth(w, T))
        if ph["mins"][0][3] != -1 or ph["mins"][-1][3] != 1:
            return "ends of phase of well %d not flagged" % i
    if c["numbered"]:
        if [ph["id"] for ph in o["phases"]] != list(range(len(o["phases"]))):
            return "phases not numbered consecutively: %s" % [ph["id"] for ph in o["phases"]]
        hs = [ph["hi"] for ph in o["phases"]]
        if any(a < b for a, b in zip(hs, hs[1:])):
            return "phases not in order of their highest temperature: %s" % hs
    return None


def judge_pairs(c, case, o):
    if not c["numbered"] or c["coex"] != "success":
        return "pairs reported without coexistence" if o["pairs"] else None
    exp = {(p[0] - 1, p[1] - 1): p for p in c["pairs"]}
    ids = {ph["id"]: which(case, ph) for ph in o["phases"]}
    if [p["id"] for p in o["pairs"]] != list(range(len(o["pairs"]))):
        return "pairs not numbered consecutively"
    seen = set()
    for p in o["pairs"]:
        f, t = ids[p["false"]], ids[p["true"]]
        if p["false"] >= p["true"]:
            return "pair %d: false phase %d, true phase %d" % (p["id"], p["false"], p["true"])
        if (f, t) not in exp or frozenset((f, t)) in seen:
            return "pair of wells %s does not coexist (or is reported twice)" % ((f, t),)
        seen.add(frozenset((f, t)))
        e = exp[(f, t)]
        if abs(p["lo"] - e[2] / 10.0) > END or abs(p["hi"] - e[3] / 10.0) > END:
            return "pair of wells %s over [%s,%s], prescribed [%s,%s]" % ((f, t), p["lo"], p["hi"], e[2] / 10.0, e[3] / 10.0)
        if p["st"] != e[4]:
            return "pair of wells %s has status %s, prescribed %s" % ((f, t), p["st"], e[4])
        bad = judge_tc(p, case["wells"][f], case["wells"][t])
        if bad:
            return bad
    if seen != {frozenset(k) for k in exp}:
        return "pairs %s, prescribed %s" % (sorted(map(sorted, seen)), sorted({tuple(sorted(k)) for k in exp}))
    return None


def judge_tc(p, wf, wt):
    if p["st"] == "success":
        d = lambda T: depth(wt, T) - depth(wf, T)
        Tc = p["Tc"]
        if not (p["lo"] <= Tc <= p["hi"]):
            return "critical temperature %s outside [%s,%s]" % (Tc, p["lo"], p["hi"])
        h = 2e-4
        if not (d(Tc + h) > 0 and d(Tc - h) < 0):
            return "the phases are not equally deep at Tc=%s (difference %s; %s above)" % (Tc, d(Tc), d(Tc + h))
    elif p["st"] == "true_lower":
        if p["Tc"] != p["hi"]:
            return "true phase always lower: Tc=%s, highest common temperature %s" % (p["Tc"], p["hi"])
    elif p["Tc"] > 0:
        return "critical temperature %s with status %s" % (p["Tc"], p["st"])
    return None


# ------------------------------------------------------------- thermal cubic
def cubic_of(rng, c):
    """A two-phase first-order diagram as a potential with a thermal cubic:
    symmetric phase above T0, broken phase below T1, equally deep at Tc."""
    ws, par = c["wells"], c["par"]
    if len(ws) != 2 or par["x"] != "none" or par["ew"] == 2:
        return None
    win = par["win"]
    lowp = [w for w in ws if w["lo"] < win[0] and w["hi"] < win[1]]
    highp = [w for w in ws if w["lo"] > win[0] and w["hi"] > win[1]]
    if len(lowp) != 1 or len(highp) != 1:
        return None
    T0, T1 = highp[0]["lo"] / 10.0, lowp[0]["hi"] / 10.0
    if not (T0 < T1 < 3 * T0):
        return None
    D, lam = 0.3, rng.choice([0.1, 0.15])
    E = math.sqrt((1 - (T0 / T1) ** 2) * 8 * lam * D / 9)
    if E * E > 0.9 * lam * D:
        return None
    r0 = math.sqrt(2 * D / lam) * T0
    case = {"cmd": "vacuum", "pot": "cubic", "D": D, "T0": T0, "E": E, "lam": lam, "m": 2.0,
            "tree": [r0] + [0.0] * rng.choice([0, 1, 2]), "Tlow": win[0] / 10.0, "Thigh": win[1] / 10.0, "mode": par["mode"],
            "num_points": par["np"], "minimizer": 6}
    return case, T0, T1, T0 / math.sqrt(1 - E * E / (lam * D))


def judge_cubic(c, case, T0, T1, Tc, o):
    if "crash" in o or "exception" in o:
        return "tracing failed: %s" % str(o)[:300]
    if (o["status"], o["coex"]) != ("success", "success") or len(o["phases"]) != 2 or len(o["pairs"]) != 1:
        return "one first-order transition: status %s/%s, %d phases, %d pairs" % (o["status"], o["coex"], len(o["phases"]), len(o["pairs"]))
    hi, lo = o["phases"]
    if (hi["id"], lo["id"]) != (0, 1):
        return "phases numbered %s" % ((hi["id"], lo["id"]),)
    for ph, a, b in ((hi, T0, case["Thigh"]), (lo, case["Tlow"], T1)):
        # second derivatives are finite differences in the code: the end at which
        # the curvature vanishes is blurred by about 0.1 GeV
        if abs(ph["lo"] - a) > (0.15 if a == T0 else 6e-3) or abs(ph["hi"] - b) > (0.15 if b == T1 else 6e-3):
            return "phase reported over [%s,%s], it exists over [%s,%s]" % (ph["lo"], ph["hi"], a, b)
        for T, p, V, e in ph["mins"]:
            x = 9 * case["E"] ** 2 * T * T - 8 * case["lam"] * case["D"] * (T * T - T0 * T0)
            r = (3 * case["E"] * T + math.sqrt(max(0.0, x))) / (2 * case["lam"]) if ph is lo else 0.0
            near_end = min(abs(T - T0), abs(T - T1)) < 1.0
            if abs(abs(p[0]) - r) > (2.0 if near_end else 0.05) or any(abs(y) > 0.05 for y in p[1:]):
                return "minimum at T=%s reported at %s, true one at %s" % (T, p, r)
    q = o["pairs"][0]
    if (q["false"], q["true"], q["st"]) != (0, 1, "success") or abs(q["Tc"] - Tc) > 2e-3 * max(1.0, 0.1 * (T1 - T0)):
        return "pair %s, true critical temperature %s" % (q, Tc)
    return None
