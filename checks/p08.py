"""P08: tree-level potential, derivatives, mass matrices, sum of parts."""
import math
import vlib
import points

CFG = """SPECIFICATION Spec
CONSTANTS
 NMax = %d
 GMax = %d
 FMax = %d
 Vals <- Vals3
 Field <- %s
 Temps = %s
 Sparse %s
 Pick <- %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""

NH = {"sm": 4, "cxsm": 6, "r2hdm": 8, "c2hdm": 8, "n2hdm": 9, "cpinthedark": 9}
VEV = {"sm": [2], "cxsm": [3, 4, 5], "r2hdm": [2, 4, 6, 7], "c2hdm": [2, 4, 6, 7], "n2hdm": [1, 5, 6, 7, 8], "cpinthedark": [2, 4, 6, 7, 8]}


def close(a, b, rel=1e-11, ab=1e-11):
    return isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(a - b) <= rel * max(abs(a), abs(b)) + ab


def same(a, b, **k):
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(same(x, y, **k) for x, y in zip(a, b))
    return close(a, b, **k)


def div(x, d):
    return [div(y, d) for y in x] if isinstance(x, list) else x / d


def pad(m):
    return m if m else [[0]]


def smooth(masses, T):
    """Is the potential differentiable here (no vanishing or nearly equal masses)."""
    m = sorted(masses)
    # integer couplings: the only small eigenvalues are those of singular matrices
    return all(abs(x) > 0.3 for x in m) and all(b - a > 0.05 for a, b in zip(m, m[1:]))


def judge(c, o, stat):
    if "full" not in o:
        return "failed: %s" % str(o)[:300]
    n, T, e, f = c["n"], c["T"], c["full"], o["full"]
    if o["asym"]:
        return "%d entries of the symmetrised tensors differ from the declared ones" % o["asym"]
    if not all(o["refused"]):
        return "a field vector of wrong length is accepted: %s" % o["refused"]
    want = {"V": e["V24"] / 24, "Vx": e["V24"] / 24, "C": e["C24"] / 24, "dV": div(e["D6"], 6), "dC": div(e["CD6"], 6), "M2": div(e["M2"], 2),
            "M3": e["M3"], "eff0": e["V24"] / 24, "dE0": div(e["D6"], 6)}
    deb = div(c["debye24"], 24)
    want["M2T"] = [[x + d * T * T for x, d in zip(r, q)] for r, q in zip(want["M2"], deb)]
    if T:
        want["MT1"] = [[2 * d * T for d in q] for q in deb]
    for k, w in want.items():
        if not same(f[k], w):
            return "%s is %s, prescribed %s" % (k, f[k], w)
    if not same(o["debye"], deb):
        return "thermal masses %s, prescribed %s" % (o["debye"], deb)
    if c["dgden"]:
        dg = [[c["dgnum"][a] / c["dgden"] if a == b else 0 for b in range(c["ng"])] for a in range(c["ng"])]
        if not same(o["debyeG"], dg):
            return "thermal masses of the gauge bosons %s, prescribed %s" % (o["debyeG"], dg)
    for k in ("Q", "Le"):
        if c["nf"] and not same(f[k], [e["fre"], e["fim"]]):
            return "fermion mass matrix %s, prescribed %s" % (f[k], [e["fre"], e["fim"]])
    m0, mT = o["ref"]["m0"], o["ref"]["mT"]
    for k, w in (("h0", m0["higgs"]), ("hT", mT["higgs"]), ("g0", m0["gauge"]), ("gT", mT["gauge"]), ("q", m0["quark"]), ("l", m0["lepton"])):
        if not same(f[k], w, rel=1e-7, ab=1.01e-5):
            return "masses %s are %s, prescribed %s" % (k, f[k], w)
    loop = o["ref"]["loop"]
    if not close(f["loop"], loop, rel=1e-8, ab=1e-6):
        return "one-loop contribution %s, sum of parts %s" % (f["loop"], loop)
    tot = {"tree": want["V"], "counterterms": want["C"], "loop": f["loop"]}
    for k, key in (("loop", "eff"), ("order0", "eff0")):
        w = sum(tot[x] for x in c["included"][k])
        if not close(f[key], w):
            return "potential (%s) is %s, sum of parts %s" % (key, f[key], w)
    w = sum(tot[x] for x in c["included"]["treeonly"])
    if not close(o["treeonly"], w) or o["again"] != f["eff"]:
        return "tree level only: %s (prescribed %s), afterwards %s (before %s)" % (o["treeonly"], w, o["again"], f["eff"])
    if o["short"]:
        return "shortened list %s, full vector %s: %s" % (c["short"], o["u"], o["short"][:4])
    if not same(o["u"], [float(x) for x in embed(c)]):
        return "shortened list %s stands for %s" % (c["short"], o["u"])
    if smooth(m0["higgs"], T) and smooth(mT["higgs"], T) and (not c["ng"] or smooth(m0["gauge"], T) and smooth(mT["gauge"], T)) and (
            not c["nf"] or smooth(m0["quark"], T)):
        stat["smooth"] = stat.get("smooth", 0) + 1
        for i in range(n):
            if not deriv(f["dE"][i], f["fd"][i], T):
                return "derivative %d of the potential is %s, difference quotients %s" % (i + 1, f["dE"][i], f["fd"][i])
        if T and not deriv(f["dT"], f["fdT"], T) and deriv(f["dT"], [x - f["missing"] for x in f["fdT"]], T):
            stat["known"] = stat.get("known", 0) + 1
        elif T and not deriv(f["dT"], f["fdT"], T):
            return "temperature derivative of the potential is %s, difference quotients %s" % (f["dT"], f["fdT"])
    return None


def deriv(d, f, T):
    err = abs(f[0] - f[1])
    return isinstance(d, (int, float)) and abs(d - f[1]) <= 1e-5 * abs(f[1]) + 20 * err + 2e-5 * (1 + T ** 3)


def embed(c):
    return [c["short"][c["ord"].index(i)] if i in c["ord"] else 0 for i in range(1, c["n"] + 1)]


def run(ck):
    ck.spec("MC_Potential", cfg_text=CFG % (2, 0, 0, "Field2", "{0}", "= 1", "All", "Gradient Hesse Third Relabel Fits"))
    cases = ck.spec("MC_Potential", cfg_text=CFG % (4, 3, 2, "Field3", "{0, 1, 2, 5}", "<- Neg1", "One", "Emit Gradient"),
                    simulate=ck.pick(900, 15000), depth=6, seed=ck.seed, workers=1).cases
    work = [dict(c, cmd="pot") for c in cases]
    outs = vlib.run_driver(vlib.driver("d_pot"), work, jobs=vlib.NPROC, timeout=600)
    stat = {}
    for c, o in zip(cases, outs):
        ck.traces += 1
        bad = judge(c, o, stat)
        if bad:
            ck.violation("%d fields, %d gauge bosons, %d fermions, T=%s, v=%s: %s" % (c["n"], c["ng"], c["nf"], c["T"], c["v"], bad), {"case": c, "observed": o})
        elif "smooth" in stat and stat["smooth"] < 4:
            ck.sample("a potential of %d fields, %d gauge bosons and %d fermions at T=%s: polynomial, its derivatives, masses, shortened list and the sum of parts as prescribed" % (c["n"], c["ng"], c["nf"], c["T"]))
    shipped(ck, stat, cases[0])
    if stat.get("known"):
        ck.violation("the temperature derivative of the potential lacks the derivative of the thermal masses (%d points)" % stat["known"],
                     {"points": stat["known"]}, key="temperature-derivative-thermal-masses")
    ck.extra["derivatives of the loop potential compared at"] = stat
    ck.assumptions = ["closed forms of tree-level and counterterm potentials are compared in vacuum directions only; closed forms of thermal masses may leave out fermions lighter than the bottom quark",
                      "derivatives of the loop potential are compared where squared masses neither vanish nor nearly coincide"]


def shipped(ck, stat, c0):
    """The same identities on the models that come with the program."""
    work = []
    for m in points.MODELS:
        for k in range(ck.pick(2 if m == "sm" else 4, 4 if m == "sm" else 60)):
            pts = []
            for q in range(6):
                nH = NH[m]
                v = [ck.rng.choice([1, 1, 1, 0, -1]) * ck.rng.uniform(5, 350) for _ in range(nH)]
                if q == 0:
                    v = [ck.rng.uniform(20, 350) * ck.rng.choice([-1, 1]) for _ in range(nH)]
                elif q < 3:
                    v = [x if i in VEV[m] else 0.0 for i, x in enumerate(v)]
                pts.append({"v": v, "T": ck.rng.choice([0.0, 37.5, 110.0, 290.0])})
            work.append({"cmd": "ship", "model": m, "legend": points.legend(m), "line": points.line(m, ck.rng if k else None, variant=k),
                         "points": pts, "parts": c0["parts"], "included": c0["included"]})
    outs = vlib.run_driver(vlib.driver("d_pot"), work, jobs=vlib.NPROC, timeout=600)
    n = 0
    for w, o in zip(work, outs):
        ck.traces += 1
        if "bad" not in o:
            ck.violation("%s: failed: %s" % (w["model"], str(o)[:300]), {"case": w, "observed": o})
            continue
        n += o["compared"]
        stat["shipped"] = stat.get("shipped", 0) + o["smooth"]
        stat["known"] = stat.get("known", 0) + o["short"]
        if o["bad"]:
            ck.violation("%s: observed against prescribed: %s" % (w["model"], o["bad"][:4]), {"case": w, "observed": o["bad"]})
    ck.extra["quantities of shipped models compared"] = n
