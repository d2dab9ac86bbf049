"""P26: the diagnosis of the potential at high temperature."""
import vlib

CFG = """SPECIFICATION Spec
CONSTANTS
 Dims = {%s}
 Curvatures <- %s
 Places <- %s
 MaxSteps = %d
 Pick <- %s
INVARIANTS Decided NeutralCentre Origin Order%s
%s
CHECK_DEADLOCK FALSE
"""
# what the code says
SAYS = {"failure": [(0, "failure")], "unbounded": [(-1, "non_bfb")],
        "restored": [(3, "ew_sym_res")], "broken": [(2, "ew_syum_non_res")]}


def potential(rng, c):
    d = len(c["curv"])
    r = [[float(i == j) for j in range(d)] for i in range(d)]
    for i, j in c["turns"]:
        for row in r:
            row[i - 1], row[j - 1] = 0.8 * row[i - 1] - 0.6 * row[j - 1], 0.6 * row[i - 1] + 0.8 * row[j - 1]
    unit = rng.choice([1.0, 1.0, 0.05, 0.4, 3.0])
    A = [[unit * sum(r[i][k] * r[j][k] * c["curv"][k] for k in range(d)) for j in range(d)] for i in range(d)]
    cold = [0.0] * d
    if c["cold"]:
        cold = [rng.choice([-1, 1]) * rng.choice([1.0, 250.0, 7e3, 6e4])] * d
    nH = d + rng.choice([0, 0, 1, 3])
    order = sorted(rng.sample(range(nH), d))
    ew = [rng.choice([0, 1]) for _ in range(nH)]  # directions without vacuum are arbitrary
    for i, o in enumerate(order):
        ew[o] = rng.choice([1, 2, 3]) if i + 1 in c["charged"] else 0
    return dict(A=A, centre=[x / 4.0 for x in c["centre"]], cold=cold, lift=c["lift"] * rng.choice([-1e4, 1.0, 1e5]), nH=nH, order=order, ew=ew,
                power=rng.choice([3.0, 4.0, 2.5]) if c["runaway"] else 2.0)


def judge(c, w, o):
    if "code" not in o:
        return "fails: %s" % str(o)[:200]
    if (o["code"], o["status"]) not in SAYS[c["answer"]]:
        return "%s (%s), expected %s" % (o["status"], o["code"], c["answer"])
    if c["answer"] in ("restored", "broken"):
        if len(o["at"]) != len(w["centre"]) or any(not isinstance(x, float) or abs(x - y) > 1e-3 * (1 + abs(y)) for x, y in zip(o["at"], w["centre"])):
            return "high-temperature minimum at %s, expected %s" % (o["at"], w["centre"])
    elif o["at"]:
        return "high-temperature minimum at %s, but there is none" % o["at"]
    return None


def run(ck):
    exe = vlib.driver("d_ewsr")
    ck.spec("MC_Restoration", cfg_text=CFG % ("1, 2", "FewBends", "FewAway", ck.pick(3, 4), "All", "", "PROPERTIES Blind Charges"))
    runs = [dict(module="MC_Restoration", cfg_text=CFG % (d, "Bends", "Away", k, "One", " Emit", ""), simulate=ck.pick(n, 20 * n), depth=k + 1,
                 seed=ck.seed * 11 + 3 * i) for i, (d, k, n) in enumerate([("1, 2", 5, 40), ("3", 9, 50), ("2, 3, 4", 14, 60)])]
    cases = ck.specs(runs)
    work = [potential(ck.rng, c) for c in cases]
    stat = {}
    for c, w, o in zip(cases, work, vlib.run_driver(exe, work, jobs=vlib.NPROC)):
        ck.traces += 1
        stat[c["answer"]] = stat.get(c["answer"], 0) + 1
        bad = judge(c, w, o)
        if bad:
            ck.violation("potential at high temperature %s: %s" % ({k: c[k] for k in ("curv", "centre", "charged", "turns", "cold", "runaway")}, bad),
                         {"case": c, "potential": w, "observed": o})
    ck.extra["answers"] = stat
    ck.sample(cases[-1])
    ck.assumptions.append("the high-temperature potential is a quadratic form times T^2 plus parts that do not grow; the limit of 0.5 GeV is avoided")
