"""P13: the critical-temperature search on potentials whose global minimum is known."""
import math
import vlib
from p11 import layout, length

STATUS = {"success": 1, "notvanishing": -1, "notnlostable": -2, "unstable": -3, "zeroorinf": -5}
U = 0.0099
PROPS = "INVARIANTS Bracket Precise Reasons Single Emit\n"


def cfg(k, cuts, seg, pick, live):
    return ("SPECIFICATION Spec\nCONSTANTS\n K = %d\n Cuts <- %s\n MaxSeg = %d\n Classes = {\"sym\",\"small\",\"broken\",\"huge\"}\n Pick <- %s\n%s%sCHECK_DEADLOCK FALSE\n"
            % (k, cuts, seg, pick, PROPS, "PROPERTY Ends\n" if live else ""))


def concrete(rng, b, K):
    """A potential with exactly one minimum at each temperature."""
    while True:
        lay = layout(rng, rng.choice([1, 1, 2, 2, 3, 4]))
        idx = [n for n, i in enumerate(lay["order"]) if lay["ew"][i]]
        if idx:
            break
    dim = len(lay["order"])
    Ts = 0.0 if b["zero"] else rng.choice([0.5, 10.0, 40.0])
    Te = Ts + (1 << K) * U
    ws, pos, low = [], [], None
    for n, (cut, cls) in enumerate(b["prof"]):
        p = [rng.choice([-1, 1]) * rng.uniform(5, 150) for _ in range(dim)]
        v = {"sym": 0.0, "small": rng.uniform(0.1, 0.4), "broken": rng.choice([rng.uniform(1.2, 30), rng.uniform(30, 250)]), "huge": rng.uniform(260, 330)}[cls]
        r = v / length(lay, p)
        for k in idx:
            p[k] *= r
        ws.append({"c": p, "vel": [0.0] * dim, "lo": -1 if low is None else Ts + (low + 0.5) * U,
                   "hi": 1e6 if n == len(b["prof"]) - 1 else Ts + (cut + 0.5) * U, "a": rng.uniform(-1e5, 1e5), "b": 0})
        pos.append(p)
        low = cut
    tree = [x + rng.choice([-1, 1]) * rng.uniform(0, 0.3) for x in pos[0]]
    tree = [rng.choice([-1, 1]) * abs(t) if abs(t) > 2 else t for t in tree]
    if not b["nlo"]:
        k = rng.randrange(dim)
        tree[k] += math.copysign(rng.choice([rng.uniform(3, 20), 100]), tree[k])
    lay["tree"] = tree
    return dict(lay, cmd="ptf", wells=ws, k=50.0, Ts=Ts, Te=Te, mask=rng.choice([2, 2, 6]), threads=rng.random() < 0.3), pos


def run(ck):
    rng = ck.rng
    small = ck.spec("MC_Bisection", cfg_text=cfg(3, "CutsSmall", 4, "All", True)).cases
    big = ck.spec("MC_Bisection", cfg_text=cfg(15, "CutsBig", 6, "One", False), simulate=ck.pick(600, 12000), depth=40, seed=ck.seed, workers=1).cases
    # every status and every kind of profile of the exhaustive set
    classes = {}
    for b in small:
        classes.setdefault((b["status"], b["nlo"], b["zero"], tuple(s[1] for s in b["prof"]), tuple(b["probes"])), []).append(b)
    pick = [rng.choice(v) for _, v in sorted(classes.items())]
    rng.shuffle(pick)
    pick = pick[: ck.pick(1200, 10 ** 9)]
    rng.shuffle(big)
    work = [(b, 3) + concrete(rng, b, 3) for b in pick] + [(b, 15) + concrete(rng, b, 15) for b in big[: ck.pick(300, 10 ** 9)]]
    outs = vlib.run_driver(vlib.driver("d_min"), [w[2] for w in work], jobs=vlib.NPROC, timeout=800)
    count = {}
    for (b, K, c, pos), o in zip(work, outs):
        ck.traces += 1
        st = b["status"]
        count[st] = count.get(st, 0) + 1
        what = None
        if "crash" in o or "exception" in o:
            what = "search failed: %s" % str(o)[:300]
        else:
            seg = lambda t: next(n for n, s in enumerate(b["prof"]) if t <= s[0])
            T = lambda t: c["Ts"] + t * U
            at = {"success": b["ta"], "unstable": b["got"], "notvanishing": 1 << K, "notnlostable": 0}.get(st)
            p = [0.0] * len(c["order"]) if at is None else pos[seg(b["got"] if st == "success" else at)]
            # the temperature that goes with a failure is the end of the window, except for an unstable probe
            Tc = {"success": T(b["ta"]), "unstable": T(b["got"])}.get(st, c["Te"])
            if o["status"] != STATUS[st]:
                what = "status %d, prescribed %s (%d)" % (o["status"], st, STATUS[st])
            elif abs(o["Tc"] - Tc) > 1e-6:
                what = "%s with temperature %s, prescribed %s" % (st, o["Tc"], Tc)
            elif len(o["min"]) != len(p) or max(abs(x - y) for x, y in zip(o["min"], p)) > 0.3:
                what = "%s with minimum %s, the global minimum there is %s" % (st, o["min"], p)
            elif abs(o["vc"] - length(c, p)) > 0.3:
                what = "%s with electroweak scale %s, prescribed %s" % (st, o["vc"], length(c, p))
        if what:
            ck.violation("profile %s: %s" % (b["prof"], what), {"behaviour": b, "case": c, "observed": o})
    ck.extra["statuses_replayed"] = count
    for b in big[:5]:
        ck.sample(b)
    ck.assumptions = ["the back end finds the only minimum of a quadratic well", "profiles are piecewise constant with breakpoints on the bisection grid"]
