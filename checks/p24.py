"""P24: the bounce action of potentials in every frame, against an independent shooting."""
import math
import json
import os
import vlib

CFG = """SPECIFICATION Spec
CONSTANTS
 MaxDim = %d
 MaxOps = %d
 Alphas = {2, 3}
 Shapes = {%s}
 Bends = {%s}
 Stiff = {%s}
 Ends = {%s}
 Pick <- %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
INV = "Rigid Law Sizes"
SHAPE = {1: 0.2, 2: 0.4, 3: 0.6, 4: 0.75, 5: 0.85, 6: 0.92}
# the solver says that it did not find the bounce: undershoot-overshoot or deformation of the path
FAILED = (2, 3, 4, 7)
UNIT = 64.0       # GeV, unit of the fields
MASS = 16.0       # GeV, unit of masses


def true_vacuum(a):
    return (3 + math.sqrt(9 - 8 * a)) / (2 * a)


def bent(a, bend):
    """Height of the valley's bend: its floor is at height * 4 x (x1 - x) / x1^2."""
    return bend / 16 * true_vacuum(a)


def U(a, x):
    return x * x / 2 - x**3 / 2 + a * x**4 / 8


def shoot(a, alpha, bend):
    """The action of the one-dimensional bounce along the floor of the valley (bend 0: straight)."""
    import numpy as np
    from scipy.integrate import solve_ivp
    from scipy.interpolate import CubicSpline
    from scipy.special import i1
    x1, h = true_vacuum(a), bent(a, bend)
    xs = np.linspace(-0.02 * x1, 1.02 * x1, 8001)
    slope = h * 4 * (x1 - 2 * xs) / x1**2
    ell = np.concatenate([[0], np.cumsum(0.5 * (np.sqrt(1 + slope[1:]**2) + np.sqrt(1 + slope[:-1]**2)) * np.diff(xs))])
    x_of = CubicSpline(ell, xs)
    V = CubicSpline(ell, U(a, xs))
    dV, d2V = V.derivative(), V.derivative(2)
    ell_of = CubicSpline(xs, ell)
    lt, lf = float(ell_of(x1)), float(ell_of(0.0))
    span = lt - lf
    w = math.sqrt(float(d2V(lt)))
    grow = (lambda z: np.sinh(z) / z) if alpha == 2 else (lambda z: 2 * i1(z) / z)
    dgrow = (lambda z: np.cosh(z) / z - np.sinh(z) / z**2) if alpha == 2 else (
        lambda z: (grow(z * (1 + 1e-6)) - grow(z * (1 - 1e-6))) / (2e-6 * z))
    ev = [lambda r, y: y[0] - (lf - 0.01 * span), lambda r, y: y[1]]
    for e in ev:
        e.terminal = True
    ev[1].direction = 1          # turned round before reaching the false vacuum

    def run(logd, dense=False):
        d = math.exp(logd)
        if d > 1e-3 * span:      # thick wall: start at rest
            r0, y0 = 1e-4 / w, [lt - d, float(dV(lt - d)) * 1e-4 / w / (alpha + 1)]
        else:
            lo, hi = 1e-3, 600.0
            while hi - lo > 1e-12 * hi:
                z = (lo + hi) / 2
                lo, hi = (z, hi) if d * grow(z) < 1e-3 * span else (lo, z)
            r0, y0 = lo / w, [lt - d * grow(lo), -d * dgrow(lo) * w]
        return solve_ivp(lambda r, y: [y[1], float(dV(y[0])) - alpha / r * y[1]], (r0, r0 + 400), y0, rtol=1e-9, atol=1e-13,
                         events=ev, dense_output=dense)
    lo, hi = -250.0, math.log(0.98 * span)   # lo overshoots, hi turns back
    for _ in range(70):
        mid = (lo + hi) / 2
        s = run(mid)
        lo, hi = (mid, hi) if len(s.t_events[0]) else (lo, mid)
    s = run(lo, True)
    r = np.linspace(s.t[0], s.t[-1], 40001)
    y = s.sol(r)
    far = np.argmin(np.abs(y[0] - lf) + np.abs(y[1]))
    r, y = r[:far + 1], y[:, :far + 1]
    area = 4 * math.pi if alpha == 2 else 2 * math.pi**2
    dens = r**alpha * (y[1]**2 / 2 + V(y[0]))
    inner = float(V(lt - math.exp(lo))) * r[0]**(alpha + 1) / (alpha + 1)
    return area * (np.sum((dens[1:] + dens[:-1]) / 2 * np.diff(r)) + inner)


TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "bounce.json")


def write_table():
    from concurrent.futures import ProcessPoolExecutor
    need = [(k, a, b) for k in SHAPE for a in (2, 3) for b in (0, 1, 2)]
    with ProcessPoolExecutor(vlib.NPROC) as ex:
        new = list(ex.map(shoot, [SHAPE[q[0]] for q in need], [q[1] for q in need], [q[2] for q in need]))
    json.dump({json.dumps(k): v for k, v in zip(need, new)}, open(TABLE, "w"), indent=0)


def concrete(c):
    a = SHAPE[c["shape"]]
    x1, h = true_vacuum(a), bent(a, c["bend"])
    s, m = UNIT * 2.0**c["s"], MASS * 2.0**c["m"]
    n = c["n"]
    R = [[x / 5.0**c["r"] for x in row] for row in c["R"]]
    top = (3 - math.sqrt(9 - 8 * a)) / (2 * a)
    pad = lambda x, z=0.0: ([x] + [z] * (n - 1))[:n]
    floor = lambda x: [x] + [4 * h * x * (x1 - x) / x1**2] * (1 if n > 1 else 0) + [0.0] * (n - 2) if n > 1 else [x]
    tv, fv = floor(x1), floor(0.0)
    if c["ends"] == "backwards":
        tv, fv = fv, tv
    if c["ends"] == "top":
        fv = floor(top)
    k = {"straight": 2, "refined": 17, "displaced": 17}[c["path"]]
    path = []
    for i in range(k):
        f = i / (k - 1)
        q = [(1 - f) * u + f * v for u, v in zip(tv, fv)]
        if c["path"] == "displaced":
            q[-1] += 0.05 * x1 * math.sin(math.pi * f)
        path.append(q)
    E = (m * s)**2
    return {"a": a, "s": s, "E": E, "offset": c["raised"] * E, "centre": [v * s for v in c["shift"]], "R": R,
            "kappa": [float(x) for x in c["stiff"]], "bend": ([4 * h / x1**2] + [0.0] * (n - 2))[:n - 1],
            "path": path, "true": tv, "false": fv, "gradient": c["gradient"], "T": 50.0, "maxpath": 7, "alpha": c["alpha"]}


def judge(c, w, o, low, high):
    if "action" not in o:
        return "fails: %s" % str(o)[:200]
    if c["outcome"] == "backwards":
        return None if o["state"] > 1 and o["action"] == -1 else "a path given backwards is reported as %s with action %s" % (o["state"], o["action"])
    if c["outcome"] == "no minimum":
        return None if o["state"] == 5 and o["action"] == -1 else "a false vacuum that is no minimum is reported as %s with action %s" % (
            o["state"], o["action"])
    unit = UNIT**2 * MASS**(1 - c["alpha"]) * 2.0**c["exp"]
    got = o["action"] / unit if isinstance(o["action"], float) else float("nan")
    if o["state"] != 1:
        return "no action: state %s of a bounce of action %.6g" % (o["state"], low)
    if not o["T"] == w["T"]:
        return "temperature changed to %s" % o["T"]
    # a straight valley is solved exactly by the straight path
    exact = c["bend"] == 0 and c["path"] != "displaced"
    tol = 0.01 if exact else 0.05
    if not low * (1 - tol) <= got <= high * (1 + tol):
        return "action in units of the normal form is %.7g, the bounce has %.7g%s" % (got, low, "" if low == high else " to %.7g" % high)
    return None


def run(ck):
    shapes, bends = "1, 2, 3, 4, 5, 6", "0, 1, 2"
    ck.spec("MC_Bounce", cfg_text=CFG % (2, 2, "1", "0, 1", "1", '"proper"', "All", INV))
    runs = []
    for k, (d, o) in enumerate([(1, 3), (3, 6), (4, 9)]):
        runs.append(dict(module="MC_Bounce", cfg_text=CFG % (d, o, shapes, "0" if d == 1 else bends, "1, 2, 4", '"proper"', "One", INV + " Emit"),
                         simulate=ck.pick(60, 1500), depth=o + 3, seed=ck.seed * 3 + k))
    runs.append(dict(module="MC_Bounce", cfg_text=CFG % (4, 8, shapes, bends, "1, 2, 4", '"backwards", "top"', "One", INV + " Emit"),
                     simulate=ck.pick(30, 400), depth=11, seed=ck.seed * 3 + 7))
    cases = ck.specs(runs)
    work = [concrete(c) for c in cases]
    base = {tuple(json.loads(k)): v for k, v in json.load(open(TABLE)).items()}
    # straight valleys with the library's assertions, too
    straight = [k for k, c in enumerate(cases) if not c["bend"] and c["path"] != "displaced"]
    outs = vlib.run_driver(vlib.driver("d_action_release"), work, jobs=vlib.NPROC, timeout=900)
    outs += vlib.run_driver(vlib.driver("d_action"), [work[k] for k in straight], jobs=vlib.NPROC, timeout=900)
    stat, curved, short = {}, 0, []
    for c, w, o in zip(cases + [cases[k] for k in straight], work + [work[k] for k in straight], outs):
        ck.traces += 1
        low = high = None
        if c["outcome"] == "action":
            low, high = base[c["shape"], c["alpha"], 0], base[c["shape"], c["alpha"], c["bend"]]
        bad = judge(c, w, o, low, high)
        k = "%s, %s%s" % (c["outcome"], "straight" if not c["bend"] else "bent", " valley")
        stat[k] = stat.get(k, 0) + 1
        if c["outcome"] == "action" and (c["bend"] or c["path"] == "displaced"):
            curved += 1
            # the deformation of a curved path may use up its iterations, and says so
            if bad and o.get("state") in FAILED and o.get("action") == -1:
                short.append((c, w, o, bad))
                continue
        if bad:
            ck.violation("%d fields, shape %s, bend %s, alpha %d: %s" % (c["n"], w["a"], c["bend"], c["alpha"], bad), {"frame": c, "case": w, "observed": o})
    if len(short) > max(2, 0.03 * curved):
        for c, w, o, bad in short:
            ck.violation("%d of %d curved paths do not converge: %d fields, shape %s, bend %s, alpha %d: %s" % (
                len(short), curved, c["n"], w["a"], c["bend"], c["alpha"], bad), {"frame": c, "case": w, "observed": o})
    ck.extra["curved paths out of iterations"] = "%d of %d" % (len(short), curved)
    ck.extra["bounces"] = stat
    ck.extra["actions of the normal form"] = {str(k): v for k, v in base.items()}


if __name__ == "__main__":   # PYTHONPATH=tools python3-vt checks/p24.py: the actions by shooting
    write_table()
