"""P18: characteristic temperatures of a transition with a given action."""
import math
import vlib

CFG = """SPECIFICATION Spec
CONSTANTS
 N = %d
 Profiles <- %s
 Failing <- %s
 Speeds = {%s}
 Fractions = {%s}
 MaxOps = %d
 Pick <- %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
INV = "Falling Ordered After Faster Same"
WEIGHT = [0.3626837833783620, 0.3137066458778873, 0.2223810344533745, 0.1012285362903763]
FRACTION = {1: 0.71, 2: 0.5, 3: 0.05, 4: 0.01, 5: 0.95}
SPEED = {1: [0.1, 0.05], 2: [0.5, 0.3, 0.577], 3: [0.95, 1.0]}


def pchip(nodes, ratios, Tc, cell):
    """The action of the environment, S3/T (same rule as in the driver)."""
    l = [math.log(r) for r in ratios]
    n = len(l)
    s = [0.0] * n
    for k in range(n - 1):
        d = (l[k + 1] - l[k]) / (nodes[k + 1] - nodes[k])
        if k:
            e = (l[k] - l[k - 1]) / (nodes[k] - nodes[k - 1])
            s[k] = 2 * d * e / (d + e) if d * e > 0 else 0.0
        if k + 2 == n:
            s[k + 1] = min(2 / cell, 3 * d) if d > 0 else 0.0

    def R(T):
        if T >= Tc:
            return 1e9
        if T <= nodes[0]:
            return ratios[0]
        if T >= nodes[-1]:
            return ratios[-1] * ((Tc - nodes[-1]) / (Tc - T))**2
        k = 0
        while T > nodes[k + 1]:
            k += 1
        h = nodes[k + 1] - nodes[k]
        x = (T - nodes[k]) / h
        return math.exp(l[k] * (1 + 2 * x) * (1 - x)**2 + h * s[k] * x * (1 - x)**2
                        + l[k + 1] * x * x * (3 - 2 * x) + h * s[k + 1] * x * x * (x - 1))
    return R


def signs(rng, d):
    """A group of reflections of the field directions, containing the identity."""
    gens = [[rng.choice([1, -1]) for _ in range(d)] for _ in range(rng.randrange(1, 3))]
    els = [[1] * d]
    for g in gens:
        for e in list(els):
            x = [a * b for a, b in zip(e, g)]
            if x not in els:
                els.append(x)
    rng.shuffle(els)
    return [[[e[i] if i == j else 0 for j in range(d)] for i in range(d)] for e in els]


def concrete(ck, c):
    R = ck.rng
    n = len(c["p"])
    Tc = R.choice([60.0, 100.0, 150.0, 200.0]) + R.random()
    Tlow = R.choice([0.0, 10.0, Tc * 0.4])
    cell = (Tc - Tlow) / (n + 2)
    nodes = [Tlow + (k + 2) * cell for k in range(n)]
    nodes = [Tc - (n - k) * cell for k in range(n)]
    d = R.choice([1, 1, 2, 3])
    fail = [[nodes[k - 1] - cell / 2, nodes[k - 1] + cell / 2] for k in c["fail"]]
    case = {"Tc": Tc, "Tlow": Tlow, "cell": cell, "nodes": nodes, "ratios": c["p"], "fail": fail, "viable": -1.0,
            "latent": R.choice([1e4, 1e5, 1e6]), "common": 30.0, "vw": R.choice(SPEED[c["v"]]), "eps": 0.1,
            "maxpath": 7, "scan": R.choice([25, 25, 2 * n + 6, 40]),
            "false": [R.choice([0.0, R.uniform(-50, 50)]) for _ in range(d)], "true": [R.uniform(60, 300) * R.choice([1, -1]) for _ in range(d)],
            "ops": [[o["op"]] + ([FRACTION[o["arg"]]] if o["arg"] else []) for o in c["log"]]}
    if R.random() < 0.3:
        case["gstar"] = R.choice([106.75, 120.0, 90.0])
    if R.random() < 0.4:
        case["group"] = signs(R, d)
    if c["fail"] and R.random() < 0.3:
        case["fail"] = []
        case["viable"] = nodes[min(c["fail"]) - 1]
    if R.random() < 0.3:
        case["vw"] = R.choice([-1, -2])
    if R.random() < 0.5:
        case["ops"] += [["perc", 0.71], ["strength"]]
    return case


def integral(step, Tt, c, g, mpl, vw):
    """4 pi/3 vw^3 int_T^Tc dT' Gamma/(T'^4 H) (int_T^T' dT''/H)^3, H = k T^2."""
    k = math.pi * math.sqrt(g / 90) / mpl
    tot = 0.0
    for t, S, w, h in step["samples"]:
        if not isinstance(S, float) or S < 0:
            return None
        gam = (S / (2 * math.pi * t))**1.5 * math.exp(-S / t)  # Gamma/T^4
        tot += WEIGHT[w] * h / 2 * gam / (k * t * t) * ((1 / Tt - 1 / t) / k)**3
    return 4 * math.pi / 3 * vw**3 * tot


def judge(ck, c, case, out):
    done = []

    def bad(what, **kw):
        if what not in done:
            done.append(what)
            ck.violation(what, dict(kw, case=case, behaviour=c))
    if "steps" not in out:
        bad("no answer", out=out)
        return
    R = pchip(case["nodes"], case["ratios"], case["Tc"], case["cell"])
    Tc, Tlow = case["Tc"], case["Tlow"]
    free = not case["fail"] and case["viable"] < 0

    def found(T):
        return not any(a <= T <= b for a, b in case["fail"]) and T >= case["viable"]
    # the scan: what is kept is what was calculated, where it was calculated
    for name in ("list0", "list"):
        l = out[name]
        ts = [x[0] for x in l]
        if ts != sorted(ts) or len(set(ts)) != len(ts):
            bad("order of the solutions", list=ts)
        for T, A, S in l:
            if not (Tlow - 1e-9 <= T < Tc) or not found(T):
                bad("a solution where there is none", T=T)
            elif not vlib.close(A, R(T) * T, 1e-9):
                bad("action of a solution", T=T, got=A, expected=R(T) * T)
            if out["bounce"] == "success" and name == "list0" and not vlib.close(S, A, 1e-6):
                bad("action between the solutions", T=T, at_the_solution=A, interpolated=S)
    # every action is asked for with the vacua of that temperature, the nearest equivalent true one
    if case.get("group"):
        t0 = case["true"]
        f0 = case["false"]
        imgs = [[sum(m[i][j] * t0[j] for j in range(len(t0))) for i in range(len(t0))] for m in case["group"]]
        best = min(math.dist(x, f0) for x in imgs)
        got = [sum(out["symmetry"][i][j] * t0[j] for j in range(len(t0))) for i in range(len(t0))]
        if not vlib.close(math.dist(got, f0), best, 1e-9) or got not in imgs:
            bad("nearest equivalent vacuum", got=got, false=f0, nearest=best)
    sym = out["symmetry"]
    for T, tv, fv, a, b in out["called"]:
        s = 1 + 0.001 * (Tc - T) / Tc
        wf = [x * s for x in case["false"]]
        wt = [sum(sym[i][j] * x * s for j, x in enumerate(case["true"])) for i in range(len(wf))]
        if not all(vlib.close(x, y, 1e-9, 1e-9) for x, y in zip(fv + tv + b + a, wf + wt + wf + wt)):
            bad("vacua of an action", T=T, true=tv, false=fv, expected=[wt, wf], path=[a, b])
    if out["bounce"] != "success":
        if out["bounce"] != "failure":
            bad("status of the bounce solution", got=out["bounce"])
        if free:
            bad("no solution although the action exists everywhere")
        for s in out["steps"]:
            if any(x == "success" for x in s["status"]) or any(t > 0 for t in s["T"]):
                bad("temperature without a solution", step=s)
        return
    if len(out["list"]) < 4:
        bad("status of the bounce solution", got=out["bounce"], solutions=len(out["list"]))
    g = case.get("gstar", out["gstar"])
    idx = {"nucl_approx": 0, "nucl": 1, "perc": 2, "compl": 3, "strength": 2}
    vw = case["vw"] if case["vw"] >= 0 else 0.95
    seen = {}
    names = {0: "nucl_approx", 1: "nucl", 2: "perc", 3: "compl"}
    for k, s in enumerate(out["steps"]):
        op = s["op"][0]
        i = idx[op]
        st, T = s["status"][i], s["T"][i]
        if op == "strength":
            vw = s["vwall"]
        elif s["vwall"] != vw:
            bad("wall velocity", step=k, got=s["vwall"], expected=vw)
        for j in range(4):
            ok = s["status"][j]
            if ok not in ("not_set", "success", "not_met"):
                bad("status of a temperature", step=k, got=s["status"])
            if (ok == "success") != (s["T"][j] > 0) or (ok == "success" and s["trans"][j] != s["T"][j]) or (ok != "success" and s["trans"][j] != -1):
                bad("status and value of a temperature", step=k, which=names[j], status=ok, T=s["T"][j], chosen=s["trans"][j])
            if op != names[j] and op != "strength" and k and out["steps"][k - 1]["T"][j] != s["T"][j]:
                bad("a temperature changed by asking for another", step=k, which=names[j])
        if op == "strength":
            if st == "success":
                strength(ck, case, s, g, out, bad)
                f = next(o["op"][1] for o in reversed(out["steps"][:k]) if o["op"][0] == "perc")
                tot = integral(s, T, case, g, out["mpl"], vw)
                if tot is None or abs(tot / -math.log(f) - 1) > 4e-3:
                    bad("percolation after the strength", step=k, integral=tot, expected=-math.log(f), vw=vw)
            continue
        if st == "not_set":
            bad("status of a temperature", step=k, got=st, op=op)
            continue
        want = c["log"][k]["at"] if k < len(c["log"]) else None
        if st == "not_met":
            if free and want:
                bad("temperature not found", step=k, op=s["op"], node=want)
            continue
        # below the lowest point of the lattice the profile is not known to the specification
        if free and want == 0 and T >= case["nodes"][0]:
            bad("temperature where there is none", step=k, op=s["op"], T=T)
        if not Tlow <= T <= Tc:
            bad("temperature out of range", step=k, T=T)
            continue
        S = s["S"]
        if op == "nucl_approx":
            if abs(S / T / 140 - 1) > 1e-4:
                bad("condition of the approximate nucleation temperature", step=k, T=T, ratio=S / T)
            if free and want and not (case["nodes"][want - 1] - 0.1 * case["cell"] <= T <= (case["nodes"] + [Tc])[want] + 0.1 * case["cell"]):
                bad("not the first crossing", step=k, T=T, node=want)
            if free and case["vw"] > -3 and abs(R(T) / 140 - 1) > 0.1:
                ck.extra["worst"] = max(ck.extra.get("worst", 0), abs(R(T) / 140 - 1))
        elif op == "nucl":
            H = math.pi * math.sqrt(g / 90) * T * T / out["mpl"]
            x = 4 * math.log(T / H) + 1.5 * math.log(S / (2 * math.pi * T)) - S / T
            if abs(x) > 1e-3:
                bad("condition of the nucleation temperature", step=k, T=T, log_rate=x)
        else:
            f = s["op"][1]
            tot = integral(s, T, case, g, out["mpl"], vw)
            if tot is None or abs(tot / -math.log(f) - 1) > 4e-3:
                bad("condition of the percolation and completion temperatures", step=k, op=s["op"], T=T, integral=tot, expected=-math.log(f))
            if tot is not None and not vlib.close(s["fraction"], math.exp(-tot), 4e-3):
                bad("false vacuum fraction", step=k, T=T, got=s["fraction"], expected=math.exp(-tot))
            for f2, T2 in seen.items():
                if (f2 > f and T2 < T * (1 - 1e-4)) or (f2 < f and T2 > T * (1 + 1e-4)):
                    bad("order of percolation and completion", step=k, fractions=[f2, f], temperatures=[T2, T])
            seen[f] = T


def strength(ck, case, s, g, out, bad):
    """Strength, velocity and duration follow from the percolation temperature."""
    T, Tc = s["T"][2], case["Tc"]
    L, C = case["latent"], case["common"]
    rho = g * math.pi**2 / 30 * T**4
    dV = L * (Tc - T)
    a = (dV + T / 4 * L) / rho
    if case["viable"] > T:
        return
    if not vlib.close(s["alpha"], a, 1e-6):
        bad("strength", T=T, got=s["alpha"], expected=a)
        return
    cs = out["csound"]
    vcj = (cs + math.sqrt(a * a + 2 * a / 3)) / (1 + a)
    v = case["vw"]
    if v == -1:
        v = math.sqrt(dV / (a * rho))
        v = 1 if v > vcj else v
    elif v == -2:
        psi = (-4 * C * T**3 + L) / (-4 * C * T**3)
        p = -3.433
        v = (abs((3 * a + psi - 1) / (2 * (2 - 3 * psi + psi**3)))**(p / 2)
             + abs(vcj * (1 - 0.2233 * (1 - psi)**1.704 / a))**(p / 2))**(1 / p)
    if not vlib.close(s["vwall"], v, 1e-5) and not (case["vw"] < 0 and s["vwall"] == 0.95):
        bad("wall velocity", T=T, got=s["vwall"], expected=v)
    if not vlib.close(s["beta"], T * s["slope"], 1e-4, 1e-4 * abs(s["S"] / T)):
        bad("duration", T=T, got=s["beta"], expected=T * s["slope"])


def run(ck):
    ck.spec("MC_Bubble", cfg_text=CFG % (ck.pick(3, 4), "Few", "Sets", "1, 3", "1, 40000", 2, "All", INV))
    cs = ck.specs([dict(module="MC_Bubble", cfg_text=CFG % (n, "AllProfiles", "Sets", "1, 2, 3", "1, 2, 3, 4, 5", 4, "Drawn", INV + " Emit"),
                        simulate=ck.pick(150, 1500), depth=20, seed=ck.seed * 10 + n) for n in (3, 4, 5)])
    exe = vlib.driver("d_bubble")
    cases = [concrete(ck, c) for c in cs]
    outs = vlib.run_driver(exe, cases, jobs=vlib.NPROC, timeout=ck.pick(400, 3000))
    n = {}
    for c, case, out in zip(cs, cases, outs):
        ck.traces += 1
        for s in out.get("steps", []):
            for name, x in zip(("nucl_approx", "nucl", "perc", "compl"), s["status"]):
                n[name + "=" + x] = n.get(name + "=" + x, 0) + 1
        ck.sample({"profile": c["p"], "fails": c["fail"], "ops": case["ops"], "bounce": out.get("bounce")})
        judge(ck, c, case, out)
    ck.extra["outcomes"] = n
    ck.assumptions += ["the bounce action as a function of temperature, where it cannot be found, the vacua and their energies are given; "
                       "the scan over temperatures, its interpolation and the temperatures are the real ones",
                       "conditions are judged on the interpolated action the code integrates, which has to pass through the given action at every solution"]
