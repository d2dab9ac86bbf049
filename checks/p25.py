"""P25: the self-test of a model tells the truth."""
import cmath
import itertools
import math
import re
import vlib

CFG = """SPECIFICATION Spec
CONSTANTS
 MaxSteps = %d
 MaxBroken = %d
 Pick <- %s
INVARIANTS %s
%s
CHECK_DEADLOCK FALSE
"""
TCFG = """SPECIFICATION Spec
CONSTANTS
 Kinds = {%s}
 Sizes <- %s
 Values = {%s}
 MaxSteps = %d
 Ragged = %s
 Pick <- %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
KINDS = ["scalar2", "scalar3", "scalar4", "gauge", "fermion2", "fermion3"]
INV = "TypeOK Honest Complete Blamed Separate Counted Covered"
# the line of the report about a condition
NAMES = {"ctlabels": "CT number/label match", "vevlabels": "VEV number/label match",
         "templabels": "addLegendTemp number/label match", "triplelabels": "addLegendTripleCouplings number/label match",
         "ckm": "CKM matrix unitarity", "gauge": "Matching gauge boson masses with SMparam.h",
         "lepton": "Matching lepton masses with SMparam.h", "quark": "Matching quark masses with SMparam.h",
         "minimum": "Correct EW Minimum", "tadpole": "Tadpole relations fullfilled",
         "nlo": "Matching Masses between NLO and tree-level", "vtree": "Checking VTreeSimplified",
         "vcounter": "Checking VCounterSimplified", "second": "Checking second derivative of CW+CT",
         "first": "Checking first derivative of CW+CT", "L2": "Check symmetric properties of the scalar tensor Lij",
         "L3": "Check symmetric properties of the scalar tensor Lijk", "L4": "Check symmetric properties of the scalar tensor Lijkl",
         "G": "Check symmetric properties of the gauge tensor in the C2HDM",
         "FL1": "Check symmetric properties of the Lepton tensor in the C2HDM",
         "FL0": "Check symmetric properties of the mass Lepton tensor in the C2HDM",
         "FQ1": "Check symmetric properties of the Quark tensor in the C2HDM",
         "FQ0": "Check symmetric properties of the mass Quark tensor in the C2HDM"}


def orbit(t):
    return set(itertools.permutations(t))


def some(rng, lo, hi):
    """A number of either sign over several orders of magnitude."""
    return rng.choice([-1, 1]) * math.exp(rng.uniform(math.log(lo), math.log(hi)))


def model(rng, case, sm):
    """A model with exactly the defects and the allowed changes of the case."""
    broken, tame = case["broken"], case["tame"]
    nH = rng.choice([4, 4, 5])
    nV = rng.choice([1, 2, 2, 3]) if nH == 5 else rng.choice([1, 2])
    # fields without a mass, like Goldstone bosons, take part in nothing else
    massless = rng.choice([1, 2]) if "massless" in tame or "loopgoldstone" in broken else 0
    fields = list(range(nH + massless))
    rng.shuffle(fields)
    order, rest, light = sorted(fields[:nV]), sorted(fields[nV:nH]), sorted(fields[nH:])
    nH += massless
    v = [rng.choice([-1, 1]) * rng.uniform(40, 300) for _ in order]
    full = [0.0] * nH
    for i, x in zip(order, v):
        full[i] = x
    c = dict(nH=nH, nL=9, nQ=12, order=order, v=v, tree=case["tree"], counter=case["counter"], which=rng.choice([1, 2, 3, 4, 6, 7]))
    for k in "L1 L2 L3 L4 C1 C2 C3 C4 G FL0 FL1 FQ0 FQ1".split():
        c[k] = []
    # tree level: one quartic and one mass each, no mixing; the vacuum is the minimum
    scale = 1e4
    for i in range(nH):
        if i in order:
            lam = rng.uniform(0.5, 2)
            c["L2"].append([i, i, -lam * full[i] ** 2])
            c["L4"].append([i, i, i, i, 6 * lam])
        elif i in rest:
            c["L2"].append([i, i, rng.uniform(2, 9) * scale])
    # counterterms undo the loop part
    hess = [[0.0] * nH for _ in range(nH)]
    for i in range(nH):
        for j in range(i + 1):
            hess[i][j] = hess[j][i] = some(rng, 1e-3, 1e4) if "compensated" in tame else some(rng, 1e-3, 1e2)
    grad = [some(rng, 1e-3, 1e5) for _ in range(nH)]
    if "compensated" in tame:
        # with couplings beyond the quadratic ones
        t3 = tuple(sorted(rng.choice(range(nH)) for _ in range(3)))
        t4 = tuple(sorted(rng.choice(range(nH)) for _ in range(4)))
        c["C3"] += [list(t) + [0.37] for t in orbit(t3)]
        c["C4"] += [list(t) + [0.0625] for t in orbit(t4)]
    g3 = [0.0] * nH
    h3 = [[0.0] * nH for _ in range(nH)]
    for i, j, k, x in c["C3"]:
        h3[i][j] += x * full[k]
        g3[i] += x * full[j] * full[k] / 2
    for i, j, k, l, x in c["C4"]:
        h3[i][j] += x * full[k] * full[l] / 2
        g3[i] += x * full[j] * full[k] * full[l] / 6
    for i in range(nH):
        s = -grad[i] - g3[i]
        for j in range(nH):
            x = -hess[i][j] - h3[i][j]
            c["C2"].append([i, j, x])
            s -= x * full[j]
        c["C1"].append([i, s])
    # gauge bosons: a photon, two W, a Z
    f = rng.choice(order)
    mass = [0.0, sm["boson"][0] ** 2, sm["boson"][0] ** 2, sm["boson"][1] ** 2]
    if "bosonmass" in broken:
        mass[rng.choice([1, 2, 3])] *= 1 + some(rng, 1e-3, 0.5)
    if "photonmass" in broken:
        mass[0] = some(rng, 1e-2, 10)
    rot = [[float(i == j) for j in range(4)] for i in range(4)]
    if "mixing" in tame:
        for a, b in [(0, 3), (1, 2), (0, 1)]:
            x = rng.uniform(0, 6)
            for r in rot:
                r[a], r[b] = math.cos(x) * r[a] - math.sin(x) * r[b], math.sin(x) * r[a] + math.cos(x) * r[b]
    for a in range(4):
        for b in range(a + 1):
            x = 2 * sum(rot[a][k] * rot[b][k] * mass[k] for k in range(4)) / full[f] ** 2
            if x:
                for p in {(a, b), (b, a)}:
                    c["G"].append([p[0], p[1], f, f, x])
    # fermions in pairs
    lep, quark = list(sm["lepton"]), list(sm["quark"])
    if "leptonmass" in broken:
        k = rng.randrange(3)
        lep[k] = rng.uniform(0.05, 0.2) if k == 0 else lep[k] * (1 + some(rng, 0.02, 0.5))
    if "quarkmass" in broken:
        k = rng.randrange(6)
        quark[k] *= 1 + some(rng, 0.02, 0.5)
    if "swapped" in tame:
        rng.shuffle(quark)
        rng.shuffle(lep)
    for n0, n1, ms in (("FL0", "FL1", lep), ("FQ0", "FQ1", quark)):
        for k, m in enumerate(ms):
            a, b = 2 * k, 2 * k + 1
            bare = rng.uniform(0, 1) * m if "baremass" in tame else 0.0
            ph = cmath.exp(1j * rng.uniform(0, 6)) if "baremass" in tame else 1.0
            for p in ((a, b), (b, a)):
                z = bare * ph
                if bare:
                    c[n0].append([p[0], p[1], z.real, z.imag])
                z = (m - bare) * ph / full[f]
                c[n1].append([p[0], p[1], f, z.real, z.imag])
    if "neutrinomass" in broken:
        c["FL1"].append([8, 8, f, rng.uniform(0.01, 1) / full[f], 0.0])
    # labels
    n3 = nH * (nH + 1) * (nH + 2) // 6 * 3
    c["nCT"] = rng.randrange(1, 6)
    c["labels"] = dict(ct=c["nCT"], vev=nV, temp=nV + 3, triple=n3)
    for d, k in (("ctlabels", "ct"), ("vevlabels", "vev"), ("templabels", "temp"), ("triplelabels", "triple")):
        if d in broken:
            n = c["labels"][k]
            c["labels"][k] = rng.choice([n - 1, n + 1, n + rng.randrange(1, 4)] + ([n3 // 3, n3 * 2] if k == "triple" else [])
                                        + ([nV, nV + 4] if k == "temp" else []) + ([nH] if k == "vev" and nH != nV else []))
    c["calc"] = c["nCT"]
    if "ctnumber" in broken:
        c["calc"] += rng.choice([-1, 1, 2])
    c["identities"] = [0.0 if rng.random() < 0.5 else some(rng, 1e-9, 1e-6) for _ in range(rng.randrange(0, 4))]
    if "identity" in broken or "identitynan" in broken:
        c["identities"].insert(rng.randrange(len(c["identities"]) + 1), "nan" if "identitynan" in broken else some(rng, 1e-4, 1e4))
    # quark mixing
    ckm = [complex(*x) for x in sm["ckm"]]
    if "phases" in tame:
        for r in range(3):
            ph = cmath.exp(1j * rng.uniform(0, 6))
            for k in range(3):
                ckm[3 * r + k] *= ph
        k = rng.randrange(3)
        ph = cmath.exp(1j * rng.uniform(0, 6))
        for r in range(3):
            ckm[3 * r + k] *= ph
    if "ckmentry" in broken:
        ckm[rng.randrange(9)] += cmath.rect(abs(some(rng, 1e-3, 0.3)), rng.uniform(0, 6))
    c["ckm"] = [[z.real, z.imag] for z in ckm]
    if "ckmnan" in broken:
        c["ckm"][rng.randrange(9)][rng.randrange(2)] = "nan"
    # where the minimiser ends
    found = list(v)
    if "signs" in tame:
        found = [rng.choice([-1, 1]) * x for x in found]
    if "nearby" in tame:
        found = [x + rng.uniform(-0.4, 0.4) / nV for x in found]
    if "elsewhere" in broken:
        k = rng.randrange(nV)
        new = rng.choice([0.0, found[k] * rng.uniform(1.05, 2), found[k] * rng.uniform(0.2, 0.95)])
        found[k] = new
    if "nominimum" in broken:
        found[rng.randrange(nV)] = "nan"
    c["found"] = found
    if "slope" in broken:
        c["L1"].append([rng.randrange(nH), some(rng, 1e-3, 1e5)])
    if "slopenan" in broken:
        c["L1"].append([rng.choice(rest), "nan"])
    # loops against counterterms
    i, j = rng.randrange(nH), rng.randrange(nH)
    if "loopgradient" in broken:
        grad[i] += some(rng, 1e-3, 1e3)
    if "loopgradientnan" in broken:
        grad[j] = "nan"
    if "countergradient" in broken:
        c["C1"].append([rng.randrange(nH), some(rng, 1e-2, 1e3) * 1e4])
    if "countergradientnan" in broken:
        c["C1"].append([rng.choice(rest), "nan"])
    if "loophessian" in broken:
        a, b = rng.choice(order + rest), rng.choice(order + rest)
        hess[a][b] += some(rng, 1e-2, 1e2)
    if "counterhessian" in broken:
        a, b = rng.choice(rest), rng.choice(rest)
        c["C2"].append([a, b, some(rng, 1e-2, 1e2)])
    if "countermass" in broken:
        k = rng.choice(order)
        c["C2"].append([k, k, some(rng, 1e-2, 1e2)])
    if "loopmass" in broken:
        for k in range(nH):
            hess[k][k] += 1e6 * rng.uniform(1, 3)
    if "loopgoldstone" in broken:
        k = rng.choice(light)
        hess[k][k] += some(rng, 1e-2, 1e6)
    if "loophessiannan" in broken:
        a, b = rng.randrange(nH), rng.randrange(nH)
        hess[a][b] = hess[b][a] = "nan"
    c["grad"], c["hess"] = grad, hess
    other = {}
    for d, k in (("othertree", "tree"), ("othercounter", "counter")):
        other[k] = None
        if d in broken:
            other[k] = dict(field=rng.randrange(nV), side=rng.choice([-1, 1]),
                            factor=rng.choice([0.0, -1.0, 3.0, 1e3, "nan"] + ([1.01, 1 + 1e-3] if k == "tree" else [])))
    c["other"] = other
    # couplings among the fields without vacuum value
    inert = lambda r: tuple(rng.choice(rest) for _ in range(r))
    for d, k, r in (("tensorL2", "L2", 2), ("tensorL3", "L3", 3), ("tensorL4", "L4", 4)):
        if "symmetric" in tame:
            x = some(rng, 0.01, 2)
            for t in orbit(inert(r)):
                c[k].append(list(t) + [x])
        if d in broken:
            t = inert(r)
            if r > 2 and rng.random() < 0.4:
                t = t[:2] + tuple(rng.choice(order) if q == 2 else x for q, x in enumerate(t[2:], 2))
                t = rng.choice(sorted(orbit(t)))
            while len(set(t)) == 1:
                t = inert(r)
            c[k].append(list(t) + [some(rng, 1e-6, 2)])
    if "symmetric" in tame:
        a, b, p, q, x = rng.randrange(4), rng.randrange(4), rng.choice(rest), rng.choice(rest), some(rng, 0.01, 2)
        for e in {(a, b, p, q), (b, a, p, q), (a, b, q, p), (b, a, q, p)}:
            c["G"].append(list(e) + [x])
    if "tensorG" in broken:
        a, b, p, q = rng.randrange(4), rng.randrange(4), rng.choice(rest), rng.choice(rest)
        while a == b and p == q:
            a, b, q = rng.randrange(4), rng.randrange(4), rng.choice(rest)
        c["G"].append([a, b, p, q, some(rng, 1e-6, 2)])
    for d, k, n in (("tensorFL1", "FL1", 9), ("tensorFQ1", "FQ1", 12)):
        if "symmetric" in tame:
            a, b, p, x, y = rng.randrange(n), rng.randrange(n), rng.choice(rest), some(rng, 0.01, 2), some(rng, 0.01, 2)
            for e in {(a, b), (b, a)}:
                c[k].append([e[0], e[1], p, x, y])
        if d in broken:
            a, b = rng.sample(range(n), 2)
            z = rng.choice([(1, 0), (0, 1), (1, 1)])
            x = some(rng, 1e-6, 2)
            c[k].append([a, b, rng.choice(rest), z[0] * x, z[1] * x])
    for d, k, n in (("tensorFL0", "FL0", 9), ("tensorFQ0", "FQ0", 12)):
        if d in broken:
            a, b = rng.sample(range(n), 2)
            z = rng.choice([(1, 0), (0, 1), (1, 1)])
            c[k].append([a, b, z[0] * 1e-9, z[1] * 1e-9])
    if "bosonnan" in broken:
        a, p = rng.randrange(4), rng.randrange(nH)
        c["G"].append([a, a, p, p, "nan"])
    for d, k, n in (("leptonnan", "FL1", 9), ("quarknan", "FQ1", 12)):
        if d in broken:
            a = rng.randrange(n)
            c[k].append([a, a, rng.randrange(nH)] + rng.choice([["nan", 0.0], [0.0, "nan"]]))
    return c


def judge(case, c, o):
    if "text" not in o:
        return "fails: %s" % str(o)[:300]
    rows, lines = [], o["text"].splitlines()
    names = {n: t for t, n in NAMES.items()}
    for l in lines:
        m = re.match(r"(.*?)\s*\|\s*(\S+)\s*$", l)
        if m and m.group(1) in names:
            rows.append([names[m.group(1)], m.group(2)])
    want = case["report"]
    if sorted(r[0] for r in rows) != sorted(r[0] for r in want):
        return "tests in the report: %s, expected %s" % ([r[0] for r in rows], [r[0] for r in want])
    got = dict(map(tuple, rows))
    bad = ["%s: %s" % (t, got[t]) for t, x in want if got[t] != x]
    if bad:
        return "wrong verdict: %s" % ", ".join(bad)
    for t, x in case["apart"]:
        if o[t] != x:
            return "wrong verdict: %s: %s" % (t, o[t])
    passed = sum(x == "Pass" for _, x in want)
    m = re.search(r"(\d+) tests out of (\d+) passed", o["text"])
    if not m or (int(m.group(1)), int(m.group(2))) != (passed, len(want)):
        return "counts: %s, expected %d of %d" % (m and m.group(0), passed, len(want))
    m = re.search(r"(\d+) tests failed", o["text"])
    if (int(m.group(1)) if m else 0) != len(want) - passed or ("good to go" in o["text"]) != (passed == len(want)):
        return "summary does not follow from the verdicts"
    if o["which"] != c["which"]:
        return "minimiser %s used instead of %s" % (o["which"], c["which"])
    if len(o["asked"]) != len(c["v"]):
        return "search for the vacuum started at %s" % o["asked"]
    return None


def run(ck):
    exe = vlib.driver("d_selftest")
    sm = vlib.run_driver(exe, [{"masses": 1}])[0]
    ck.spec("MC_SelfTest", cfg_text=CFG % (ck.pick(2, 3), 2, "All", INV, "PROPERTIES Monotone Tolerant"))
    runs = [dict(module="MC_SelfTest", cfg_text=CFG % (k, 6, "One", INV + " Emit", ""), simulate=n, depth=k + 1, seed=ck.seed * 13 + k)
            for k, n in ((2, ck.pick(150, 2500)), (8, ck.pick(60, 1500)))]
    # every defect and every allowed change alone
    cases = ck.spec("MC_SelfTest", cfg_text=CFG % (1, 1, "All", INV + " Emit", "")).cases
    cases += ck.specs(runs)
    cases = [c for i, c in enumerate(cases) for _ in range(ck.pick(2, 6))]
    work = [model(ck.rng, c, sm) for c in cases]
    stat, hits = {}, {}
    for c, w, o in zip(cases, work, vlib.run_driver(exe, work, jobs=vlib.NPROC)):
        ck.traces += 1
        bad = judge(c, w, o)
        for d in c["broken"]:
            hits[d] = hits.get(d, 0) + 1
        k = "%d defects" % len(c["broken"])
        stat[k] = stat.get(k, 0) + 1
        if bad:
            ck.violation("self-test, defects %s, changes %s: %s" % (c["broken"], c["tame"], bad), {"case": c, "model": w, "observed": o})
    ck.extra["models"] = stat
    ck.extra["defects"] = hits
    ck.sample(cases[-1])

    # the tensors
    kinds = lambda ks: ", ".join('"%s"' % k for k in ks)
    tinv = "Built Generated Closed Witness"
    ck.specs([dict(module="MC_Tensors", cfg_text=TCFG % (kinds([k]), "Small", "1", ck.pick(2, 3 if k != "scalar4" else 2), "TRUE", "All", tinv))
              for k in KINDS])
    runs = [dict(module="MC_Tensors", cfg_text=TCFG % (kinds([k]), "Wide", "1, 2, 3", s, "TRUE" if s == 3 else "FALSE", "One", tinv + " Emit"),
                 simulate=ck.pick(20, 300), depth=s + 1, seed=ck.seed * 17 + s)
            for k in KINDS for s in (3, 6, 10)]
    cases = ck.specs(runs)
    work, stat = [], {}
    for c in cases:
        k, (f, s) = c["kind"], c["size"]
        rank = 4 if k in ("gauge", "scalar4") else int(k[-1])
        dims = [s] * rank if k.startswith("scalar") else [f, f] + [s] * (rank - 2)
        real = [0.0, some(ck.rng, 1e-3, 10), some(ck.rng, 1e-3, 10), 0.0]
        real[3] = real[1] * (1 + 1e-12) if ck.rng.random() < 0.5 else -real[1]
        z = complex(some(ck.rng, 0.1, 1), some(ck.rng, 0.1, 1))
        comp = [0j, z, z.conjugate(), complex(-z.real, z.imag)]
        ent = []
        for t, x in c["set"]:
            ent.append([i - 1 for i in t] + ([comp[x].real, comp[x].imag] if k.startswith("fermion") else [real[x]]))
        work.append(dict(kind=k, dims=dims, set=ent, cut=ck.rng.randrange(dims[0]) if c["ragged"] else -1))
    for c, w, o in zip(cases, work, vlib.run_driver(exe, work, jobs=vlib.NPROC)):
        ck.traces += 1
        k = "%s %s" % (c["kind"], c["verdict"])
        stat[k] = stat.get(k, 0) + 1
        if not o.get("verdicts") or any(x != c["verdict"] for x in o["verdicts"]):
            ck.violation("tensor of kind %s: %s, expected %s" % (c["kind"], str(o)[:200], c["verdict"]), {"case": c, "tensor": w, "observed": o})
    ck.extra["tensors"] = stat
    ck.assumptions.append("one-loop derivatives and the tree-level search are scripted; deviations are at least ten times the "
                          "documented thresholds or at most a tenth of them, except for the counterterm potential (factor of three)")
