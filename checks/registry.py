"""PhaseRegistry.tla behaviours made concrete and judged."""
import diagrams as dg

T1, SV = 20.0, 500.0


def cfg(Wells="{1,2}", TMax=4, MaxReg=3, Ops='{"reg"}', Depths="DepOne", Intervals="Iv4", DescHi="FALSE", Pick="All"):
    d = dict(Wells=Wells, TMax=TMax, MaxReg=MaxReg, Ops=Ops, Depths=Depths, Intervals=Intervals, DescHi=DescHi, Pick=Pick)
    return ("SPECIFICATION Spec\nCONSTANTS\n" +
            "".join(" %s %s %s\n" % (a, "<-" if a in ("Depths", "Intervals", "Pick") else "=", b) for a, b in d.items()) +
            "INVARIANTS InWindow NothingLost Repaired PairsOnce Emit\nCHECK_DEADLOCK FALSE\n")


def concrete(rng, c, tmax):
    n = len(c["dep"])
    dim = rng.choice([1, 2, 3])
    pts = list(dg.PTS[dim][:4])
    rng.shuffle(pts)
    ws = []
    for i in range(n):
        p = [x + rng.uniform(-8, 8) for x in pts[i]]
        v = [rng.uniform(-0.1, 0.1) for _ in p]
        ws.append({"c": p, "vel": v, "lo": -1e3, "hi": 1e3, "a": SV * c["dep"][i][0], "b": SV * c["dep"][i][1] / T1})
    ops = []
    for h in c["hist"]:
        o = {"op": h["op"]}
        if h["op"] == "reg":
            w = ws[h["w"] - 1]
            a, b, kn = h["iv"]
            ts = [T1 * (a + (b - a) * j / (kn - 1)) for j in range(kn)] if kn > 1 else [T1 * a]
            if rng.random() < 0.5:
                rng.shuffle(ts)
            o["mins"] = [[t, dg.pos(w, t), dg.depth(w, t)] for t in ts]
        elif h["op"] == "find":
            w = ws[h["w"] - 1]
            t = T1 * h["T"]
            # within one GeV of the curve (per direction) counts as found
            off = 0.9 * dim * rng.random() / (dim ** 0.5)
            o["T"], o["pt"] = t, [x + off for x in dg.pos(w, t)] if rng.random() < 0.5 else dg.pos(w, t)
        elif h["op"] == "overlap":
            o.update(i=h["i"], j=h["j"])
        elif h["op"] == "region":
            o["mode"] = h["mode"]
        elif h["op"] == "pairs":
            ops.append({"op": "number"})
        ops.append(o)
        if h["op"] == "overlap":
            ops.append({"op": "globoverlap", "i": h["i"], "j": h["j"]})
    return {"cmd": "registry", "wells": ws, "k": 400.0, "tree": [777.0 + 13 * j for j in range(dim)], "Tlow": 0.0, "Thigh": T1 * tmax,
            "ops": ops, "full": True}


def apply_reg(rs, w, a, b, kn):
    if kn <= 1:
        return rs
    rs = [list(r) for r in rs]
    for r in rs:
        if r[0] == w and max(r[1], a) < min(r[2], b):
            r[1], r[2] = min(r[1], a), max(r[2], b)
            return rs
    return rs + [[w, a, b]]


def judge(c, case, o):
    if "crash" in o or "exception" in o:
        return "history of the phase list failed: %s" % str(o)[:300]
    reg, k = [], 0
    for h in c["hist"]:
        st = o["steps"][k]
        if h["op"] == "reg":
            reg = apply_reg(reg, h["w"], *h["iv"])
        elif h["op"] == "find" and st["r"] != h["r"]:
            return "minimum of well %d at T=%s looked up as %s, prescribed %s" % (h["w"], T1 * h["T"], st["r"], h["r"])
        elif h["op"] == "overlap":
            k += 1
            if st["r"] != h["r"]:
                return "overlap of phases %d,%d reported %s" % (h["i"], h["j"], st["r"])
            if o["steps"][k]["r"] != h["g"]:
                return "global-minimum overlap of phases %d,%d reported %s, prescribed %s (ranges %s)" % (
                    h["i"], h["j"], o["steps"][k]["r"], h["g"], reg)
        elif h["op"] == "region":
            if st["r"] != [h["st"], h["coex"]]:
                return "coverage reported %s for %s in mode %s, prescribed %s" % (st["r"], reg, h["mode"], [h["st"], h["coex"]])
            reg = [list(r) for r in c["reg"]] if h is c["hist"][-1] else None
        elif h["op"] == "pairs":
            k += 1
            bad = judge_pairs(case, reg, h["ps"], o["steps"][k]["r"])
            if bad:
                return bad
        if reg is not None and h["op"] != "pairs":
            got = []
            for p in o["steps"][k]["ph"]:
                w = next((i + 1 for i, x in enumerate(case["wells"]) if max(abs(a - b) for a, b in zip(dg.pos(x, p[0]), p[3])) < 0.5), None)
                got.append([w, p[0] / T1, p[1] / T1])
                if (p[4], p[5]) != (-1, 1):
                    return "ends of a registered phase flagged %s" % ((p[4], p[5]),)
            if got != [[r[0], float(r[1]), float(r[2])] for r in reg]:
                return "after %s the phases are %s, prescribed %s" % (h, got, reg)
        k += 1
    return None


def judge_pairs(case, reg, exp, got):
    if [(p["false"], p["true"], p["lo"] / T1, p["hi"] / T1, p["st"]) for p in got] != [(p["f"], p["t"], p["lo"], p["hi"], p["st"]) for p in exp]:
        return "pairs of %s: %s, prescribed %s" % (reg, [(p["false"], p["true"], p["lo"], p["hi"], p["st"]) for p in got], exp)
    if [p["id"] for p in got] != list(range(len(got))):
        return "pairs not numbered consecutively"
    for p in got:
        wf, wt = case["wells"][reg[p["false"]][0] - 1], case["wells"][reg[p["true"]][0] - 1]
        bad = dg.judge_tc(p, wf, wt)
        if bad:
            return bad
    return None
