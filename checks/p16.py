"""P16: coexisting pairs and critical temperatures."""
import diagrams as dg
import registry as rg
import vlib


def run(ck):
    drv = vlib.driver("d_phase")
    # every arrangement of intervals (disjoint, touching, nested, crossing) and depth orderings
    a2 = ck.spec("MC_PhaseRegistry", cfg_text=rg.cfg(TMax=4, Ops='{"reg","pairs"}', DescHi="TRUE", Depths="DepAny", MaxReg=2)).cases
    a3 = ck.spec("MC_PhaseRegistry", cfg_text=rg.cfg(TMax=4, Ops='{"reg","pairs"}', Wells="{1,2,3}", DescHi="TRUE", Depths="DepAny")).cases
    a4 = ck.spec("MC_PhaseRegistry", cfg_text=rg.cfg(TMax=6, Ops='{"reg","pairs"}', Wells="{1,2,3,4}", DescHi="TRUE", Depths="DepAny4", MaxReg=4,
                                                     Intervals="Iv6", Pick="One"), simulate=ck.pick(2000, 20000), depth=7, seed=ck.seed, workers=1).cases
    rcs = [(c, 4) for c in a2] + [(c, 4) for c in a3[::ck.pick(4, 1)]] + [(c, 6) for c in a4]
    work = [rg.concrete(ck.rng, c, tm) for c, tm in rcs]
    outs = vlib.run_driver(drv, work, jobs=vlib.NPROC, timeout=700)
    stat = {}
    for (c, tm), w, o in zip(rcs, work, outs):
        ck.traces += 1
        for p in c["hist"][-1].get("ps", []):
            stat[p["st"]] = stat.get(p["st"], 0) + 1
        bad = rg.judge(c, w, o)
        if bad:
            ck.violation(bad, {"abstract": c, "case": w, "observed": o})
    # pairs at the end of a full tracing run
    q = ck.pick(1, 8)
    cases = ck.specs(dg.runs(ck, "MFast", [10 * q, 40 * q, 40 * q, 40 * q, 60 * q, 60 * q, 60 * q, 60 * q]))
    cases += ck.specs(dg.runs(ck, "MFast", 40 * q, sets=[("2", "APs", "{1,2}"), ("3", "APs", "{1,2}"), ("4", "APs", "{1,2}"), ("5", "APs", "{1,2}")], focus="tuned"))
    work = [dg.concrete(ck.rng, c) for c in cases]
    outs = vlib.run_driver(drv, work, jobs=vlib.NPROC, timeout=700)
    for c, w, o in zip(cases, work, outs):
        ck.traces += 1
        if dg.judge_tracing(c, w, o):
            continue    # P15's business
        bad = dg.judge_pairs(c, w, o)
        if bad:
            ck.violation("after tracing in mode %d: %s" % (w["mode"], bad), {"abstract": c, "case": w, "observed": o})
    cub = [(c, dg.cubic_of(ck.rng, c)) for c in cases]
    cub = [x for x in cub if x[1]]
    outs = vlib.run_driver(drv, [x[1][0] for x in cub], jobs=vlib.NPROC, timeout=700)
    for (c, (w, T0, T1, Tc)), o in zip(cub, outs):
        ck.traces += 1
        bad = dg.judge_cubic(c, w, T0, T1, Tc, o)
        if bad and "pair" in bad:
            ck.violation("thermal cubic: %s" % bad, {"case": w, "T0": T0, "T1": T1, "Tc": Tc, "observed": o})
    ck.extra["pair_statuses"] = stat
    for c in cases[:: max(1, len(cases) // 3)]:
        ck.sample({"wells": c["wells"], "par": c["par"], "pairs": c["pairs"]})
    for c, _ in rcs[:: max(1, len(rcs) // 3)]:
        ck.sample(c["hist"])
    ck.assumptions = ["no two phases are exactly equally deep at an end of their common range"]
