"""P15: traced phase structure."""
import diagrams as dg
import registry as rg
import vlib


def run(ck):
    q = ck.pick(1, 6)
    fast = ck.specs(dg.runs(ck, "MFast", [8 * q, 40 * q, 30 * q, 30 * q, 40 * q, 40 * q, 40 * q, 40 * q]))
    slow = ck.specs(dg.runs(ck, "MSlow", [3 * q, 12 * q, 12 * q, 12 * q, 12 * q, 12 * q, 12 * q, 12 * q]))
    tuned = dg.runs(ck, "M", 40 * q, sets=[("2", "APs", "{1,2}"), ("3", "APs", "{1,2}"), ("3", "AP", "{0,1,2}"), ("4", "APs", "{1,2}"), ("5", "APs", "{1,2}")], focus="tuned")
    loops = ck.specs(tuned)
    for f, per, sets in (("loop", 60 * q, [("3", "APs", "{1,2}"), ("4", "APs", "{1,2}"), ("4", "APs", "{0,1,2}"), ("5", "APs", "{1,2}")]),
                         ("nested", 25 * q, [("3", "APs", "{1,2}")] * 5 + [("3", "AP", "{0,1}"), ("4", "APs", "{1,2}"), ("4", "APs", "{1,2}")])):
        loops += ck.specs(dg.runs(ck, "MLoop", per, sets=sets, focus=f))
    loops += ck.specs(dg.runs(ck, "MDef", 30 * q, sets=[("1", "APs", "{0,1}"), ("1", "APs", "{0,1}"), ("2", "APs", "{1,2}"), ("3", "APs", "{1,2}")], focus="grid"))
    cases = fast + slow + loops
    drv = vlib.driver("d_phase")
    work = [dg.concrete(ck.rng, c) for c in cases]
    outs = vlib.run_driver(drv, work, jobs=vlib.NPROC, timeout=700)
    for c, w, o in zip(cases, work, outs):
        ck.traces += 1
        bad = dg.judge_tracing(c, w, o)
        if bad:
            ck.violation("mode %d over [%s,%s]: %s" % (w["mode"], w["Tlow"], w["Thigh"], bad),
                         {"abstract": c, "case": w, "observed": o})
    cub = [(c, dg.cubic_of(ck.rng, c)) for c in fast + slow]
    cub = [x for x in cub if x[1]]
    outs = vlib.run_driver(drv, [x[1][0] for x in cub], jobs=vlib.NPROC, timeout=700)
    for (c, (w, T0, T1, Tc)), o in zip(cub, outs):
        ck.traces += 1
        bad = dg.judge_cubic(c, w, T0, T1, Tc, o)
        if bad:
            ck.violation("thermal cubic, mode %d: %s" % (w["mode"], bad), {"case": w, "T0": T0, "T1": T1, "Tc": Tc, "observed": o})
    # the list of phases as a state machine of its own
    rcs = [(c, 4) for c in ck.spec("MC_PhaseRegistry", cfg_text=rg.cfg(TMax=4, Intervals="Iv4", MaxReg=2)).cases]
    deep = ck.spec("MC_PhaseRegistry", cfg_text=rg.cfg(TMax=4, Intervals="Iv4")).cases
    rcs += [(c, 4) for c in deep[::ck.pick(4, 1)]]
    rcs += [(c, 4) for c in ck.spec("MC_PhaseRegistry", cfg_text=rg.cfg(TMax=4, Intervals="Iv4k", Pick="One", MaxReg=5),
                                    simulate=ck.pick(300, 3000), depth=8, seed=ck.seed, workers=1).cases]
    rcs += [(c, 6) for c in ck.spec("MC_PhaseRegistry", cfg_text=rg.cfg(TMax=6, Ops='{"reg","find","overlap","region"}', Wells="{1,2,3}",
                                    Depths="DepAny", MaxReg=6, Intervals="Iv6", Pick="One"), simulate=ck.pick(800, 8000), depth=9,
                                    seed=ck.seed, workers=1).cases]
    work = [rg.concrete(ck.rng, c, tm) for c, tm in rcs]
    outs = vlib.run_driver(drv, work, jobs=vlib.NPROC, timeout=700)
    for (c, tm), w, o in zip(rcs, work, outs):
        ck.traces += 1
        bad = rg.judge(c, w, o)
        if bad:
            ck.violation(bad, {"abstract": c, "case": w, "observed": o})
    stat = {}
    for c in cases:
        k = "mode %d %s" % (c["par"]["mode"], c["status"])
        stat[k] = stat.get(k, 0) + 1
    ck.extra["behaviours_by_mode_and_status"] = stat
    for c in cases[:: max(1, len(cases) // 5)]:
        ck.sample({"wells": c["wells"], "par": c["par"], "expected": [c["status"], c["phases"]]})
    ck.assumptions = ["wells separated by at least 100 GeV in field space, ends at least 2 GeV apart, depths apart by a margin wherever the search looks",
                      "continuity: a phase that ends is not the deepest where it ends"]
