"""P03: logging switches."""
import p02
import vlib

ALL = '{"level","map","disable","vector","parser","stream"}'


def cfg(steps, lst, kinds, lv, vals, pick="All"):
    return ('SPECIFICATION Spec\nCONSTANTS\n MaxSteps = %d\n MaxList = %d\n Steps = %s\n OptLevels <- %s\n'
            ' OptValues <- %s\n Pick <- %s\nINVARIANTS TypeOK OnlyNamed MinimizerSeparate Emit\nCHECK_DEADLOCK FALSE\n'
            % (steps, lst, kinds, lv, vals, pick))


def run(ck):
    cases = ck.spec("MC_Logger", cfg_text=cfg(1, 2, '{"vector","parser"}', "LvAll", "VTF")).cases
    cases += ck.spec("MC_Logger", cfg_text=cfg(1, 1, ALL, "LvAll", "VOdd")).cases
    cases += ck.spec("MC_Logger", cfg_text=cfg(2, 1, ALL, "LvThree", "VTF")).cases
    cases += ck.spec("MC_Logger", cfg_text=cfg(ck.pick(4, 6), 3, ALL, "LvFive", "VTF", "One"),
                     simulate=ck.pick(3000, 30000), depth=8, seed=ck.seed, workers=1).cases
    drv = vlib.driver("d_config")
    for k, c in enumerate(cases):
        c["what"] = "logger"
        c["status"] = k % 4 == 0      # status queries between the steps
    # initial state: fresh processes that never reset the logger
    fresh = [dict(c, fresh=True) for c in cases[:: max(1, len(cases) // 12)]]
    outs = vlib.run_driver(drv, cases, jobs=vlib.NPROC)
    outs += [vlib.run_driver(drv, [c])[0] for c in fresh]
    for c, o in zip(cases + fresh, outs):
        ck.traces += 1
        bad = p02.judge_logger(c, o)
        if bad:
            ck.violation(bad, {"case": c, "observed": o})
    for c in cases[:: max(1, len(cases) // 5)]:
        ck.sample({"ctor": c["ctor"], "steps": [(s["op"], s["arg"], s["stream"]) for s in c["steps"]]})
    ck.assumptions = ["one probe message per level after every step observes the logger's state completely"]
