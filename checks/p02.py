"""P02: JSON configuration equals the command line it stands for."""
import copy
import cfgcommon as C
import vlib


def run(ck):
    cases = ck.spec("MC_CliParser", cfg_text=C.cfg_parser(1, 2, ["json"], "SpFull", "VSmall"), timeout=300).cases
    cases += ck.spec("MC_CliParser", cfg_text=C.cfg_parser(1, 1, ["json"], "SpFull", "VFull")).cases
    cases += ck.spec("MC_CliParser", cfg_text=C.cfg_parser(2, 1, ["json", "cli"], "SpSmall", "VTwo")).cases
    cases += ck.spec("MC_CliParser", cfg_text=C.cfg_parser(3, 4, ["json", "cli"], "SpFull", "VFull", pick="One"),
                     simulate=ck.pick(3000, 40000), depth=40, seed=ck.seed, workers=1).cases
    C.run_parser(ck, ["json"], cases)
    # the same configuration through both doors, including the logger
    lev = ck.spec("MC_Logger", cfg_text=open_logger(ck)).cases
    lev = [c for c in lev if all(len({a[0] for a in s["arg"]}) == len(s["arg"]) for s in c["steps"])]
    ck.rng.shuffle(lev)
    lev = lev[: ck.pick(3000, 20000)]
    a, b = [], []
    for c in lev:
        a.append(dict(c, what="logger"))
        d = copy.deepcopy(c)
        for s in d["steps"]:
            s["op"] = "json"
        b.append(dict(d, what="logger"))
    drv = vlib.driver("d_config")
    for c, o in zip(b, vlib.run_driver(drv, b, jobs=vlib.NPROC)):
        ck.traces += 1
        bad = judge_logger(c, o)
        if bad:
            ck.violation(bad, {"case": c, "observed": o})
    ck.assumptions = ["JSON values are strings (the documented format); a key appears once up to letter case"]


def open_logger(ck):
    return ('SPECIFICATION Spec\nCONSTANTS\n MaxSteps = 1\n MaxList = 2\n Steps = {"parser"}\n'
            ' OptLevels <- LvAll\n OptValues <- VTF\n Pick <- All\nINVARIANTS TypeOK OnlyNamed MinimizerSeparate Emit\nCHECK_DEADLOCK FALSE\n')


def judge_logger(case, out):
    if "crash" in out or "exception" in out:
        return "driver: %s" % (out.get("crash") or out.get("exception"))
    rows = [(None, {l: l == "default" for l in out["first"]}, "A", out["first"])]
    rows += [(s, s["on"], s["stream"], o["probe"]) for s, o in zip(case["steps"], out["steps"])]
    for s, o in zip(case["steps"], out["steps"]):
        if o["refused"]:
            return "step %s refused: %s" % (s["op"], o.get("what"))
    for s, on, stream, pr in rows:
        w = "initially" if s is None else "after %s %s" % (s["op"], s["arg"])
        for l, e in on.items():
            for x in "ABF":
                want = 1 if (e and x == stream) else 0
                if pr[l][x] != want:
                    return "%s: message of level %s on stream %s: %r, specified %r" % (w, l, x, pr[l][x], want)
            if pr[l]["st"] is not None and pr[l]["st"] != e:
                return "%s: level %s reported as %s" % (w, l, pr[l]["st"])
    return None
