"""P04: configurations of the nine programs; the specification says which are
complete and valid and what they mean, the real programs are run with them."""
import json
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
import points
import vlib

PROGRAMS = ["BSMPT", "NLOVEV", "CalcCT", "TripleHiggsNLO", "VEVEVO", "PotPlotter", "CalcTemps", "CalcGW", "MinimaTracer"]
STUBBED = ["BSMPT", "NLOVEV", "VEVEVO", "CalcTemps", "CalcGW", "MinimaTracer"]
ANA = PROGRAMS[6:]
CFG = """SPECIFICATION Spec
CONSTANTS
 Programs = {%s}
 MaxDev = %d
 Pick <- %s
INVARIANTS %s
%sCHECK_DEADLOCK FALSE
"""


def cfg(progs=PROGRAMS, dev=1, pick="All", inv="Exactly Consistent Emit", prop=""):
    return CFG % (", ".join('"%s"' % p for p in progs), dev, pick, inv, prop)


TARGET = dict({p: p for p in PROGRAMS}, TripleHiggsNLO="TripleHiggsCouplingsNLO")


def exe(p):
    return os.path.join(vlib.build_dir(), "d_" + p.lower()) if p in STUBBED else vlib.prog_path(TARGET[p])


def build():
    vlib.build(["d_" + p.lower() for p in STUBBED] + [TARGET[p] for p in PROGRAMS if p not in STUBBED])


PAIR = {"f": 0, "t": 1, "lo": 10.0, "hi": 200.0, "crit": "success", "Tc": 150.5, "bounce": "success", "alpha": 0.3,
        "vw": 0.62, "beta": 80.0, "nucl_approx": 140.25, "nucl": 139.5, "perc": 130.75, "compl": 120.125}


def scenario(lines, index, log):
    return {"log": log, "points": [
        {"par": [float(x) for x in l.split("\t")[1 if index else 0:]], "nlo": True, "ewsr": 3, "tracing": "success",
         "coex": "success", "phases": [{"T": [10.0, 20.0, 150.0]}, {"T": [5.0, 6.0]}],
         "pairs": [dict(PAIR, perc=130.75 + i)]} for i, l in enumerate(lines)]}


def table(m):
    rng = __import__("random").Random(17)
    return [points.line(m, rng, 0.02, i + 1) for i in range(3)]


LINES = {m: table(m) for m in ("cxsm", "r2hdm")}


def settings(case, d):
    """Key/value pairs of a configuration, in the order of the groups."""
    out = []
    for g in sorted(case["cfg"]):
        for s in case["cfg"][g].split():
            k, v = s.split("=", 1)
            if v.startswith("@"):
                v = d + "/" + v[1:]
            out.append((k, v))
    return out


def position(case, kv):
    d = dict(kv)
    names = ["model", "input", "output"]
    names += ["line", "temperaturestart", "temperaturestep", "temperatureend"] if case["prog"] == "VEVEVO" \
        else ["firstline", "lastline"]
    return [d[n] for n in names]


def execute(case, forms_rng):
    d = tempfile.mkdtemp(prefix="cli-")
    try:
        os.mkdir(d + "/sub")
        m = case["meaning"]["model"] or "cxsm"
        lines = LINES[m]
        open(d + "/table", "w").write("\n".join([points.legend(m)] + lines) + "\n")
        log = d + "/calls"
        open(log, "w").close()
        json.dump(scenario(lines, points.DATA[m]["index"], log), open(d + "/scenario", "w"))
        kv = settings(case, d)
        if case["form"] == "options":
            args = ["--%s=%s" % x for x in kv]
            forms_rng.shuffle(args)
        elif case["form"] == "file":
            json.dump(dict(kv), open(d + "/conf.json", "w"))
            args = ["--json=" + d + "/conf.json"]
        else:
            args = position(case, kv)
            if case["form"] == "cut":
                args = args[:forms_rng.randrange(len(args))]
        try:
            r = subprocess.run([exe(case["prog"])] + args, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace", timeout=60,
                               env=dict(os.environ, STUB_SCENARIO=d + "/scenario", STUB_LOG=log))
            code, msg = r.returncode, r.stdout[-300:]
        except subprocess.TimeoutExpired:
            code, msg = "timeout", ""
        files = {}
        for sub in ("", "sub/"):
            for f in sorted(os.listdir(d + "/" + sub)):
                if f.startswith("out"):
                    files[f] = [l.split("\t") for l in open(d + "/" + sub + f).read().split("\n")[:-1]]
        calls = [json.loads(l) for l in open(log)]
        return {"args": [a.replace(d, "@") for a in args], "code": code, "msg": msg, "files": files, "calls": calls}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def column(t, name):
    k = t[0].index(name)
    return [r[k] for r in t[1:]]


def num(x):
    return float(x)


def which_calls(res, name):
    return [c["args"] for c in res["calls"] if c["call"] == name]


def accepted(case, res):
    """Complaints about a run that has to succeed."""
    p, m = case["prog"], case["meaning"]
    if res["code"] != 0:
        return ["complete and valid options are refused (exit %s)" % res["code"]]
    bad = []

    def want(what, got, exp):
        if got != exp:
            bad.append("%s: %s instead of %s" % (what, str(got)[:120], str(exp)[:120]))
    f = res["files"]
    lines = LINES[m["model"]]
    if "lines" in m:
        wanted = [lines[int(k) - 2].split("\t") for k in m["lines"]]
        n = len(wanted[0])
        if p == "MinimaTracer":
            got = [f.get("out_%d.tsv" % (k + 1), [[], []]) for k in range(len(wanted))]
            want("rows of the files", [r[:n] for t in got for r in t[1:]], [w for w in wanted for _ in range(3)])
            want("number of files", len(f), len(wanted))
            tabs = got
        else:
            t = f.get("out", [[]])
            want("rows", [r[:n] for r in t[1:]], wanted)
            tabs = [t]
    else:
        tabs = [f.get("out", [[]])]
    if bad:
        return bad
    if p == "VEVEVO":
        want("temperatures", [num(x) for x in column(tabs[0], "T")], [float(x) for x in m["window"].split()])
    if p == "PotPlotter":
        ts = {num(x) for x in column(tabs[0], "T")}
        want("temperature", ts, {float(m["temperature"])})
        rows = len(tabs[0]) - 1
        if m["slice"] != "off":
            want("number of points of the slice", rows, int(m["slice"][2:]) + 1)
        else:
            pt = [float(x) for x in m["point"].split(",")]
            ks = [k for k, c in enumerate(tabs[0][0]) if c.endswith("_point")]
            want("reference point", {tuple(num(r[k]) for k in ks) for r in tabs[0][1:]}, {tuple(pt)})
            if rows < 1:
                bad.append("no rows")
    if p in ("BSMPT", "NLOVEV", "VEVEVO"):
        ask = [int(m["minimisers"]), m["threads"] == "true"]
        want("minimisers and threads", [[int(c["args"][-2]), bool(c["args"][-1])] for c in res["calls"]],
             [ask] * len(res["calls"]))
        if not res["calls"]:
            bad.append("nothing minimised")
    if p in ANA:
        k = len(m["lines"])
        want("minimisers and threads", which_calls(res, "tracer"), [[int(m["minimisers"]), m["threads"] == "true"]] * k)
        want("symmetry check", bool(which_calls(res, "ewsr")), m["ewsr"] != "off")
        want("status of the symmetry check", {x for t in tabs for x in column(t, "status_ewsr")},
             {"off" if m["ewsr"] == "off" else "ew_sym_res"})
        want("tracing", which_calls(res, "trace"),
             [[0, float(m["thigh"]), int(m["mode"]), int(m["num_pts"]), p == "MinimaTracer"]] * k)
    if p in ("CalcTemps", "CalcGW"):
        want("bounce", which_calls(res, "bounce"),
             [[0, float(m["vwall"]), float(m.get("epsturb", "0.1")), int(m["maxpath"])]] * k)
        want("percolation", which_calls(res, "perc"), [[0, float(m["perc"])]] * k)
        want("completion", which_calls(res, "compl"), [[0, float(m["compl"])]] * k)
        want("status of the stability check", set(column(tabs[0], "status_nlo_stability")),
             {"off" if m["nlo"] == "off" else "success"})
    if p == "CalcGW":
        want("temperature of the waves", [num(x) for x in column(tabs[0], "trans_temp_0")],
             [PAIR[m["trans_temp"]] + (int(l) - 2 if m["trans_temp"] == "perc" else 0) for l in m["lines"]])
    return bad


def refused(case, res):
    bad = []
    if not (isinstance(res["code"], int) and res["code"] > 0):
        bad.append("a configuration to be refused (%s) ends with %s" % (case["stage"], res["code"]))
    rows = sum(len(t) - 1 for t in res["files"].values() if t)
    if rows > 0:
        bad.append("%d result rows from a configuration to be refused (%s)" % (rows, case["stage"]))
    # the output is opened once there is something to write
    if res["calls"] and case["stage"] != "open":
        bad.append("a configuration to be refused (%s) is passed on to a run" % case["stage"])
    return bad


def content(res):
    """Output files without the columns of measured times."""
    out = []
    for f, t in sorted(res["files"].items()):
        skip = [k for k, c in enumerate(t[0]) if c == "runtime"] if t else []
        out.append([f, [[x for k, x in enumerate(r) if k not in skip] for r in t]])
    return out


def run_all(ck, cases):
    import random
    with ThreadPoolExecutor(vlib.NPROC) as ex:
        results = list(ex.map(lambda ic: execute(ic[1], random.Random(ck.seed * 7919 + ic[0])), enumerate(cases)))
    same = {}
    tally = {}
    for case, res in zip(cases, results):
        ck.traces += 1
        key = case["prog"] + (" accepted" if case["ok"] else " refused")
        tally[key] = tally.get(key, 0) + 1
        bad = accepted(case, res) if case["ok"] else refused(case, res)
        detail = {"program": case["prog"], "arguments": res["args"], "expected": "success" if case["ok"] else case["stage"],
                  "meaning": case["meaning"], "code": res["code"], "message": res["msg"]}
        for b in bad:
            ck.violation("%s: %s" % (case["prog"], b), detail)
        if case["ok"] and not bad:
            k = (case["prog"], json.dumps(case["meaning"], sort_keys=True))
            c = content(res)
            if k in same and same[k][0] != c:
                ck.violation("%s: two spellings of the same configuration give different output" % case["prog"],
                             dict(detail, other=same[k][1]))
            same.setdefault(k, (c, res["args"]))
        if case["ok"] == (len(ck.samples) % 2 == 0):
            ck.sample(detail)
    ck.extra["configurations"] = tally


def run(ck):
    build()
    r = ck.spec("MC_Program", cfg_text=cfg(prop="PROPERTIES Ends\n"))
    cases = r.cases
    if ck.thorough:
        ck.spec("MC_Program", cfg_text=cfg(dev=2, inv="Exactly"), timeout=1500)
    n = ck.pick(220, 4000)
    drawn = ck.specs([dict(module="MC_Program", cfg_text=cfg(progs=[p], dev=k, pick="One", inv="Exactly Emit"),
                           simulate=n // 4, depth=60, seed=ck.seed * 100 + i + 10 * k)
                      for i, p in enumerate(PROGRAMS) for k in ((2, 3) if not ck.thorough else (2, 3, 4, 5))])
    run_all(ck, cases + drawn)
    ck.assumptions += ["global minimisation, tracing and bounce are replaced by scripted stand-ins that record how they are asked",
                       "numbers with trailing text (\"2x\") are not judged"]

