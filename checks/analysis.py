"""Tables of the transition analysis (CalcTemps, CalcGW) with a scripted
environment: runs a table of points whose outcomes the specification chose, and
compares every cell and every call with what the specification says."""
import json
import os
import re
import subprocess
import tempfile
import points
import vlib

CFG = """SPECIFICATION Spec
CONSTANTS
 Points = %(points)d
 NloChecks = {%(nlo)s}
 EwsrChecks = {%(ewsr)s}
 GwChoices = {%(gw)s}
 Chosen = {%(chosen)s}
 EwsrAnswers <- Answers
 TraceAnswers <- Traces
 MaxPhase = %(phases)d
 MaxPairs = %(pairs)d
 Levels = %(levels)d
 CritAnswers = {"success", "true_lower", "false_lower", "failure"}
 Pick <- %(pick)s
INVARIANTS %(inv)s
%(prop)sCHECK_DEADLOCK FALSE
"""
NV = {"sm": 1, "cxsm": 3, "r2hdm": 4, "c2hdm": 4, "n2hdm": 5, "cpinthedark": 5}
KINDS = ["nucl_approx", "nucl", "perc", "compl"]
FIELD = {"nucl_approx": "appr", "nucl": "nucl", "perc": "perc", "compl": "compl"}
GWCOLS = ["trans_temp", "v_wall", "alpha_PT", "beta/H", "K_sw", "fpeak_sw", "h2OmegaPeak_sw", "SNR(LISA-3yrs)_sw",
          "K_turb", "fpeak_turb", "h2OmegaPeak_turb", "SNR(LISA-3yrs)_turb", "SNR(LISA-3yrs)"]
EXE = {"CalcTemps": "d_calctemps", "CalcGW": "d_calcgw", "MinimaTracer": "d_minimatracer"}
CHOICE = {1: "nucl_approx", 2: "nucl", 3: "perc", 4: "compl"}


def cfg(**kw):
    d = dict(points=1, nlo="TRUE, FALSE", ewsr="0, 1, 2, 3", gw="TRUE, FALSE", chosen="1, 2, 3, 4",
             phases=3, pairs=2, levels=2, pick="All", inv="Gated Chain", prop="")
    d.update(kw)
    return CFG % d


def specs(ck):
    """The stage machine itself: exhaustive for small points; behaviours for the
    replay: chains exhaustively, the rest drawn with a lean towards late stages."""
    ck.spec("MC_Analysis", cfg_text=cfg(phases=ck.pick(2, 3), pairs=ck.pick(1, 2), nlo=ck.pick("TRUE, FALSE", "TRUE"),
                                        chosen=ck.pick("1, 2, 3, 4", "1, 3"), prop="PROPERTIES Terminates\n"),
            timeout=1500)


def drawn(ck, n, **kw):
    a = dict(points=4, phases=4, pairs=4, levels=4, pick="Lean", inv="Emit")
    a.update(kw)
    runs = [dict(module="MC_Analysis", cfg_text=cfg(**a), simulate=n, depth=400, seed=ck.seed * 100 + i)
            for i in range(4)]
    return ck.specs(runs)


def chains(ck):
    """Every set of pairs over few phases with every order of completion."""
    r = ck.spec("MC_Analysis", cfg_text=cfg(nlo="FALSE", ewsr="0", gw="FALSE", phases=4,
                                            pairs=ck.pick(3, 5), levels=ck.pick(3, 3), pick="Chains",
                                            inv="Gated Chain Emit", chosen="3"), timeout=1200)
    return r.cases


def at(i, T, n):
    return [1000 * (i + 1) + 100 * k + T / 8 for k in range(n)]


def temps(pair, i):
    """Concrete temperatures of a pair: distinct, exact in binary."""
    out = {"crit": 210.0 + 0.5 * i if pair["crit"] in ("success", "true_lower") else None}
    base = {"nucl_approx": 190.0, "nucl": 185.5, "perc": 170.25}
    for k in KINDS[:3]:
        out[k] = base[k] + 0.125 * i if pair[FIELD[k]] > 0 else None
    out["compl"] = 40.0 + 16.0 * pair["compl"] + i / 64.0 if pair["compl"] > 0 else None
    return out


def script(row, opts, par, rng):
    """Answers of the environment.  Stages the specification does not reach
    would succeed if they were."""
    rep = row["rep"]
    names = {"ew_sym_res": 3, "ew_sym_non_res": 2, "flat_region": 1, "failure": 0, "non_bfb": -1}
    s = {"par": par, "nlo": rep["nlo"] != "no_nlo_stability" and (rep["nlo"] == "success" or rng.random() < 0.5),
         "ewsr": names.get(rep["ewsr"], rng.choice([-1, 0, 1, 2, 3]) if rep["ewsr"] == "off" else 3),
         "tracing": rep["tracing"] if rep["tracing"] != "not_set" else "success",
         "coex": rep["coex"] if rep["coex"] != "not_set" or rep["tracing"] != "not_set" else "success"}
    pairs = row["pairs"]
    if not pairs and rep["coex"] != "no_coex_pair":
        # what a wrongly continued analysis would find
        pairs = [{"f": 0, "t": 1, "crit": "success", "bounce": "success", "appr": 1, "nucl": 1, "perc": 1,
                  "compl": 1, "gw": "success"}]
    nph = 1 + max([p["t"] for p in pairs] + [0])
    s["phases"] = [{"T": [10.0 * k, 10.0 * k + 5, 10.0 * k + 6]} for k in range(nph)]
    s["pairs"] = []
    for i, p in enumerate(pairs):
        t = temps(p, i)
        q = {"f": p["f"], "t": p["t"], "lo": 1.0 + i, "hi": 250.0 - i, "crit": p["crit"],
             "Tc": t["crit"] if t["crit"] is not None else (-2 if p["crit"] == "failure" else -1),
             "bounce": p["bounce"] if p["bounce"] != "not_set" else "success",
             "alpha": rng.choice([0.05, 0.3, 1.1]), "vw": 0.62,
             "beta": 0.5 if p["gw"] == "failure" else rng.choice([1.5, 80.0, 3000.0])}
        reached = p["bounce"] == "success"
        full = temps({"crit": "success", "appr": 1, "nucl": 1, "perc": 1, "compl": 3}, i)
        for k in KINDS:
            q[k] = t[k] if reached else full[k]
        s["pairs"].append(q)
    return s


def run(prog, model, opts, rows, rng, extra=None, keep_lines=None, scripts=None, script=None):
    """One run over a table with the given rows; returns code, legend, cells, calls, scripts, lines."""
    d = tempfile.mkdtemp(prefix="ana-")
    try:
        lines = keep_lines or [points.line(model, rng, 0.05, i + 1) for i in range(len(rows))]
        k0 = 1 if points.DATA[model]["index"] else 0
        par = [[float(x) for x in l.split("\t")[k0:]] for l in lines]
        sc = scripts or [(script or globals()["script"])(r, opts, p, rng) for r, p in zip(rows, par)]
        inp, out = os.path.join(d, "in.tsv"), os.path.join(d, "out.tsv")
        open(inp, "w").write("\n".join([points.legend(model)] + lines) + "\n")
        log = os.path.join(d, "calls")
        open(log, "w").close()
        json.dump({"log": log, "points": sc}, open(os.path.join(d, "scenario"), "w"))
        o = {"model": model, "input": inp, "output": out, "firstline": 2, "lastline": len(rows) + 1,
             "checknlo": "on" if opts["nlo"] else "off",
             "checkewsr": ["off", "on", "keep_bfb", "keep_ewsr"][opts["ewsr"]]}
        if opts["gw"]:
            o["trans_temp"] = CHOICE[opts["chosen"]]
        o.update(extra or {})
        try:
            r = subprocess.run([os.path.join(vlib.build_dir(), EXE[prog])] + ["--%s=%s" % kv for kv in o.items() if kv[1] is not None],
                               env=dict(os.environ, STUB_SCENARIO=os.path.join(d, "scenario")),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
            code, msg = r.returncode, r.stdout[-400:]
        except subprocess.TimeoutExpired:
            code, msg = "timeout", ""
        if prog == "MinimaTracer":
            table = []
            for k in range(len(rows)):
                p = "%s_%d.tsv" % (out, k + 1)
                table.append([l.split("\t") for l in open(p).read().split("\n")[:-1]] if os.path.exists(p) else None)
        else:
            table = [l.split("\t") for l in open(out).read().split("\n")[:-1]] if os.path.exists(out) else []
        calls = [json.loads(l) for l in open(log)]
        return {"code": code, "msg": msg, "table": table, "calls": calls, "scripts": sc, "lines": lines,
                "options": {k: v for k, v in o.items() if k not in ("input", "output")}}
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def history(row):
    h = row["hist"]
    if not h:
        return None
    return str(h[0]["phase"]) + "".join("-(%d)->%d" % (x["pair"], x["phase"]) for x in h[1:])


def expected(row, opts, model, sc, o):
    """Name of a column -> what must stand there: a string, a number, None for
    'no value', or 'any' for a finite number."""
    rep = row["rep"]
    e = {"status_nlo_stability": rep["nlo"], "status_ewsr": rep["ewsr"], "status_tracing": rep["tracing"],
         "status_coex_pairs": rep["coex"], "runtime": "any"}
    for i, p in enumerate(row["pairs"]):
        t = temps(p, i)
        e["status_crit_%d" % i] = p["crit"]
        e["status_bounce_sol_%d" % i] = p["bounce"]
        for k in ["crit"] + KINDS:
            e["T_%s_%d" % (k, i)] = t[k]
            e[("vev", k, "false", i)] = (p["f"], t[k])
            e[("vev", k, "true", i)] = (p["t"], t[k])
            if k != "crit":
                v = p[FIELD[k]]
                e["status_%s_%d" % (k, i)] = "nan" if v < 0 else "not_met" if v == 0 else "success"
        if opts["gw"]:
            q = sc["pairs"][i]
            e["status_gw_%d" % i] = p["gw"]
            for c in GWCOLS:
                e["%s_%d" % (c, i)] = None
            if p["gw"] != "not_set":
                vw = float(o.get("vwall", 0.95))
                e["trans_temp_%d" % i] = t[CHOICE[opts["chosen"]]]
                e["v_wall_%d" % i] = q["vw"] if vw < 0 else vw
                e["alpha_PT_%d" % i] = q["alpha"]
                e["beta/H_%d" % i] = q["beta"]
                if p["gw"] == "success":
                    for c in GWCOLS[4:]:
                        e["%s_%d" % (c, i)] = "any"
    return e


def num(s):
    try:
        return float(s)
    except ValueError:
        return None


def judge_row(legend, cells, row, opts, model, sc, o):
    """List of (kind, text) of disagreements; kind is shape, status, value, cell or history."""
    bad = []
    if len(cells) != len(legend):
        return [("shape", "the row has %d cells, the legend %d names" % (len(cells), len(legend)))]
    if len(set(legend)) != len(legend):
        bad.append(("shape", "names of columns repeat: %s" % sorted({x for x in legend if legend.count(x) > 1})))
    got = dict(zip(legend, cells))
    exp = expected(row, opts, model, sc, o)
    vev = {}
    for name, c in zip(legend, cells):
        m = re.match(r"(.+)_(crit|nucl_approx|nucl|perc|compl)_(false|true)_(\d+)$", name)
        if m:
            vev.setdefault((m.group(2), m.group(3), int(m.group(4))), []).append((m.group(1), c))
    names0 = [x[0] for x in vev.get(("crit", "false", 0), [])]
    for key, want in exp.items():
        if isinstance(key, tuple):
            _, k, ft, i = key
            v = vev.get((k, ft, i))
            if v is None or [x[0] for x in v] != names0 or len(v) != NV[model]:
                bad.append(("shape", "columns of the %s vacuum at %s of pair %d: %s" % (ft, k, i, v and [x[0] for x in v])))
                continue
            w = [None] * len(v) if want[1] is None else at(want[0], want[1], len(v))
            for (n, c), x in zip(v, w):
                if (x is None) != (c == "nan") or (x is not None and not vlib.close(num(c), x, 1e-12)):
                    bad.append(("value", "%s_%s_%s_%d is %s, expected %s" % (n, k, ft, i, c, "nan" if x is None else x)))
            continue
        if key not in got:
            bad.append(("shape", "no column %s" % key))
            continue
        c = got[key]
        if key.startswith("status_"):
            if c != want and not (want == "ew_sym_non_res" and re.match("ew_syu?m_non_res$", c)):
                bad.append(("status", "%s is %s, expected %s" % (key, c, want)))
        elif want is None:
            if c != "nan":
                bad.append(("value", "%s is %s though there is none" % (key, c)))
        elif want == "any":
            if num(c) is None or num(c) != num(c) or abs(num(c)) == float("inf"):
                bad.append(("value", "%s is %s, expected a number" % (key, c)))
        elif not vlib.close(num(c), want, 1e-12):
            bad.append(("value", "%s is %s, expected %s" % (key, c, want)))
    # columns of pairs the point does not have
    n = len(row["pairs"])
    for name, c in got.items():
        m = re.search(r"_(\d+)$", name)
        if m and re.match(r"(status_|T_|.*_(false|true)_|(trans_temp|v_wall|alpha_PT|beta/H|K_|fpeak|h2Omega|SNR).*)", name):
            if int(m.group(1)) >= n and c != "nan" and name not in points.legend(model).split("\t"):
                bad.append(("cell", "%s is %s, but the point has %d pair(s)" % (name, c, n)))
    h = history(row)
    if "transition_history" not in got:
        bad.append(("shape", "no column transition_history"))
    elif h is not None and got["transition_history"] != h:
        bad.append(("history", "history %s, expected %s" % (got["transition_history"], h)))
    elif h is None and re.match(r"\d", got["transition_history"]):
        bad.append(("history", "history %s for a point without pairs" % got["transition_history"]))
    return bad


def expected_calls(rows, opts, o):
    """Set of stages entered, per point and pair."""
    out = set()
    for k, r in enumerate(rows):
        rep = r["rep"]
        if opts["nlo"]:
            out.add((k, "nlo"))
        if rep["ewsr"] not in ("not_set", "off"):
            out.add((k, "ewsr"))
        if rep["tracing"] != "not_set":
            out.add((k, "trace"))
        for i, p in enumerate(r["pairs"]):
            if p["bounce"] != "not_set":
                out.add((k, "bounce", i))
            if p["bounce"] == "success":
                for s in KINDS:
                    out.add((k, s, i))
            if p["gw"] != "not_set":
                out.add((k, "strength", i))
    return out


def judge_calls(res, rows, opts, o):
    bad = []
    got = set()
    for c in res["calls"]:
        a, k = c["args"], c["point"]
        if c["call"] in ("nlo", "ewsr"):
            got.add((k, c["call"]))
        elif c["call"] == "trace":
            got.add((k, "trace"))
            want = [0.0, float(o.get("thigh", 300)), {"default": -1, "auto": 3}.get(o.get("multistepmode", "default"), None)
                    if not str(o.get("multistepmode", "default")).isdigit() else int(o["multistepmode"]), int(o.get("num_pts", 10))]
            if a[:4] != want:
                bad.append(("option", "tracing was given %s, the options say %s" % (a[:4], want)))
        elif c["call"] in KINDS + ["bounce", "strength"]:
            got.add((k, c["call"], a[0]))
            want = None
            if c["call"] == "perc":
                want = [a[0], float(o.get("perc_prbl", 0.71))]
            elif c["call"] == "compl":
                want = [a[0], float(o.get("compl_prbl", 0.01))]
            elif c["call"] == "bounce":
                want = [a[0], float(o.get("vwall", 0.95)), float(o.get("epsturb", 0.1)), int(o.get("maxpathintegrations", 7))]
            if want and a != want:
                bad.append(("option", "%s was given %s, the options say %s" % (c["call"], a, want)))
    want = expected_calls(rows, opts, o)
    for x in sorted(got - want):
        bad.append(("stage", "point %d: the stage %s was entered" % (x[0], x[1:])))
    for x in sorted(want - got):
        bad.append(("stage", "point %d: the stage %s was not entered" % (x[0], x[1:])))
    return bad
