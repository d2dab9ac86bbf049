"""P12: multi-start minimisation under every schedule."""
import vlib

CFG = """SPECIFICATION Spec
CONSTANTS
 Workers = {%s}
 N = %d
 MaxSol = %d
 Depths = {1, 2}
 Record = %s
 Pick <- %s
INVARIANTS AtMostOnce NothingLost StopsRight Overshoot DeepestFound Emit
%sCHECK_DEADLOCK FALSE
"""


def cfg(nw, n, ms, rec, pick="All", live=False):
    return CFG % (",".join(map(str, range(1, nw + 1))), n, ms, "TRUE" if rec else "FALSE", pick, "PROPERTY Terminates\n" if live else "")


def potential(rng):
    dim = rng.choice([1, 2, 2, 3, 4])
    ws = [{"c": [rng.uniform(-300, 300) for _ in range(dim)], "vel": [0.0] * dim, "lo": -1, "hi": 1e4, "a": rng.uniform(-5000, 0), "b": 0}
          for _ in range(rng.randint(1, 4))]
    order = list(range(dim + rng.choice([0, 0, 1])))
    return {"wells": ws, "tree": [0.0] * dim, "k": 0.5, "nH": len(order), "order": sorted(rng.sample(order, dim)),
            "ew": [rng.randint(0, 1) for _ in order], "T": rng.choice([0.0, 20.0])}


def trace(c, o):
    """Observation -> trace for MultiTrace.tla."""
    n = o["probe"]["n"]
    ds = sorted({d for _, d in o["depth"]})
    rank = {d: i + 1 for i, d in enumerate(ds)}
    depth = [0] * n
    for i, d in o["depth"]:
        depth[i - 1] = rank[d]
    seq = not c.get("threads", True)
    ev = [{"e": "take" if t else "end", "w": 1 if seq else w, "i": i, "ok": bool(ok)} for t, w, i, ok in o["ev"]]
    rows = o["rows"] if o["rows"] is not None else [e["i"] for e in ev if e["ok"]]
    # at most as many workers as were allowed to run
    return {"workers": max([o["workers"]] + [e["w"] for e in ev]), "n": n, "maxsol": c["maxsol"], "ev": ev, "rows": rows,
            "depth": depth, "ret": o["ret"], "success": o["success"], "faithful": o["faithful"] and o["dim"] in (0, len(c["tree"]))}


def run(ck):
    ck.spec("MC_MultiStart", cfg_text=cfg(3, ck.pick(3, 4), 2, False, live=True), workers=4)
    ck.spec("MC_MultiStart", cfg_text=cfg(ck.pick(3, 4), 5, 3, False))
    beh = []
    for nw, n, ms in [(2, 1, 1), (2, 2, 1), (2, 2, 2)]:
        beh += ck.spec("MC_MultiStart", cfg_text=cfg(nw, n, ms, True)).cases
    for nw, n, ms in [(2, 3, 2), (3, 2, 1), (3, 3, 2), (3, 4, 3), (4, 3, 9)]:
        beh += ck.spec("MC_MultiStart", cfg_text=cfg(nw, n, ms, True, "One"), simulate=ck.pick(150, 1500), depth=60, seed=ck.seed, workers=1).cases
    rng = ck.rng
    rng.shuffle(beh)
    beh = beh[:ck.pick(700, 8000)]
    # every behaviour decides which starts fail and who moves when: on the last starts of the pool ...
    groups = {}
    for b in beh:
        c = dict(potential(rng), cmd="multi", seed=rng.randint(0, 10 ** 6), maxsol=b["maxsol"], outcomes="tail", tail=b["out"], sched=b["sched"],
                 policy=rng.choice([0, 1]), rnd=rng.randint(1, 10 ** 9))
        groups.setdefault(b["nw"], []).append(c)
    # ... and on whole searches
    for i in range(ck.pick(160, 2000)):
        c = dict(potential(rng), cmd="multi", seed=rng.randint(0, 10 ** 6), maxsol=rng.choice([1, 2, 5, 20, 50, 700]), policy=rng.choice([0, 1, 1]),
                 rnd=rng.randint(1, 10 ** 9), threads=rng.random() < 0.8)
        if rng.random() < 0.5:
            c.update(outcomes="mod", mod=rng.choice([2, 5, 50]))
        if c["maxsol"] == 700 and not c.get("mod"):
            c["maxsol"] = 10
        c["api"] = rng.choice(["save", "save", "max"])
        if rng.random() < 0.1:
            c["api"], c["maxsol"] = "default", 20
        groups.setdefault(rng.choice([1, 2, 3, 5, 8]), []).append(c)
    drv = vlib.driver("d_multi")
    work, outs = [], []
    for nw, cs in sorted(groups.items()):
        work += cs
        outs += vlib.run_driver(drv, cs, env={"DRV_CPUS": str(nw)}, jobs=vlib.NPROC, timeout=600)
    # free-running workers; the assumption that the steps are atomic is checked with the thread sanitizer
    ts = vlib.driver("d_multits")
    free = []
    for i in range(ck.pick(24, 240)):
        c = dict(potential(rng), cmd="multi", seed=rng.randint(0, 10 ** 6), maxsol=rng.choice([2, 20, 700]), free=True, api="save")
        if c["maxsol"] == 700 or rng.random() < 0.5:
            c.update(outcomes="mod", mod=rng.choice([5, 50]))
        free.append(c)
    fouts = vlib.run_driver(ts, free, env={"DRV_CPUS": "4", "TSAN_OPTIONS": "halt_on_error=1"}, jobs=4, timeout=600)
    traces, idx = [], []
    for n, (c, o) in enumerate(zip(work + free, outs + fouts)):
        ck.traces += 1
        if "crash" in o or "exception" in o:
            ck.violation("search with %s failed: %s" % ({k: c.get(k) for k in ("maxsol", "outcomes", "tail", "sched", "threads", "free")}, str(o)[-500:]),
                         {"case": c, "observed": o})
            continue
        p = o["probe"]
        if p["success"] or p["rows"] or o["distinct"] != p["n"] or o["reach"] > 500 or p["n"] < 1:
            ck.violation("search in which every start fails: %s" % {k: o[k] for k in ("probe", "distinct", "reach")}, {"case": c, "observed": o})
            continue
        traces.append(trace(c, o))
        idx.append(n)
    bad = vlib.trace_check(ck, "MultiTrace", traces, "SPECIFICATION Spec\nINVARIANT Report\nCHECK_DEADLOCK FALSE\n", chunk=400)
    allw, allo = work + free, outs + fouts
    for b in bad:
        c, o = allw[idx[b["trace"]]], allo[idx[b["trace"]]]
        ck.violation("recorded search is no behaviour of the specification at step %d %s: %s" % (
            b["step"], b["ev"], [k for k, v in b["clauses"].items() if not v]), {"case": c, "observed": o})
    ck.extra["events_validated"] = sum(len(t["ev"]) for t in traces)
    ck.extra["free_running_runs_under_thread_sanitizer"] = len(free)
    for b in beh[:6]:
        ck.sample(b)
    ck.assumptions = ["schedules are controlled at the locks, at the start and at the end of each local minimisation; between these points the "
                      "absence of data races is checked on free-running workers with the thread sanitizer"]
