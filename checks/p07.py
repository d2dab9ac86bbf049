"""P07: a model's predictions depend only on the point it was last given."""
import points
import vlib

CFG = """SPECIFICATION Spec
CONSTANTS
 NObj = %d
 Points = {%s}
 Scales = {1,2}
 MaxOps = %d
 Pick <- %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""


def world(rng, model, npt):
    # the first two points couple down quarks and leptons to different doublets
    kinds = rng.choice([[1, 2], [2, 1], [3, 4], [4, 3]]) + [None]
    return {"model": model, "legend": points.legend(model),
            "lines": [points.line(model, rng if k else None, 0.05, variant=rng.randrange(20) if k else 0, kind=kinds[k]) for k in range(npt)]}


LOADS = ("line", "par", "all")


def items(b):
    """What a history exercises: operations in order since a load, and
    operations before a later load."""
    out = set()
    for i in (1, 2):
        ep, load, old, at = [], None, [], None
        for h in b["hist"]:
            if h["i"] != i:
                continue
            op = h["e"]["op"]
            if op in LOADS:
                out |= {(x, load, op) for x in old[-6:]}
                if at not in (None, h["e"]["p"]):
                    out |= {("points", at, h["e"]["p"])} | {("points", at, h["e"]["p"], k) for k in range(5)}   # worth more
                load, ep, at = op, [], h["e"]["p"]
            else:
                out |= {(load, op)} | {(load, x, op) for x in ep}
                out |= {(load, x, y, op) for k, x in enumerate(ep) for y in ep[k + 1:]}
                ep.append(op)
            old.append(op)
    return out


def cover(rng, beh, n):
    """Up to n histories that together exercise as much as possible."""
    beh = rng.sample(beh, min(len(beh), 60 * n))
    it = [items(b) for b in beh]
    seen, out = set(), []
    while len(out) < n and beh:
        k = max(range(len(beh)), key=lambda j: len(it[j] - seen))
        seen |= it[k]
        out.append(beh.pop(k))
        it.pop(k)
    return out, len(seen)


def run(ck):
    rng = ck.rng
    ck.spec("MC_ModelObject", cfg_text=CFG % (2, "1", 4, "All", "TypeOK Forgets LooksAreFree CanonReaches"))
    ck.spec("MC_ModelObject", cfg_text=CFG % (1, "1,2", 4, "All", "TypeOK Forgets LooksAreFree CanonReaches"))
    work = []
    # loading a point is expensive in the larger models: seconds per history
    load = {"sm": 0.05, "cxsm": 0.3, "r2hdm": 0.6, "c2hdm": 0.7, "n2hdm": 1.2, "cpinthedark": 1.3}
    budget = ck.pick(18.0, 450.0)
    # short histories on one object, exhaustively where affordable
    exh = ck.spec("MC_ModelObject", cfg_text=CFG % (1, "1,2", ck.pick(2, 3), "All", "Emit")).cases
    for m in points.MODELS:
        w = world(rng, m, 2)
        n = int(budget / load[m] / 3)
        work += [dict(b, worlds=[w], each=True) for b in (exh if len(exh) <= n else cover(rng, exh, n)[0])]
    # long histories on two objects used alternately
    beh = ck.spec("MC_ModelObject", cfg_text=CFG % (2, "1,2,3", 9, "One", "Emit"), simulate=ck.pick(1500, 20000), depth=12, seed=ck.seed, workers=1).cases
    pool = {m: [world(rng, m, 3) for _ in range(ck.pick(2, 8))] for m in points.MODELS}
    for m in points.MODELS:
        hs, seen = cover(rng, beh, int(budget / load[m] / 3))
        ck.extra["exercised in " + m] = "%d histories, %d orders of operations" % (len(hs), seen)
        for b in hs:
            names = [m, rng.choice([x for x in points.MODELS if load[x] <= load[m]])]
            rng.shuffle(names)
            work.append(dict(b, worlds=[rng.choice(pool[n]) for n in names], each=True))
    one = ck.spec("MC_ModelObject", cfg_text=CFG % (1, "1,2", 9, "One", "Emit"), simulate=2000, depth=12, seed=ck.seed, workers=1).cases
    for m in points.MODELS:
        hs, seen = cover(rng, one, max(6, int(budget / load[m] / 3)))
        ck.extra["exercised in one object of " + m] = "%d histories, %d orders of operations" % (len(hs), seen)
        work += [dict(b, worlds=[pool[m][0]], each=True) for b in hs]
    work.sort(key=lambda w: str([x["lines"] for x in w["worlds"]]))
    outs = vlib.run_driver(vlib.driver("d_model"), work, jobs=vlib.NPROC, timeout=800)
    refused = 0
    for w, o in zip(work, outs):
        ck.traces += 1
        refused += o.get('refused', False)
        if o.get("bad") != "":
            ck.violation("%s: after step %s of %s: %s" % ([x["model"] for x in w["worlds"]], o.get("step"),
                         [(h["i"], h["e"]["op"], h["e"]["p"]) for h in w["hist"]], o.get("bad", o)), {"case": w, "observed": o})
    for b in beh[:3]:
        ck.sample(b["hist"])
    ck.extra['points refused by new objects as well'] = refused
    ck.assumptions = ["predictions compared to 1e-9 of the largest entry of each quantity"]
