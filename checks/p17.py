"""P17: the chain of phases reported for a point."""
import random
from concurrent.futures import ThreadPoolExecutor
import analysis as A
import vlib


def tables(rows, opts, n):
    return [{"opts": opts, "rows": rows[i:i + n]} for i in range(0, len(rows), n)]


def run(ck):
    A.specs(ck)
    small = A.chains(ck)
    opts = dict(small[0]["opts"])
    rows = [r for c in small for r in c["rows"]]
    ck.rng.shuffle(rows)
    ck.extra["sets of pairs with completion order, exhaustively"] = len(rows)
    cs = tables(rows, opts, 24)
    big = A.drawn(ck, ck.pick(60, 1000), points=6, phases=6, pairs=ck.pick(7, 9), levels=ck.pick(6, 8), pick="Wide",
                  nlo="FALSE", ewsr="0", gw="FALSE", chosen="3")
    rows = [r for c in big for r in c["rows"]]
    cs += tables(rows, opts, 24)
    # and the chain does not depend on the options or on whether waves are computed
    drawn = A.drawn(ck, ck.pick(10, 100), nlo="FALSE", ewsr="0", points=3)
    cs += drawn
    vlib.build(["d_calctemps", "d_calcgw"])

    def one(a):
        i, c = a
        m = "cxsm" if i % 7 == 3 else "sm"
        prog = "CalcGW" if c["opts"]["gw"] else "CalcTemps"
        extra = {}
        if c["opts"]["gw"] and i % 2:
            extra = {"vwall": [0.3, -1, -2][i % 3]}
        res = A.run(prog, m, c["opts"], c["rows"], random.Random(ck.seed * 999 + i), extra=extra)
        bad = []
        if res["code"] != 0 or len(res["table"]) != len(c["rows"]) + 1:
            return [("no table", "%s: %d lines for %d points: %s" % (res["code"], len(res["table"]), len(c["rows"]), res["msg"]), c["rows"])], c
        for row, cells, sc in zip(c["rows"], res["table"][1:], res["scripts"]):
            for kind, text in A.judge_row(res["table"][0], cells, row, c["opts"], m, sc, res["options"]):
                if kind == "history":
                    bad.append(("chain of phases", text, [{k: p[k] for k in ("f", "t", "crit", "bounce", "compl")} for p in row["pairs"]]))
        return bad, c
    with ThreadPoolExecutor(vlib.NPROC) as ex:
        rs = list(ex.map(one, enumerate(cs)))
    n = 0
    longest = 0
    for bad, c in rs:
        n += len(c["rows"])
        longest = max([longest] + [len(r["hist"]) for r in c["rows"]])
        ck.traces += 1
        for what, text, ctx in bad[:4]:
            ck.violation(what, {"text": text, "pairs": ctx, "options": c["opts"]})
    ck.sample({"chain": max((A.history(r) or "" for c in cs for r in c["rows"]), key=len)})
    ck.extra["points"] = n
    ck.extra["phases in the longest chain"] = longest
    ck.assumptions += ["two transitions out of the same phase do not complete at exactly the same temperature",
                       "the temperatures of the transitions are scripted; the chain is the real one"]
