"""P14: a phase is one curve over one interval."""
import math
import vlib

GRID = [20.0 + 10 * i for i in range(6)]
CFG = ('SPECIFICATION Spec\nCONSTANTS\n Temps = {%s}\n MaxOps = %d\n Kinds = %s\n Starts <- %s\n Pick <- %s\n'
       'INVARIANTS OneMinimumPerTemperature OrderedByTemperature RangeIsThatOfTheKnots NothingLost Emit\n'
       'PROPERTIES GrowsOnly\nCHECK_DEADLOCK FALSE\n')


def cfg(n, ops, kinds, starts, pick="All"):
    return CFG % (",".join(map(str, range(n))), ops, kinds, starts, pick)


class Curve:
    """A potential with one followed minimum known in closed form."""
    def __init__(self, rng, kind):
        self.kind = kind
        if kind == "wells":
            d = rng.choice([1, 2, 2, 3, 4])
            self.c = [rng.choice([-1, 1]) * rng.uniform(20, 220) for _ in range(d)]
            self.vel = [rng.uniform(-1.2, 1.2) for _ in range(d)]
            self.a, self.b = rng.uniform(-500, 500), rng.uniform(-40, 40)
            self.lo, self.hi = -1e3, 1e3
            self.model = {"pot": "wells", "k": 20.0, "tree": self.c,
                          "wells": [{"c": self.c, "vel": self.vel, "lo": -1e3, "hi": 1e3, "a": self.a, "b": self.b}]}
        else:
            d = rng.choice([1, 2, 3])
            self.D, self.E, self.lam = 0.2, rng.choice([0.02, 0.04]), rng.choice([0.1, 0.2])
            self.T0 = rng.choice([60.0, 75.0, 140.0])
            self.T1 = self.T0 / math.sqrt(1 - 9 * self.E ** 2 / (8 * self.lam * self.D))
            self.d, self.lo, self.hi = d, -1e3, self.T1
            self.model = {"pot": "cubic", "D": self.D, "T0": self.T0, "E": self.E, "lam": self.lam,
                          "tree": [self.r(0.0)] + [0.0] * (d - 1)}

    def r(self, T):
        x = 9 * self.E ** 2 * T * T - 8 * self.lam * self.D * (T * T - self.T0 ** 2)
        return (3 * self.E * T + math.sqrt(max(0.0, x))) / (2 * self.lam)

    def at(self, T):
        if self.kind == "wells":
            return [c + v * T for c, v in zip(self.c, self.vel)]
        return [self.r(T)] + [0.0] * (self.d - 1)

    def V(self, T):
        if self.kind == "wells":
            return self.a + self.b * T
        r = self.r(T)
        return self.D * (T * T - self.T0 ** 2) * r * r - self.E * T * r ** 3 + self.lam / 4 * r ** 4

    def postol(self, T):
        # the end of the cubic's broken branch is an inflection: the position is only as sharp as sqrt
        if self.kind == "cubic" and T > self.T1 - 1.0:
            return 1.5
        return 0.01

    def on(self, T, pt):
        q = self.at(T)
        s = 1 if self.kind == "wells" or pt[0] >= 0 else -1
        return max(abs(s * a - b) if i == 0 else abs(a - b) for i, (a, b) in enumerate(zip(pt, q))) < self.postol(T)

    def pot_ok(self, T, V):
        sc = max(abs(self.V(T)), 1.0)
        if self.kind == "cubic" and T > self.T1 - 1.0:
            return abs(V - self.V(T)) < 1e-3 * sc + 3e3
        return abs(V - self.V(T)) < 1e-6 * sc + 1e-2


def plan(rng, case, i):
    """Concrete scenario for an abstract history; histories from the empty phase
    stay on the grid, others use a traced constructor."""
    cv = Curve(rng, "wells" if i % 3 else "cubic")
    g = GRID if cv.kind == "wells" else [x * (min(1.0, (cv.T1 - 2) / 70.0)) for x in GRID]
    if case["start"] == []:
        ctor = {"k": "none"}
        rngexp = None
    else:
        A, B = g[case["start"][0]], g[case["start"][1]]
        kind = ["glob1", "one", "glob2", "two", "min", "one-", "glob1-", "past", "two-"][i % 9]
        if cv.kind == "cubic" and kind == "min":
            kind = "two"
        off = [rng.uniform(-0.4, 0.4) for _ in cv.at(A)] if cv.kind == "wells" else [rng.uniform(-.3, .3)] + [0.0] * (cv.d - 1)
        near = lambda T: [x + y for x, y in zip(cv.at(T), off)]
        mid = A + (B - A) * rng.choice([0.31, 0.5, 0.77])
        ctor = {"one": {"k": "one", "start": near(A), "A": A, "B": B},
                "one-": {"k": "one", "start": near(B), "A": B, "B": A},
                "glob1": {"k": "glob1", "start": near(A), "A": A, "B": B},
                "glob1-": {"k": "glob1", "start": near(B), "A": B, "B": A},
                "glob2": {"k": "glob2", "start": near(mid), "T": mid, "A": A, "B": B},
                "two": {"k": "two", "start": near(mid), "T": mid, "A": A, "B": B},
                "two-": {"k": "two", "start": near(mid), "T": mid, "A": B, "B": A},
                "min": {"k": "min", "T": rng.choice([A, mid, B]), "A": A, "B": B},
                "past": {"k": "one", "start": near(A), "A": A, "B": B}}[kind]
        rngexp = [A, B]
        if kind == "past" and cv.kind == "cubic":
            ctor["B"] = cv.T1 + 7.0
            rngexp = [A, cv.T1]
    ops = []
    for o in case["ops"]:
        T = g[o["T"]]
        ops.append({"op": o["op"], "T": T, "pt": cv.at(T), "V": cv.V(T)})
    c = dict(cv.model, cmd="phase", ctor=ctor, ops=ops)
    return cv, c, rngexp


def record(cv, c, rngexp, o):
    """Turn the observation into a trace over ranks."""
    temps = set()
    for s in o["states"]:
        temps.update(m[0] for m in s["mins"])
        temps.update([s["lo"], s["hi"]])
        if s.get("ret"):
            temps.add(s["ret"][0])
    temps.update(x["T"] for x in c["ops"])
    if rngexp:
        temps.update(rngexp)
    srt, cls = sorted(temps), {}
    # temperatures closer than the tracer's own resolution are one temperature
    n, last = 0, None
    stored = sorted({m[0] for s in o["states"] for m in s["mins"]})
    for t in srt:
        if last is not None and t - last > (2e-4 if (rngexp and abs(t - rngexp[1]) < 3e-4) else 1.1e-5):
            n += 1
        cls[t] = n
        last = t
    tr = []
    for i, s in enumerate(o["states"]):
        mins = s["mins"]
        k = [m[0] for m in mins]
        rk = []
        for t in k:
            if not rk or cls[t] != rk[-1] or t == k[k.index(t) - 1]:
                rk.append(cls[t])
        for a, b in zip(k, k[1:]):
            if a >= b:
                rk = [cls[t] for t in k]   # out of order or duplicate: keep as recorded
                break
        on = all(cv.on(m[0], m[1]) and cv.pot_ok(m[0], m[2]) for m in mins)
        e = {"k": rk, "lo": cls[s["lo"]] if k else -1, "hi": cls[s["hi"]] if k else -1, "on": on, "ends": True,
             "T": 0, "ret": 0, "a": 0, "b": 0}
        if i == 0:
            e["op"] = "empty" if rngexp is None else "new"
            if rngexp:
                e["a"], e["b"] = cls[rngexp[0]], cls[rngexp[1]]
        else:
            op = c["ops"][i - 1]
            e["op"], e["T"] = op["op"], cls[op["T"]]
            if op["op"] == "get":
                e["ret"] = cls[s["ret"][0]]
                e["on"] = on and cv.on(s["ret"][0], s["ret"][1]) and cv.pot_ok(s["ret"][0], s["ret"][2])
        if len(k) >= 2:
            e["ends"] = mins[-1][3] in (0, 1) and mins[0][3] in (0, -1) and all(m[3] == 0 for m in mins[1:-1])
        tr.append(e)
    return tr


def run(ck):
    cases = ck.spec("MC_PhaseCurve", cfg_text=cfg(4, 3, '{"add","get"}', "StEmpty")).cases
    cases += ck.spec("MC_PhaseCurve", cfg_text=cfg(5, 4, '{"add"}', "StEmpty")).cases
    cases += ck.spec("MC_PhaseCurve", cfg_text=cfg(6, ck.pick(6, 9), '{"add","get"}', "StAny", "One"),
                     simulate=ck.pick(2500, 20000), depth=11, seed=ck.seed, workers=1).cases
    drv = vlib.driver("d_phase")
    work = [plan(ck.rng, c, i) for i, c in enumerate(cases)]
    outs = vlib.run_driver(drv, [w[1] for w in work], jobs=vlib.NPROC)
    traces, idx = [], []
    for n, ((cv, c, rx), o) in enumerate(zip(work, outs)):
        ck.traces += 1
        if "crash" in o or "exception" in o:
            ck.violation("history of a phase crashed: %s" % o, {"case": c, "observed": o})
            continue
        if rx is not None and not o["states"][0]["mins"]:
            ck.violation("no phase found where one exists", {"case": c, "observed": o})
            continue
        if c["ctor"]["k"] == "glob1" and cv.kind == "wells":
            end = o["states"][0]["glob"]
            if abs(end - c["ctor"]["B"]) > 1e-6:
                ck.violation("a phase that stays the global minimum reports losing it at T=%s" % end, {"case": c, "observed": o["states"][0]})
        traces.append(record(cv, c, rx, o))
        idx.append(n)
    bad = vlib.trace_check(ck, "PhaseTrace",traces,
                           "SPECIFICATION Spec\nINVARIANT Report\nCHECK_DEADLOCK FALSE\n", chunk=1500)
    for b in bad:
        n = idx[b["trace"]]
        c = work[n][1]
        ck.violation("recorded history of a phase is no behaviour of the specification at step %d (%s): %s"
                     % (b["step"], {k: v for k, v in b["clauses"].items() if not v},
                        [c["ctor"]["k"]] + [(o["op"], o["T"]) for o in c["ops"]]),
                     {"case": c, "observed": outs[n]["states"][max(0, b["step"] - 2):b["step"]], "trace": traces[b["trace"]]})
    for w in work[:: max(1, len(work) // 5)]:
        ck.sample({"ctor": w[1]["ctor"], "ops": [(o["op"], round(o["T"], 2)) for o in w[1]["ops"]]})
    ck.assumptions = ["potentials with one minimum known in closed form (linear motion, or a thermal cubic with an inflection end)",
                      "temperatures closer than 1.1e-5 GeV (the tracer's smallest step) count as equal"]
