"""Parameter points of the shipped models."""
import json, os

DATA = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "points.json")))
MODELS = sorted(DATA)
# columns (without the index column) that are couplings or masses and may be varied
INTS = {"r2hdm": [0], "c2hdm": [0], "n2hdm": [0]}


def legend(m):
    return DATA[m]["legend"]


# columns (without the index column) that the others determine
FIXED = {"cpinthedark": list(range(0, 14)) + [14, 16, 17, 18, 22, 23, 24, 25, 26, 27]}
# special points: columns (of the row) set to a value; number 0 is the plain point
VARIANTS = {
    "cxsm": [{}, {2: "0", 3: "0"}, {2: "0", 3: "310.5"}, {3: "210.25"}, {2: "0", 3: "0", 10: "12.5", 11: "3.5", 12: "-4.5"}],
}


def line(m, rng=None, spread=0.1, index=1, variant=0, kind=None):
    """A line of the parameter table; varied when a generator is given; of a given kind of Yukawa couplings."""
    row = list(DATA[m]["row"])
    vs = VARIANTS.get(m, [{}])
    for k, x in vs[variant % len(vs)].items():
        row[k] = x
    k0 = 1 if DATA[m]["index"] else 0
    if k0:
        row[0] = str(index)
    if rng is not None:
        for k in range(k0, len(row)):
            if k - k0 in FIXED.get(m, []):
                continue
            if k - k0 in INTS.get(m, []):
                row[k] = str(rng.choice([1, 2, 3, 4]))
            else:
                row[k] = repr(float(row[k]) * (1 + rng.uniform(-spread, spread)))
    if kind is not None:
        for k in INTS.get(m, []):
            row[k + k0] = str(kind)
    return "\t".join(row)
