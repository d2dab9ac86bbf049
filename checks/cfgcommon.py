"""P01/P02: histories of the option parser (CliParser.tla) replayed."""
import re
import vlib

UNSET, UNKNOWN, ANY = "<unset>", "<unknown>", "<anytext>"


def cfg_parser(steps, toks, modes, sp, vals, dashes='{"--"}', seps='{"="}', pick="All"):
    return ('SPECIFICATION Spec\nCONSTANTS\n MaxSteps = %d\n MaxTokens = %d\n Modes = {%s}\n'
            ' Pick <- %s\n Spellings <- %s\n Values <- %s\n Dashes = %s\n Seps = %s\n'
            'INVARIANTS TypeOK NeverInvented LastWins Emit\nPROPERTY HelpIsSticky\nCHECK_DEADLOCK FALSE\n'
            % (steps, toks, ",".join('"%s"' % m for m in modes), pick, sp, vals, dashes, seps))


def typed(s):
    """What a typed read of text s has to give (None: an error)."""
    def num(pat, f):
        return f(s) if re.fullmatch(pat, s) else None
    r = {"s": s, "s2": s, "b": s.lower() == "true"}
    if re.fullmatch(r"[+-]?\d+", s):
        r["i"] = int(s)
    elif not re.match(r"\s*[+-]?\d", s):
        r["i"] = None
    if re.fullmatch(r"\d+", s):
        r["u"] = int(s)
    elif not re.match(r"\s*[+-]?\d", s):
        r["u"] = None
    if re.fullmatch(r"[+-]?\d+(\.\d+)?([eE][+-]?\d+)?", s):
        r["d"] = float(s)
    elif not re.match(r"\s*[+-]?(\d|\.|inf|nan)", s, re.I):
        r["d"] = None
    return r


def judge(case, out):
    """None if the observation conforms, else a description."""
    if "crash" in out or "exception" in out:
        return "driver: %s" % (out.get("crash") or out.get("exception"))
    for k, (st, o) in enumerate(zip(case["steps"], out["steps"])):
        w = "step %d (%s)" % (k + 1, st["kind"])
        if o["refused"] != st["refused"]:
            return "%s: refused=%s, specified %s" % (w, o["refused"], st["refused"])
        for n, e in st["obs"]["val"].items():
            got = o["val"][n]
            if e == UNKNOWN:
                continue
            if e == UNSET:
                if any(got[x] is not None for x in got):
                    return "%s: option %s was never given but reads as %r" % (w, n, got)
            elif e == ANY:
                if got["s"] is None or got["s"] != got["s2"]:
                    return "%s: flag %s is not set: %r" % (w, n, got)
            else:
                for kind, v in typed(e).items():
                    g = got[kind]
                    if v is None:
                        bad = g is not None
                    elif isinstance(v, (str, bool)):
                        bad = g is None or g != v
                    else:
                        bad = g is None or g != v
                    if bad:
                        return "%s: option %s given as %r reads as %r (%s)" % (w, n, e, g, kind)
        if st["obs"]["req"] != "unknown" and o["req"] != (st["obs"]["req"] == "yes"):
            return "%s: required-option check says %s" % (w, o["req"])
        if o["help"] != (1 if st["obs"]["help"] else 0):
            # a help request in a refused list may or may not be reached
            if not any(s["refused"] and has_help(s) for s in case["steps"][: k + 1]):
                return "%s: help printed %d times" % (w, o["help"])
        if o["help"] > 1:
            return "%s: help printed %d times" % (w, o["help"])
    last = case["steps"][-1]["obs"]["req"]
    if last != "unknown" and out["check"] != (last == "yes"):
        return "required-option check (throwing) says %s" % out["check"]
    if out["help_end"] > 1:
        return "help printed %d times" % out["help_end"]
    return None


def has_help(st):
    return st["kind"] in ("cli", "json") and "help" in str(st["enc"]).lower()


def replay(ck, cases, what="parser"):
    drv = vlib.driver("d_config")
    for c in cases:
        c["what"] = what
    outs = vlib.run_driver(drv, cases, jobs=vlib.NPROC)
    return outs


def run_parser(ck, modes, cases):
    outs = replay(ck, cases)
    for c, o in zip(cases, outs):
        ck.traces += 1
        bad = judge(c, o)
        if bad:
            ck.violation(bad, {"case": c, "observed": o})
    for c in cases[:: max(1, len(cases) // 5)]:
        ck.sample({"ctor": c["ctor"], "steps": [(s["kind"], s["enc"], s["refused"]) for s in c["steps"]]})
