"""C25: synthetic light curves follow the joint stationary law."""
import math

from vlib import quint
from vlib.quint import fx, fxl
from .drawlib import Draws
from .filterlib import rounding_of, MAXROUND

ASSUMPTIONS = ["at most 7 distinct times, p <= 7; car1_process itself only with increasing times",
               "draws are standardised with the specified joint law; seven standard errors"]


def run(ctx):
    quint.selftest(["process"], ctx.scratch)
    m = ctx.n(1000, 5000)
    ts = ctx.traces(quint.run("process", step="stepCurve", traces=ctx.n(40, 120), steps=8, seed=ctx.seed,
                              invariants=["processSane"], scratch=ctx.scratch))
    cases, evs = [], []
    for ev in [s["ev"] for t in ts for s in t[1:]]:
        mo = ev["model"]
        if rounding_of(mo["roots"], mo["ma"], ev["r0"], mo["sigsqr"], ev["reply"]["vmin"]) > MAXROUND:
            ctx.count("ill_conditioned_skipped")
            continue
        rising = all(a < b for a, b in zip(ev["times"], ev["times"][1:]))
        k = len(cases)
        form = "car1" if len(mo["roots"]) == 1 and rising and k % 2 else "default" if len(mo["ma"]) == 1 and k % 3 == 0 else "full"
        cases.append({"op": "curve", "roots": [fxl(z) for z in mo["roots"]], "ma": fxl(mo["ma"]), "sigsqr": fx(mo["sigsqr"]),
                      "times": fxl(ev["times"]), "m": m, "form": form, "units": ev["units"]})
        evs.append((ev, rising))
    res = ctx.pythons("py_process.py", {}, cases, allow_crash=True, timeout=600)
    seen, draws = {}, Draws(ctx)
    for c, (ev, rising), r in zip(cases, evs, res or []):
        p, q, k = len(c["roots"]), len(c["ma"]) - 1, len(c["times"])
        where = "p=%d q=%d, %d %s times" % (p, q, k, "increasing" if rising else "unordered")
        if "exception" in r:
            ctx.fail(where + ": " + r["exception"], case=c)
            continue
        what = None
        if not r["intact"]:
            what = "the arrays of the caller were modified"
        elif len(r["values"]) != k * m:
            what = "%g values" % (len(r["values"]) / m)
        else:
            vs = fxl(ev["reply"]["vars"])
            what = draws.add(r["values"], m, k, [0.0] * k, [fxl(x) for x in ev["reply"]["lrows"]], 0,
                               [math.sqrt(v) for v in vs], [False] * k, math.sqrt(fx(ev["r0"])))
        if what:
            ctx.fail(where + ": " + what, case=dict(c, values=None))
        key = c["form"] + (" increasing" if rising else " unordered")
        seen[key] = seen.get(key, 0) + 1
        ctx.samples(m)
    for what in draws.finish() if not ctx.violations else []:
        ctx.fail(what)
    ctx.validated(len(ts))
    ctx.cov["calls"] = seen
    ctx.need(len(seen) == 5, "calls %s" % seen)
