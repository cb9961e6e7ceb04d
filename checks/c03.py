"""C03: simulated paths follow the joint conditional law and the order of the request."""
import math

from vlib import build, quint
from vlib.quint import fx
from .drawlib import Draws
from .filterlib import Units, new_line, describe, scales, rounding, MAXROUND, vec

ASSUMPTIONS = ["draws are standardised with the specified joint law and compared with independent standard normals",
               "seven standard errors for each mean, variance and correlation; smaller departures are not seen"]


def run(ctx):
    exe = build.driver("drv_model")
    quint.selftest(["fixed", "carma", "gauss"], ctx.scratch)
    ts = ctx.traces(quint.run("filterobj", step="stepSimulate", traces=ctx.n(48, 200), steps=8, seed=ctx.seed,
                              invariants=["answersSane"], scratch=ctx.scratch))
    long = ctx.traces(quint.run("filterobj", step="stepLongSimulate", traces=ctx.n(16, 80), steps=3, seed=ctx.seed,
                                invariants=["answersSane"], scratch=ctx.scratch))
    lines, cases = ["seed %d" % (1000 + ctx.seed)], []
    # fewer draws of long requests
    for t, m in [(t, ctx.n(1000, 5000)) for t in ts] + [(t, ctx.n(350, 1000)) for t in long]:
        for s in t:
            ev = s["ev"]
            if ev["op"] != "simulate":
                continue
            if rounding(ev) > MAXROUND:
                ctx.count("ill_conditioned_skipped")
                continue
            k = len(cases)
            cases.append((ev, m))
            lines += [new_line("o", ev["obj"], ev["roots"], "vas"[k % 3]),
                      "simulate_many o %d %s" % (m, vec(Units(ev["obj"]["units"]).times(ev["req"])))]
    res = [r for r in ctx.drive(exe, lines) if r["op"] == "simulate_many"]
    draws = Draws(ctx)
    unsorted = 0
    for (ev, m), r in zip(cases, res):
        if "exception" in r:
            ctx.fail("simulation raised " + r["exception"], case=describe(ev))
            continue
        ys, r0 = scales(ev)
        k, n = len(ev["req"]), len(ev["obj"]["rows"])
        unsorted += any(a > b for a, b in zip(ev["req"], ev["req"][1:]))
        resid = [fx(x) for x in ev["resid"]]
        lrows = [[fx(x) for x in row] for row in ev["lrows"]]
        sd = [math.sqrt(max(0.0, fx(v))) for v in ev["vars"]]
        # a value that is determined by the data or by an earlier value of the request
        fixed = [fx(v) <= 1e-20 * r0 for v in ev["vars"]]
        base = [sum(a * b for a, b in zip(lrows[i][:n], resid)) for i in range(k)]
        u = Units(ev["obj"]["units"])
        vals = [u.mean(x) for x in r["values"]]
        if len(vals) != k * m:
            ctx.fail("simulation at %d times returned %g values" % (k, len(vals) / m), case=describe(ev))
            continue
        bad = draws.add(vals, m, k, base, lrows, n, sd, fixed, ys)
        ctx.samples(m * k)
        if bad:
            o = ev["obj"]
            ctx.fail("%s p=%d q=%d, %s: %s" % (o["kind"], len(o["quad"]), len(o["ma"]) - 1, ",".join(ev["pos"]), bad),
                     case=describe(ev))
        ctx.validated()
    for what in draws.finish() if not ctx.violations else []:
        ctx.fail(what)
    ctx.cov["unsorted_requests"] = unsorted
    ctx.need(unsorted > 5, "no unsorted request")
