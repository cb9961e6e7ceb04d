"""C31: the filter written in Python."""
import math

from vlib import quint
from vlib.quint import fx, fxl
from .drawlib import Draws
from .filterlib import Units, describe, scales, rounding, tolerance, MAXROUND

ASSUMPTIONS = ["series of at most 12 measurements, p <= 7; times requested after the first measurement",
               "simulations at increasing times; draws are standardised with the specified joint law, seven standard errors"]


def run(ctx):
    quint.selftest(["fixed", "carma", "gauss"], ctx.scratch)
    ts = ctx.traces(quint.run("filterobj", step="stepPython", traces=ctx.n(96, 480), steps=6, seed=ctx.seed,
                              invariants=["answersSane"], scratch=ctx.scratch))
    m = ctx.n(300, 1500)
    cases, plan = [], []
    for k, t in enumerate(ts):
        o = t[0]["ev"]["obj"]
        u = Units(o["units"])
        c = {"t": u.times(r["t"] for r in o["rows"]), "y": u.values(r["y"] for r in o["rows"]), "e": u.values(r["e"] for r in o["rows"]),
             "roots": [u.rates(z) for z in t[0]["ev"]["roots"]], "ma": u.ma(o["ma"]), "sigsqr": u.noise(o["sigsqr"], len(o["quad"])),
             "default": len(o["ma"]) == 1 and k % 2 == 0, "arrays": k % 3 == 0, "ops": []}
        evs = []
        for s in t[1:]:
            ev = s["ev"]
            if rounding(ev) > MAXROUND or (ev["op"] == "predict" and not ev["req"]):
                ctx.count("ill_conditioned_skipped")
                continue
            req = u.times(ev["req"])
            c["ops"].append({"op": ev["op"], "times": req, "m": m, "scalar": len(req) == 1 and len(evs) % 2 == 0})
            evs.append(ev)
        if evs:
            cases.append(c)
            plan.append(evs)
    res = ctx.pythons("py_pyfilter.py", {}, cases, allow_crash=True, timeout=600)
    if res is None:
        return
    draws, seen, orders = Draws(ctx), {}, set()
    for c, evs, rs in zip(cases, plan, res):
        done = []
        for ev, r in zip(evs, rs):
            o = ev["obj"]
            u = Units(o["units"])
            p, q, n, k = len(o["quad"]), len(o["ma"]) - 1, len(o["rows"]), len(ev["req"])
            done.append(ev["op"])
            where = "p=%d q=%d, after %s" % (p, q, " ".join(done))
            if "exception" in r:
                ctx.fail("%s: %s" % (where, r["exception"]), case=describe(ev))
                break
            if not r["intact"]:
                ctx.fail("%s: the arrays of the caller were modified" % where, case=describe(ev))
                break
            ys, r0 = scales(ev)
            orders.add((p, q))
            seen[ev["op"]] = seen.get(ev["op"], 0) + 1
            ctx.samples()
            if ev["op"] == "simulate":
                resid, lrows = fxl(ev["resid"]), [fxl(x) for x in ev["lrows"]]
                vs = fxl(ev["vars"])
                vals = [u.mean(x) for x in r["values"]]
                if len(vals) != k * m:
                    what = "%g values for %d times" % (len(vals) / m, k)
                else:
                    what = draws.add(vals, m, k, [sum(a * b for a, b in zip(l[:n], resid)) for l in lrows], lrows, n,
                                     [math.sqrt(max(0.0, v)) for v in vs], [v <= 1e-20 * r0 for v in vs], ys)
                if what:
                    ctx.fail("%s: %s" % (where, what), case=describe(ev))
                    break
                continue
            tol = 1e-5 + 10 * tolerance(ev)   # the class solves for its input vector numerically
            wm, wv = fxl(ev["mean"]), fxl(ev["vars"])
            gm, gv = [u.mean(x) for x in r["mean"]], [u.var(x) for x in r["vars"]]
            if len(gm) != len(wm) or len(gv) != len(wv):
                ctx.fail("%s: %d means and %d variances, specified %d" % (where, len(gm), len(gv), len(wm)), case=describe(ev))
                break
            bad = False
            for i in range(len(wm)):
                v0 = r0 if ev["op"] == "predict" else max(r0, wv[i])
                dev = max(abs(gm[i] - wm[i]) / (ys + abs(wm[i])), abs(gv[i] - wv[i]) / v0)
                ctx.maxi("max_deviation_over_tolerance", dev / tol)
                if not dev <= tol:
                    ctx.fail("%s: answer %d is (%.12g, %.12g), specified (%.12g, %.12g)" % (where, i, gm[i], gv[i], wm[i], wv[i]), case=describe(ev))
                    bad = True
                    break
            if bad:
                break
    for what in draws.finish() if not ctx.violations else []:
        ctx.fail(what)
    ctx.validated(len(ts))
    ctx.cov["calls"] = seen
    ctx.cov["orders_covered"] = len(orders)
    ctx.need(len(seen) == 3 and len(orders) >= 12, "calls %s, orders %d" % (seen, len(orders)))
