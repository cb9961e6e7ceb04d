"""C21: predictions and simulations from a fitted sample."""
import math

from vlib import quint
from vlib.quint import fx, fxl
from .drawlib import Draws
from .filterlib import MAXROUND
from .fitlib import case_of, label, predict_rounding, predict_scales, compare_prediction

ASSUMPTIONS = ["tables of at most 7 rows, 3 to 9 measurements, p <= 7, six requested times",
               "rows of one table have the same number of complex pairs where centres of the table are asked for",
               "random rows: the number of distinct answers is the number of rows, one of them compared, frequencies at 7 sigma",
               "draws are standardised with the specified joint law; seven standard errors"]


def check_random(ctx, c, ev, tab, r):
    n = len(c["trace"])
    draws = r["draws"]
    ys, r0 = predict_scales(ev, tab)
    k = len(ev["req"])
    groups = []
    for d in draws:
        for g in groups:
            if all(abs(a - b) <= 1e-9 * (abs(a) + abs(b)) + 1e-300 for a, b in zip(d, g[0])):
                g[1] += 1
                break
        else:
            groups.append([d, 1])
            if len(groups) > n:
                return "more different answers (%d) than rows (%d)" % (len(groups), n)
    if not any(compare_prediction(ev, tab, g[0][:k], g[0][k:]) is None for g in groups):
        return "none of the answers is the one of row %d: %s" % (ev["row"], compare_prediction(ev, tab, groups[0][0][:k], groups[0][0][k:]))
    if len(groups) < n:
        # noise-free measurements determine the answer whatever the row
        if all(v <= 1e-9 * r0 for v in fxl(ev["reply"]["vars"])):
            ctx.count("random_choice_without_effect")
            return None
        return "%d draws used only %d of %d rows" % (len(draws), len(groups), n)
    m = len(draws)
    for g in groups:
        z = (g[1] - m / n) / math.sqrt(m / n * (1 - 1.0 / n)) if n > 1 else 0.0
        if abs(z) > 7:
            return "one of %d rows was used in %d of %d random draws" % (n, g[1], m)
    return None


def run(ctx):
    quint.selftest(["fit"], ctx.scratch)
    tp = ctx.traces(quint.run("fitobj", step="stepPredict", traces=ctx.n(40, 200), steps=8, seed=ctx.seed,
                              invariants=["answersSane"], scratch=ctx.scratch))
    tsim = ctx.traces(quint.run("fitobj", step="stepSimulate", traces=ctx.n(8, 80), steps=6, seed=ctx.seed + 3,
                                invariants=["answersSane"], scratch=ctx.scratch))
    m = ctx.n(800, 4000)
    cases, plan = [], []
    for s in [s for t in tp for s in t[1:]] + [s for t in tsim for s in t[1:]]:
        ev, tab = s["ev"], s["tab"]
        if predict_rounding(ev) > MAXROUND:
            ctx.count("ill_conditioned_skipped")
            continue
        k = len(cases)
        how = ev["how"] if k % 5 else ev["how"].upper()
        req = fxl(ev["req"])
        if ev["how"] == "row":
            ops = [{"op": "random", "times": req, "m": 60 * len(tab["trace"])}]
        elif ev["op"] == "predict":
            ops = [{"op": "predict", "times": req, "how": how}, {"op": "predict", "times": req, "how": how, "scalar": True}]
        else:
            scalar = len(req) == 1
            ops = [{"op": "simulate", "times": req, "how": how, "m": m, "scalar": scalar}]
        cases.append(case_of(tab, ops, watch=True))
        plan.append((ev, tab))
    # simulations in one process: the library seeds its generator with the time, so that processes would share draws
    det = [k for k, (ev, _) in enumerate(plan) if ev["op"] == "predict"]
    sim = [k for k, (ev, _) in enumerate(plan) if ev["op"] != "predict"]
    res = [None] * len(cases)
    for part, r in ((det, ctx.pythons("py_fit.py", {}, [cases[k] for k in det], allow_crash=True, timeout=600)),
                    (sim, ctx.python("py_fit.py", {"seed": ctx.seed, "cases": [cases[k] for k in sim]}, allow_crash=True, timeout=600))):
        if r is None:
            return
        for k, x in zip(part, r):
            res[k] = x
    seen, draws = {}, Draws(ctx)
    for c, (ev, tab), r in zip(cases, plan, res):
        where = "%s, %s, %s" % (label(c), ev["op"], ev["how"])
        bad = r.get("exception") or next((o["exception"] for o in r["ops"] if "exception" in o), None)
        if bad:
            ctx.fail(where + " failed: " + bad, case=c)
            continue
        what = None
        for op, o in zip(c["ops"], r["ops"]):
            d = o["r"]
            if o.get("changed"):
                what = "changed " + ", ".join(o["changed"])
            elif op["op"] == "random":
                what = check_random(ctx, c, ev, tab, d)
            elif op["op"] == "predict":
                what = compare_prediction(ev, tab, d["mean"], d["vars"])
            else:
                k, n = len(ev["req"]), len(c["t"])
                resid = fxl(ev["reply"]["resid"])
                lrows = [fxl(x) for x in ev["reply"]["lrows"]]
                r0 = fx(ev["r0"])
                vs = fxl(ev["reply"]["vars"])
                if len(d["values"]) != k * m:
                    what = "%g values for %d times" % (len(d["values"]) / m, k)
                else:
                    base = [sum(a * b for a, b in zip(l[:n], resid)) + fx(ev["mu"]) for l in lrows]
                    what = draws.add(d["values"], m, k, base, lrows, n, [math.sqrt(max(0.0, v)) for v in vs],
                                       [v <= 1e-20 * r0 for v in vs], predict_scales(ev, tab)[0] + abs(fx(ev["mu"])))
            if not what and "intact" in d and not d["intact"]:
                what = "the requested times of the caller were modified"
            if what:
                ctx.fail(where + ": " + what, case=c, request=fxl(ev["req"]))
                break
        key = ev["op"] + " " + ev["how"] + (" car1" if c["kind"] == "car1" else "")
        seen[key] = seen.get(key, 0) + 1
        ctx.samples()
    for what in draws.finish() if not ctx.violations else []:
        ctx.fail(what)
    ctx.validated(len(tp) + len(tsim))
    ctx.cov["calls"] = seen
    ctx.need(len(seen) >= 13, "calls %s" % sorted(seen))
