"""C01: the filter output is the exact one-step-ahead law."""
from vlib import build, quint
from vlib.quint import fx, fxl
from .filterlib import Units, new_line, describe, scales, tolerance

ASSUMPTIONS = ["fixed-point reference with 36 decimals; differences above 1e-7 of the scale of the data plus 1e4 estimated rounding errors are reported",
               "well-separated roots, p <= 7, at most 45 measurements per series"]


def run(ctx):
    exe = build.driver("drv_model")
    quint.selftest(["fixed", "carma", "gauss"], ctx.scratch)
    ts = ctx.traces(quint.run("filterobj", step="stepFilter", traces=ctx.n(96, 800), steps=10, seed=ctx.seed,
                              invariants=["answersSane", "unitsFree"], scratch=ctx.scratch))
    ts += ctx.traces(quint.run("filterobj", step="stepLongFilter", traces=ctx.n(16, 160), steps=3, seed=ctx.seed,
                               invariants=["answersSane"], scratch=ctx.scratch))
    ts += ctx.traces(quint.run("filterobj", step="stepRepeated", traces=ctx.n(16, 160), steps=4, seed=ctx.seed,
                               invariants=["answersSane", "repeatsForget"], scratch=ctx.scratch))
    lines, cases = [], []
    for t in ts:
        for s in t:
            ev = s["ev"]
            if ev["op"] != "filter":
                continue
            k = len(cases)
            cases.append(ev)
            lines += [new_line("o", ev["obj"], ev["roots"], "vas"[k % 3]), "filter o"]
    res = [r for r in ctx.drive(exe, lines) if r["op"] == "filter"]
    kinds = set()
    for ev, r in zip(cases, res):
        ys, r0 = scales(ev)
        o = ev["obj"]
        kinds.add((o["kind"], len(o["quad"]), len(o["ma"])))
        if "exception" in r:
            ctx.fail("filtering raised " + r["exception"], case=describe(ev))
            continue
        tol = tolerance(ev)
        if tol is None:
            ctx.count("ill_conditioned_skipped")
            continue
        u = Units(o["units"])
        mean, var = [u.mean(x) for x in r["mean"]], [u.var(x) for x in r["var"]]
        if len(mean) != len(ev["mean"]) or len(var) != len(ev["vars"]):
            ctx.fail("filter returned %d means for %d measurements" % (len(mean), len(ev["mean"])), case=describe(ev))
            continue
        for i in range(len(mean)):
            ctx.samples()
            dm = abs(mean[i] - fx(ev["mean"][i])) / max([ys] + [abs(x) for x in fxl(ev["mean"])])
            dv = abs(var[i] - fx(ev["vars"][i])) / (r0 + o["rows"][i]["e"] / quint.ONE * o["rows"][i]["e"] / quint.ONE)
            ctx.maxi("max_deviation_over_tolerance", max(dm, dv) / tol)
            if not (dm <= tol and dv <= tol):
                ctx.fail("%s p=%d q=%d: forecast of measurement %d is (%.12g, %.12g), specified (%.12g, %.12g)"
                         % (o["kind"], len(o["quad"]), len(o["ma"]) - 1, i, mean[i], var[i], fx(ev["mean"][i]), fx(ev["vars"][i])),
                         case=describe(ev))
                break
        ctx.validated()
    ctx.cov["model_orders_covered"] = len(kinds)
    ctx.need(len(kinds) >= 15, "too few model orders")
