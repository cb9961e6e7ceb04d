"""C02: prediction is the exact conditional law of the process."""
from vlib import build, quint
from vlib.quint import fx
from .filterlib import Units, new_line, describe, scales, tolerance

ASSUMPTIONS = ["fixed-point reference with 36 decimals; ill-conditioned cases are skipped and counted",
               "well-separated roots, p <= 7, at most 45 measurements per series"]


def compare(ctx, ev, i, r, tol):
    """One prediction against the specification."""
    ys, r0 = scales(ev)
    u = Units(ev["obj"]["units"])
    m, v = u.mean(r["mean"]), u.var(r["var"])
    sm, sv = fx(ev["mean"][i]), fx(ev["vars"][i])
    dm, dv = abs(m - sm) / max(ys, abs(sm)), abs(v - sv) / r0
    ctx.samples()
    if ev["pos"][i] == "exact":
        ok = m == sm and v == 0.0
    else:
        ok = dm <= tol and dv <= tol
        ctx.maxi("max_deviation_over_tolerance", max(dm, dv) / tol)
    if not ok:
        o = ev["obj"]
        ctx.fail("%s p=%d q=%d: prediction %s the data is (%.12g, %.12g), specified (%.12g, %.12g)"
                 % (o["kind"], len(o["quad"]), len(o["ma"]) - 1, ev["pos"][i], m, v, sm, sv), case=describe(ev), index=i)
    return ok


def run(ctx):
    exe = build.driver("drv_model")
    quint.selftest(["fixed", "carma", "gauss"], ctx.scratch)
    ts = ctx.traces(quint.run("filterobj", step="stepPredict", traces=ctx.n(64, 600), steps=10, seed=ctx.seed,
                              invariants=["answersSane"], scratch=ctx.scratch))
    ts += ctx.traces(quint.run("filterobj", step="stepLongPredict", traces=ctx.n(16, 160), steps=2, seed=ctx.seed,
                               invariants=["answersSane"], scratch=ctx.scratch))
    lines, cases = [], []
    for t in ts:
        for s in t:
            ev = s["ev"]
            if ev["op"] != "predict":
                continue
            k = len(cases)
            cases.append(ev)
            lines.append(new_line("o", ev["obj"], ev["roots"], "vas"[k % 3]))
            lines += ["predict o %.17g" % x for x in Units(ev["obj"]["units"]).times(ev["req"])]
    res = iter([r for r in ctx.drive(exe, lines) if r["op"] == "predict"])
    seen = {}
    for ev in cases:
        tol = tolerance(ev)
        if tol is None:
            ctx.count("ill_conditioned_skipped")
        for i in range(len(ev["req"])):
            r = next(res, None)
            if r is None:
                return
            if tol is None and ev["pos"][i] != "exact":
                continue
            key = (ev["obj"]["kind"], ev["pos"][i])
            seen[key] = seen.get(key, 0) + 1
            if "exception" in r:
                ctx.fail("prediction raised " + r["exception"], case=describe(ev))
            else:
                compare(ctx, ev, i, r, tol)
        ctx.validated()
    ctx.cov["positions"] = {"%s/%s" % k: v for k, v in sorted(seen.items())}
    for kind in ("kf1", "kfp"):
        for pos in ("before", "between", "at", "exact", "after"):
            ctx.need(seen.get((kind, pos), 0) > 0, "no prediction %s for %s" % (pos, kind))
