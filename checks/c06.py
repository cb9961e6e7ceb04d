"""C06: the log-density is the exact log-likelihood plus the log-prior."""
from vlib import build, quint
from vlib.quint import fx
from .filterlib import vec
from .postlib import in_units, post_line, change_line, describe, density_tolerance, margin_ok

ASSUMPTIONS = ["equality up to one additive constant per data set",
               "p <= 7, at most 10 measurements; ill-conditioned vectors are skipped and counted"]


def run(ctx):
    exe = build.driver("drv_model")
    quint.selftest(["posterior"], ctx.scratch)
    ts = ctx.traces(quint.run("posteriorobj", step="step", traces=ctx.n(240, 1600), steps=12, seed=ctx.seed,
                              invariants=["answersSane"], scratch=ctx.scratch))
    ts += ctx.traces(quint.run("posteriorobj", init="initLong", step="stepLong", traces=ctx.n(24, 240), steps=4, seed=ctx.seed,
                               invariants=["answersSane", "repeatsForget"], scratch=ctx.scratch))
    lines, plan = [], []
    for k, t in enumerate(ts):
        for s in t:
            ev = s["ev"]
            if ev["op"] == "new":
                lines.append(post_line("o", ev["post"]))
            elif ev["op"] in ("eval", "edge", "again", "tweak"):
                op = "save" if len(plan) % 5 == 4 else "ld"
                lines.append("%s o %s" % (op, vec(in_units(ev["post"], ev["theta"]))))
                plan.append((k, ev))
            else:
                lines.append(change_line("o", ev))
    res = [r for r in ctx.drive(exe, lines) if r["op"] in ("ld", "save")]
    offset, kinds, inmle = {}, {}, 0
    for (k, ev), r in zip(plan, res):
        if "exception" in r:
            ctx.fail("evaluation raised " + r["exception"], case=describe(ev))
            continue
        if not ev["inside"] or not margin_ok(ev) or ev["lik"]["vmin"] == 0:
            continue
        tol = density_tolerance(ev)
        if tol is None:
            ctx.count("ill_conditioned_skipped")
            continue
        ctx.samples()
        key = (ev["post"]["kind"], ev["post"]["p"], ev["post"]["q"])
        kinds[key] = kinds.get(key, 0) + 1
        inmle += ev["op"] == "edge"
        ctx.count("evaluated_again", int(ev["op"] == "again"))
        want = fx(ev["lik"]["ll"] + ev["lp"])
        got = [float(r["logpost"])] if r["op"] == "save" else [float(r["ld"]), float(r["ld2"])]
        for g in got:
            d = g - want
            if k not in offset:
                offset[k] = (d, tol)
            # a constant independent of the parameters is immaterial
            lim = tol + offset[k][1]
            ctx.maxi("max_deviation_over_tolerance", abs(d - offset[k][0]) / lim)
            if not abs(d - offset[k][0]) <= lim:
                ctx.fail("%s p=%d q=%d: log-density %.12g, specified %.12g%s" % (key + (
                    g, want, "" if abs(offset[k][0]) < 1e-6 else " up to the constant %.6g" % offset[k][0])),
                    case=describe(ev))
                break
        if r["op"] == "ld":
            lp = float(r["lp"]) - fx(ev["lp"])
            lk = ("lp", k)
            if abs(lp - offset.setdefault(lk, lp)) > 1e-8:
                ctx.fail("%s: log-prior %.12g, specified %.12g" % (key[0], float(r["lp"]), fx(ev["lp"])), case=describe(ev))
    ctx.validated(len(ts))
    ctx.cov["models_covered"] = len(kinds)
    ctx.cov["beyond_the_prior_in_likelihood_mode"] = inmle
    ctx.need(len(kinds) >= 18 and {k[0] for k in kinds} == {"car1", "car", "carma", "zcar", "zcarma"}, "too few models")
    ctx.need(inmle > 0, "no evaluation in maximum-likelihood mode")
