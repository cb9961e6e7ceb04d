"""C07: the support of the prior and the log-prior."""
from vlib import build, quint
from vlib.quint import fx
from .filterlib import vec, rounding_of
from .postlib import in_units, post_line, change_line, describe, margin_ok

ASSUMPTIONS = ["vectors within 1e-9 (relative) of a boundary, 1e-5 for root separation, get no verdict",
               "the log-prior is compared up to one constant per object"]


def run(ctx):
    exe = build.driver("drv_model")
    quint.selftest(["posterior"], ctx.scratch)
    ts = ctx.traces(quint.run("posteriorobj", step="stepEdge", traces=ctx.n(480, 3000), steps=16, seed=ctx.seed,
                              invariants=["answersSane"], scratch=ctx.scratch))
    lines, plan = [], []
    for k, t in enumerate(ts):
        for s in t:
            ev = s["ev"]
            if ev["op"] == "new":
                lines.append(post_line("o", ev["post"]))
            elif ev["op"] in ("edge", "again", "tweak"):
                lines.append("ld o " + vec(in_units(ev["post"], ev["theta"])))
                plan.append((k, ev))
            else:
                lines.append(change_line("o", ev))
    res = [r for r in ctx.drive(exe, lines) if r["op"] == "ld"]
    seen, base = {}, {}
    for (k, ev), r in zip(plan, res):
        if "exception" in r:
            ctx.fail("evaluation raised " + r["exception"], case=describe(ev))
            continue
        ctx.count("evaluated_again", int(ev["op"] == "again"))
        lp = float(r["lp"]) - fx(ev["lp"])
        if abs(lp - base.setdefault(k, lp)) > 1e-8 * (1 + abs(fx(ev["lp"]))):
            ctx.fail("%s: log-prior %.12g, specified %.12g" % (ev["post"]["kind"], float(r["lp"]), fx(ev["lp"])), case=describe(ev))
        if not margin_ok(ev):
            ctx.count("on_a_boundary_skipped")
            continue
        ctx.samples()
        for g in (float(r["ld"]), float(r["ld2"])):
            if not ev["inside"]:
                for b in ev["broken"]:
                    seen[(ev["post"]["kind"], b)] = seen.get((ev["post"]["kind"], b), 0) + 1
                ok = g == float("-inf")
            elif ev["post"]["mle"]:
                # no bound is enforced: finite, unless the case is degenerate
                if ev["tag"] in ("coincident", "close-pair"):
                    continue
                l = ev["lik"]
                if l["vmin"] <= 0 or rounding_of(ev["roots"], ev["ma"], l["r0"], ev["sigsqr"], l["vmin"]) > 1e-9:
                    continue
                seen[(ev["post"]["kind"], "mle " + ev["tag"])] = 1
                ok = abs(g) < float("inf")
            else:
                seen[(ev["post"]["kind"], "inside " + ev["tag"])] = 1
                ok = abs(g) < float("inf")
            if not ok:
                ctx.fail("%s p=%d (%s): log-density %g where the specification says %s"
                         % (ev["post"]["kind"], ev["post"]["p"], ev["tag"], g,
                            "inside the support" if ev["inside"] else "outside (" + ", ".join(ev["broken"]) + ")"), case=describe(ev))
                break
    ctx.validated(len(ts))
    ctx.cov["conditions_exercised"] = len(seen)
    for b in ("deviation", "scale", "width-high", "width-low"):
        ctx.need(seen.get(("car1", b)), "car1 never broke " + b)
    for b in ("deviation", "scale", "width-high", "width-low", "centroid", "order", "coincident"):
        for kd in ("car", "carma"):
            ctx.need(seen.get((kd, b)), "%s never broke %s" % (kd, b))
    ctx.need(any(k[1].startswith("mle") for k in seen), "maximum-likelihood mode not reached")
