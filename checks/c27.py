"""C27: the summary of a point estimate is decoded like a posterior sample."""
from vlib import quint
from vlib.quint import fx, fxl
from .fitlib import case_of, label, compare_derived, flat_theta

ASSUMPTIONS = ["p <= 7; the estimate is added later or given when the object is made",
               "relative tolerance 1e-8, for the driving noise widened by its cancellation error"]


def run(ctx):
    quint.selftest(["fit"], ctx.scratch)
    ts = ctx.traces(quint.run("fitobj", step="stepEstimate", traces=ctx.n(48, 240), steps=10, seed=ctx.seed,
                              invariants=["answersSane"], scratch=ctx.scratch))
    states = [s for t in ts for s in t[1:]]
    cases = []
    for k, s in enumerate(states):
        est = {"theta": fxl(s["ev"]["theta"]), "fun": fx(s["ev"]["pct"])}
        if k % 4 == 3 and s["tab"]["post"]["p"] > 1:
            c = case_of(s["tab"], [], estimate_at_birth=est)
        else:
            c = case_of(s["tab"], [dict(est, op="addmle")], watch=True)
        c["estimate"] = est
        cases.append(c)
    res = ctx.pythons("py_fit.py", {}, cases, allow_crash=True)
    if res is None:
        return
    ds = quint.judge(["fit"], "", "derivedOf", [flat_theta(c, c["estimate"]["theta"]) for c in cases], ctx.scratch, "Derived")
    orders = set()
    for c, r, d in zip(cases, res, ds):
        bad = r.get("exception") or next((o["exception"] for o in r["ops"] if "exception" in o), None)
        where = label(c) + ", point estimate"
        if bad:
            ctx.fail(where + " failed: " + bad, case=c)
            continue
        if c["ops"]:
            o = r["ops"][0]
            m = o["r"]["mle"]
            if o["changed"] or not o["r"]["intact"]:
                ctx.fail("%s: adding it changed %s" % (where, o["changed"] or "the estimate of the caller"), case=c)
                continue
        else:
            m = r["mle"]
        def get(name):
            return (m[name]["re"], m[name].get("im", [0.0] * len(m[name]["re"]))) if name in m else None
        if "loglik" not in m or m["loglik"]["re"] != [-c["estimate"]["fun"]]:
            ctx.fail("%s: reported value %s, maximised log-density %.12g" % (where, m.get("loglik"), -c["estimate"]["fun"]), case=c)
            continue
        compare_derived(ctx, get, d, c["kind"], where, c, mle=True)
        orders.add((c["p"], c["q"]))
        ctx.samples()
    ctx.validated(len(ts))
    ctx.cov["orders_covered"] = len(orders)
    ctx.need(len(orders) >= 15, "too few orders")
