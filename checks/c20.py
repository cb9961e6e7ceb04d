"""C20: stored log-likelihoods, log-posteriors and the information criterion."""
from vlib import quint
from vlib.quint import fx, tofx
from .fitlib import case_of, label, flat_value, flat_theta, real_runs, rounding_of

ASSUMPTIONS = ["tables of at most 7 rows and 9 measurements made by the specification, p <= 7; some rows of real runs in addition",
               "equality up to one additive constant per data set; ill-conditioned rows are skipped and counted"]


def tolerance(roots, mac, sigsqr, lik, n):
    if lik["vmin"] <= 0:
        return None
    r = rounding_of(roots, mac, lik["r0"], sigsqr, lik["vmin"])
    return None if r > 1e-9 else (1e-7 + 1e4 * r) * (n + fx(lik["chi2"]))


def judge_rows(ctx, c, where, loglik, logpost, wants):
    """wants: (log-likelihood, log-prior, tolerance or None) of each row"""
    offset = None
    for i, (ll, lp, tol) in enumerate(wants):
        if tol is None:
            ctx.count("ill_conditioned_skipped")
            continue
        ctx.samples()
        d = logpost[i] - (ll + lp), loglik[i] - ll
        if offset is None:
            # the constants that do not depend on the parameters
            offset = d
            if not abs(d[0] - d[1]) <= 1e-6 and c.get("strict"):
                ctx.fail("%s, row %d: log-posterior and log-likelihood differ by %.10g, the log-prior is %.10g" % (
                    where, i, logpost[i] - loglik[i], lp), case=c)
                return
        for name, g, o, w in (("log-posterior", d[0], offset[0], ll + lp), ("log-likelihood", d[1], offset[1], ll)):
            ctx.maxi("max_deviation_over_tolerance", abs(g - o) / (2 * tol))
            if not abs(g - o) <= 2 * tol:
                ctx.fail("%s, row %d: %s is off by %.10g (specified %.10g)" % (where, i, name, g - o, w), case=c)
                return


def judge_criterion(ctx, c, where, value, loglik, specified):
    scale = max(1.0, abs(specified))
    if not abs(value - specified) <= 1e-9 * scale:
        ctx.fail("%s: criterion %.12g, specified %.12g" % (where, value, specified), case=c, loglik=loglik)


def run(ctx):
    quint.selftest(["fit"], ctx.scratch)
    ts = ctx.traces(quint.run("fitobj", step="stepTable", traces=ctx.n(16, 160), steps=6, seed=ctx.seed + 7,
                              invariants=["answersSane"], scratch=ctx.scratch))
    states = [s for t in ts for s in t[1:]]
    cases = []
    for s in states:
        c = case_of(s["tab"], [{"op": "dump"}, {"op": "criterion"}])
        # beyond the prior: the density object must not be left in maximum-likelihood mode
        c["probe"] = [1e6 * c["trace"][0][0]] + c["trace"][0][1:]
        c["strict"] = True
        cases.append(c)
    res = ctx.python("py_fit.py", {"seed": ctx.seed, "cases": cases}, allow_crash=True)
    if res is None:
        return
    ds = iter(quint.judge(["fit"], "", "derivedOf", [flat_theta(c, th) for c in cases for th in c["trace"]], ctx.scratch, "Derived"))
    orders, crit = set(), []
    for c, s, r in zip(cases, states, res):
        dd = [next(ds) for _ in c["trace"]]
        bad = r.get("exception") or next((o["exception"] for o in r["ops"] if "exception" in o), None)
        if bad:
            ctx.fail("building or reading the sample object failed: " + bad, case=c)
            continue
        d, n = r["ops"][0]["r"], len(c["trace"])
        if any(k not in d or len(d[k]["re"]) != n for k in ("loglik", "logpost")):
            ctx.fail("%s: log-likelihood or log-posterior missing or of the wrong size" % label(c), case=c)
            continue
        if r["probe"][0] > -1e300:
            ctx.fail("%s: after building the sample object the posterior no longer enforces its prior" % label(c), case=c)
        orders.add((c["p"], c["q"]))
        lps = [fx(x) for x in s["tab"]["lps"]]
        if any(not abs(a - b) <= 1e-11 * (1 + abs(b)) for a, b in zip(d["logpost"]["re"], lps)):
            ctx.fail("%s: stored log-posteriors %s are not those of the sampler %s" % (label(c), d["logpost"]["re"], lps), case=c)
        wants = []
        for i, lik in enumerate(s["liks"]):
            tol = tolerance(dd[i]["roots"], dd[i]["mac"], dd[i]["sigsqr"], lik, len(c["t"]))
            wants.append((fx(lik["ll"]), lps[i] - fx(lik["ll"]), tol))
        judge_rows(ctx, c, label(c), d["loglik"]["re"], d["logpost"]["re"], wants)
        if all(abs(x) < 1e12 for x in d["loglik"]["re"]):
            crit.append((c, label(c), r["ops"][1]["r"]["value"], d["loglik"]["re"]))
    ctx.validated(len(ts))

    runs = real_runs(ctx, ctx.n(8, 40), 2)
    items, back = [], []
    for c, r in runs:
        n = len(c["trace"])
        d = r["dump"]
        if any(k not in d or len(d[k]["re"]) != n for k in ("loglik", "logpost")):
            ctx.fail("run of %s: log-likelihood or log-posterior missing or of the wrong size" % label(c), case=c)
            continue
        pick = sorted({0, n - 1, n // 2, (ctx.seed * 7) % n})
        items += [flat_value(c, c["trace"][i]) for i in pick]
        back.append((c, r, pick))
        crit.append((c, "run of " + label(c), r["dic"], d["loglik"]["re"]))
    vs = iter(quint.judge(["fit"], "", "valueOf", items, ctx.scratch, "Value", name="runs"))
    ds = iter(quint.judge(["fit"], "", "derivedOf", [x[:3] + x[4 + 3 * x[3]:] for x in items], ctx.scratch, "Derived", name="der"))
    for c, r, pick in back:
        wants = []
        for i in pick:
            v, d = next(vs), next(ds)
            wants.append((fx(v["ll"]), fx(v["lp"]), tolerance(d["roots"], d["mac"], d["sigsqr"], v, len(c["t"]))))
        g = r["dump"]
        judge_rows(ctx, c, "run of " + label(c), [g["loglik"]["re"][i] for i in pick], [g["logpost"]["re"][i] for i in pick], wants)
    spec = quint.judge(["fit"], "", "criterionOf", [[tofx(x) for x in l] for _, _, _, l in crit], ctx.scratch, "int", name="dic")
    for (c, w, v, l), s in zip(crit, spec):
        judge_criterion(ctx, c, w, v, l, fx(s))
    ctx.cov["orders_covered"] = len(orders)
    ctx.cov["criteria"] = len(crit)
    ctx.need(len(orders) >= 12 and len(crit) > 40, "too few cases")
