"""C15: every returned sample carries its own log-posterior."""
import math

from vlib import quint
from vlib.quint import fx, fxl, tofx
from . import runlib
from .postlib import density_tolerance

ASSUMPTIONS = ["p up to 6, up to 10 chains, 1 to 49 samples, burn-in below 200, thinning up to 5",
               "log-posterior of the specification up to one additive constant per data set"]
KINDS = ["car1", "car", "carma", "zcar"]


def run(ctx):
    quint.selftest(["tempered"], ctx.scratch)
    ts = ctx.traces(quint.run("temperedobj", traces=ctx.n(160, 1200), steps=2, seed=ctx.seed, invariants=["sane", "startInside"], scratch=ctx.scratch))
    ts += ctx.traces(quint.run("temperedobj", init="initLong", traces=ctx.n(160, 1200), steps=2, seed=ctx.seed, invariants=["sane", "startInside"],
                               scratch=ctx.scratch))
    runs = [t[0]["cfg"] for t in ts]
    lines = ["seed x %d" % (ctx.seed + 19)] + [runlib.line("r%d" % i, r) for i, r in enumerate(runs)]
    res = [r for r in ctx.drive(runlib.plain_driver(), lines) if r["op"] == "run"]
    groups = [("library", r, x) for r, x in zip(runs, res)]
    some = runs[::2]
    py = ctx.python("py_runs.py", [runlib.describe(r) | dict(zip("tye", ([fx(x[k]) for x in r["post"]["rows"]] for k in "tye")))
                                   for r in some], allow_crash=True)
    groups += [("wrapper", r, x) for r, x in zip(some, py or [])]
    items, info, kinds = [], [], {}
    for g, (via, cfg, r) in enumerate(groups):
        what, case, o = "%s (%s)" % (runlib.name(cfg), via), runlib.describe(cfg), cfg["post"]
        if "exception" in r:
            ctx.fail("%s: %s" % (what, r["exception"]), **case)
            continue
        if via == "wrapper" and not r["intact"]:
            ctx.fail("%s: the arrays of the caller were changed" % what, **case)
        kinds[(o["kind"], o["p"])] = 1
        dim = 3 + o["p"] + o["q"]
        n = cfg["samples"]
        if len(r["lens"]) != n or len(r["lls"]) != n or any(x != dim for x in r["lens"]):
            ctx.fail("%s: %d samples of lengths %s with %d log-densities, expected %d of length %d"
                     % (what, len(r["lens"]), sorted(set(r["lens"])), len(r["lls"]), n, dim), **case)
            continue
        for i in range(n):
            ctx.samples()
            th = r["theta"][i * dim:(i + 1) * dim]
            a, b = float(r["lls"][i]), float(r["again"][i])
            if not math.isfinite(a) or not abs(a - b) <= 1e-8 * (1 + abs(b)):
                ctx.fail("%s: sample %d is stored with log-posterior %r, evaluating it gives %r" % (what, i, a, b), theta=th, **case)
                break
            if any(isinstance(x, str) for x in th):
                ctx.fail("%s: sample %d is not finite" % (what, i), theta=th, **case)
                break
            # first, last and one in the middle, each distinct value once
            if i in (0, n // 2, n - 1) and (i == 0 or th != prev):
                rows = [v for x in o["rows"] for v in (x["t"], x["y"], x["e"])]
                items.append([KINDS.index(o["kind"]), o["p"], o["q"], len(o["rows"])] + rows + [tofx(v) for v in th])
                info.append((g, what, cfg, th, a))
                prev = th
    out = quint.judge(["carma", "posterior", "tempered"], "", "sampleOf", items, ctx.scratch, "Sample", name="smp")
    consts = {}
    for (g, what, cfg, th, a), v in zip(info, out):
        ctx.count("judged_by_specification")
        case = runlib.describe(cfg)
        if v["broken"]:
            ctx.fail("%s: sample outside the prior support (%d conditions)" % (what, v["broken"]), theta=th, **case)
            continue
        tol = density_tolerance({"lik": v["lik"], "roots": v["roots"], "ma": v["ma"], "sigsqr": v["sigsqr"], "post": cfg["post"],
                                 "theta": [tofx(x) for x in th]})
        if tol is None:
            ctx.count("ill_conditioned")
            continue
        d = a - fx(v["lp"] + v["lik"]["ll"])
        # the constant depends on the number of measurements only
        c = consts.setdefault(len(cfg["post"]["rows"]), [d, tol])
        if abs(d - c[0]) > tol + c[1]:
            ctx.fail("%s: log-posterior %.10g is %.3g away from the specified one" % (what, a, d - c[0]), theta=th, **case)
        if tol < c[1]:
            consts[len(cfg["post"]["rows"])] = [d, tol]
        ctx.count("log_posteriors_compared")
    ctx.validated(len(ts))
    ctx.cov["models"] = len(kinds)
    ctx.need(len(kinds) >= 10 and ctx.cov.get("log_posteriors_compared", 0) > 100, "too few runs")
