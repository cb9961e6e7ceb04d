"""C14: the recorded chain is the temperature-one chain."""
from vlib import quint
from vlib.quint import ONE, fx, tofx
from . import runlib
from .chainlib import flat

ASSUMPTIONS = ["up to 18 chains, p up to 6, up to 60 iterations watched step by step",
               "exchange frequencies at 6.5 standard errors",
               "order of the steps within an iteration is not prescribed",
               "temperature of long runs from the virial of the mean, within 7 standard errors of batch means and 0.25"]


def run(ctx):
    quint.selftest(["tempered"], ctx.scratch)
    ts = ctx.traces(quint.run("temperedobj", traces=ctx.n(96, 800), steps=ctx.n(40, 80), seed=ctx.seed, invariants=["sane"],
                              scratch=ctx.scratch))
    runs = [t[0]["cfg"] for t in ts]
    exe = runlib.spy_driver()
    ctx.cov["steps_watched"] = 0
    if exe:
        watch(ctx, exe, runs)
    virial(ctx, exe or runlib.plain_driver(), runs)
    ctx.validated(len(ts))
    ctx.need(ctx.cov["runs_watched"] > 40 if ctx.cov["steps_watched"] else ctx.cov["temperatures"] >= 4, "too few runs")


def watch(ctx, exe, runs):
    lines = ["seed x %d" % (ctx.seed + 17)] + [runlib.line("r%d" % i, r) for i, r in enumerate(runs)]
    res = [r for r in ctx.drive(exe, lines) if r["op"] == "run"]
    items, plan, exch = [], [], []
    ladders = quint.judge(["tempered"], "", "ladderOf", [[k] for k in range(1, 1 + max(r["chains"] for r in runs))], ctx.scratch, "List[int]", name="ladder")
    for cfg, r in zip(runs, res):
        what, case = runlib.name(cfg), runlib.describe(cfg)
        if "exception" in r:
            ctx.fail("%s: %s" % (what, r["exception"]), **case)
            continue
        if not r["engaged"]:
            ctx.count("not_watched")
            continue
        ctx.count("runs_watched")
        K = cfg["chains"]
        if len(r["temps"]) != K:
            ctx.fail("%s: %d chains move" % (what, len(r["temps"])), **case)
            continue
        for i, (a, b) in enumerate(zip(r["temps"], ladders[K - 1])):
            if abs(a - fx(b)) > 1e-9 * fx(b):
                ctx.fail("%s: chain %d has temperature %.9g, specified %.9g" % (what, i, a, fx(b)), **case)
        if [int(x) for x in r["tracked"]] != [1] + [0] * (K - 1):
            ctx.fail("%s: recorded chains are %s" % (what, [t for t, x in zip(r["temps"], r["tracked"]) if x]), **case)
        w = 4 + K
        n = len(r["events"]) // w
        ctx.count("steps_watched", n)
        items.append([K, cfg["samples"], cfg["burnin"], cfg["thin"], n] + [int(x) for x in r["first"]] + [int(x) for x in r["events"]])
        plan.append((cfg, r))
        # the same vectors have the same density in every chain; the bound of the deviation is where it is specified
        d = r["density"]
        for k in range(r["probes"]):
            v = d[k * K:(k + 1) * K]
            if any(x != v[0] for x in v) and not all(abs(float(x) - float(v[0])) <= 1e-9 * (1 + abs(float(v[0]))) for x in v):
                ctx.fail("%s: chains disagree on the log-density of one vector: %s" % (what, v), **case)
                break
        nb = r["probes"] // 3
        for k in range(nb):
            lo, hi = d[(nb + 2 * k) * K], d[(nb + 2 * k + 1) * K]
            if not isinstance(hi, str):
                ctx.fail("%s: a deviation above ten times that of the data has log-density %s" % (what, hi), **case)
            elif isinstance(lo, str):
                ctx.fail("%s: a deviation just below ten times that of the data has log-density %s" % (what, lo), **case)
        # decisions of the exchanges
        ids, lds = r["first"], r["firstlds"]
        for j in range(n):
            e = r["events"][j * w:(j + 1) * w]
            i, now = int(e[1]), e[4:]
            if e[0] and 0 < i < K and not isinstance(lds[i], str) and not isinstance(lds[i - 1], str) and len(exch) < ctx.n(3000, 40000):
                if ids[i] != ids[i - 1]:
                    exch.append(([ladders[K - 1][i], ladders[K - 1][i - 1]] + flat(lds[i]) + flat(lds[i - 1]), now[i] != ids[i], what, case))
            ids, lds = now, r["lds"][j * K:(j + 1) * K]
    for (cfg, r), v in zip(plan, quint.judge(["tempered"], "", "runVerdictOf", items, ctx.scratch, "Verdict", name="verdict")):
        what, case = runlib.name(cfg), runlib.describe(cfg)
        ctx.samples()
        if v["why"]:
            ctx.fail("%s: step call %d is %s" % (what, v["at"], v["why"]), **case)
        elif not v["done"]:
            ctx.fail("%s: the run ends after %d step calls, within an iteration or with a wrong number of iterations" % (what, v["at"]), **case)
        elif [int(x) for x in r["recorded"]] != v["recorded"]:
            ctx.fail("%s: the recorded values are not those of the chain of temperature one" % what, recorded=r["recorded"],
                     specified=v["recorded"], **case)
    ps = quint.judge(["accept"], "", "exchangeProbOf", [x[0] for x in exch], ctx.scratch, "int", name="exch")
    strata = {}
    for (x, sw, what, case), p in zip(exch, ps):
        p /= ONE
        ctx.count("exchanges")
        if (p == 1 and not sw) or (p < 1e-12 and sw):
            ctx.fail("%s: an exchange of probability %.3g was %s" % (what, p, "made" if sw else "not made"), **case)
        b = strata.setdefault(int(p * 5), [0.0, 0.0, 0])
        b[0] += sw - p
        b[1] += p * (1 - p)
        b[2] += 1
    for k, (d, v, n) in strata.items():
        if abs(d) > 6.5 * v ** 0.5 + 6:
            ctx.fail("exchanges of probability about %.1f: %+.0f of %d beyond the expectation" % (k / 5 + 0.1, d, n))


def virial(ctx, exe, runs):
    """The average of -(mean - reference) times the derivative of the log-density is the temperature."""
    sel, lines = [], ["seed x %d" % (ctx.seed + 23)]
    wanted = [1, 2, 3, 5, 8]
    for k in wanted[:ctx.n(3, 5)]:
        for kind in ("car", "carma"):
            c = [r for r in runs if r["post"]["kind"] == kind and r["post"]["p"] == 2 and max(x["e"] for x in r["post"]["rows"]) < ONE]
            if c:
                r = dict(c[k % len(c)], chains=k, thin=3)
                sel.append(r)
                lines.append(runlib.line("v%d" % len(sel), r, virial=1, samples=8000, burnin=1000))
    for r, x in zip(sel, [x for x in ctx.drive(exe, lines) if x["op"] == "run"]):
        if "exception" in x:
            ctx.fail("%s: %s" % (runlib.name(r), x["exception"]), **runlib.describe(r))
            continue
        b = [float(v) for v in x["virial"]]
        m = sum(b) / len(b)
        se = (sum((v - m) ** 2 for v in b) / (len(b) - 1) / len(b)) ** 0.5
        ctx.count("temperatures")
        ctx.cov.setdefault("virial_temperatures", []).append([round(m, 3), round(se, 3)])
        if abs(m - 1) > 7 * se + 0.25:
            ctx.fail("%s: the recorded chain has temperature %.3f +- %.3f" % (runlib.name(r), m, se), **runlib.describe(r))
