"""C12: exchanges between neighbouring chains."""
from vlib import build, quint
from vlib.quint import ONE, fx, tofx
from . import chainlib
from .filterlib import vec

ASSUMPTIONS = ["chains of finite log-density; ladders of up to 5 chains with any positive temperatures",
               "frequencies at 6.5 standard errors"]


def run(ctx):
    exe = build.driver("drv_engine")
    cases = [c for c in chainlib.schedules(ctx, "step", "init", ctx.n(64, 640), 12) if len(c[0]) > 1]
    reps, full = ctx.n(1500, 4000), 4
    lines = ["seed x %d" % (ctx.seed + 1)]
    lines += [chainlib.line("v%d" % i, "vec", s, o, reps, full) for i, (s, o) in enumerate(cases)]
    # the same rule on ensembles of real posteriors
    ts = ctx.traces(quint.run("posteriorobj", step="stepStart", traces=ctx.n(8, 60), steps=4, seed=ctx.seed + 5,
                              invariants=["answersSane"], scratch=ctx.scratch))
    real = [s["ev"] for t in ts for s in t if s["ev"]["op"] == "start" and s["ev"]["post"]["kind"] in ("car", "carma")]
    rp = []
    for k, ev in enumerate(real):
        o = ev["post"]
        temps = [1.0, 2.5, 6.0, 40.0][:2 + k % 3]
        t, y, e = ([fx(r[c]) for r in o["rows"]] for c in ("t", "y", "e"))
        q = o["q"] if o["kind"] == "carma" else 0
        lines.append("realexchange r%d %d %d %d %s %s %s %s" % (k, o["p"], q, 60, vec(temps), vec(t), vec(y), vec(e)))
        rp.append((o, temps))
    allres = ctx.drive(exe, lines)
    chainlib.judge(ctx, cases, [r for r in allres if r["op"] == "chain"], full)
    items, obs = [], []
    for (o, temps), r in zip(rp, [r for r in allres if r["op"] == "realexchange"]):
        if "exception" in r:
            ctx.fail("%s p=%d q=%d ensemble: exchange raised %s" % (o["kind"], o["p"], o["q"], r["exception"]))
            continue
        rec = r["rec"]
        for j in range(0, len(rec), 6):
            i, lh, lc, sw, ratio, faults = rec[j:j + 6]
            if faults:
                ctx.fail("%s p=%d q=%d ensemble: after an exchange %d chains hold a wrong value, log-density or temperature"
                         % (o["kind"], o["p"], o["q"], faults), temps=temps)
                break
            if isinstance(lh, str) or isinstance(lc, str):
                continue
            i = int(i)
            items.append([tofx(temps[i]), tofx(temps[i - 1])] + chainlib.flat(lh) + chainlib.flat(lc))
            obs.append((sw, ratio, lh, lc, temps[i], temps[i - 1]))
    d = v = 0.0
    ps = quint.judge(["accept"], "", "exchangeProbOf", items, ctx.scratch, "int", name="real")
    for (sw, ratio, lh, lc, th, tc), p in zip(obs, ps):
        p /= ONE
        ctx.count("real_exchanges")
        if abs(min(1.0, float(ratio)) - p) > 1e-7:
            ctx.fail("posterior ensemble: reported exchange probability %.9g, specified %.9g" % (float(ratio), p),
                     hot=lh, cold=lc, temps=[th, tc])
        if (p < 1e-15 and sw) or (p == 1 and not sw):
            ctx.fail("posterior ensemble: exchange %s with probability %g" % ("made" if sw else "refused", p), hot=lh, cold=lc, temps=[th, tc])
        d += sw - p
        v += p * (1 - p)
    if abs(d) > 6.5 * v ** 0.5 + 12:
        ctx.fail("posterior ensemble: %+.0f exchanges beyond the expectation" % d)
    ctx.need(ctx.cov.get("decisions_exchange", 0) > 300, "too few exchanges")
    ctx.need(ctx.cov.get("real_exchanges", 0) > 200, "too few exchanges of posteriors")
