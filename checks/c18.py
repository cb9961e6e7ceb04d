"""C18: random variates follow their documented distributions."""
from vlib import build, quint
from vlib.quint import fx, fxl
from .filterlib import vec
from .variatelib import compare

ASSUMPTIONS = ["frequencies at 6.5 standard errors",
               "stubs of the library that return nothing (beta, weibull, multivariate t) are left out"]


def pars(law, ev):
    w = ev["powers"] or [0, 0, 0]
    return " ".join("%.17g" % (fx(law[c]) * 2.0 ** (ev["unit"] * k)) for c, k in zip("abc", w))


def run(ctx):
    exe = build.driver("drv_engine")
    quint.selftest(["laws"], ctx.scratch)
    ts = ctx.traces(quint.run("variates", step="step", traces=ctx.n(24, 240), steps=10, seed=ctx.seed,
                              invariants=["sane"], scratch=ctx.scratch))
    evs = [s["ev"] for t in ts for s in t[1:]]
    n = ctx.n(20000, 60000)
    lines, plan = ["seed x %d" % (ctx.seed + 11)], []
    for k, ev in enumerate(evs):
        u = 2.0 ** ev["unit"]
        l, o = ev["law"], ev["other"]
        if ev["op"] == "variate":
            lines.append("var v%d %s %s %s %d %d %s" % (
                k, l["name"], pars(l, ev), pars(o, ev), n, k % 2, vec([x * u for x in fxl(ev["xs"])])))
        else:
            d = len(ev["sigma"])
            lines.append("mvn m%d %d %s %s %d %d %s" % (
                k, d, " ".join("%.17g" % (fx(x) * u * u) for r in ev["sigma"] for x in r), " ".join(["0"] * d), n, len(ev["ws"]),
                " ".join(" ".join("%.17g" % fx(x) for x in w) + " " + vec([x * u for x in fxl(g)]) for w, g in zip(ev["ws"], ev["gs"]))))
        plan.append(ev)
    res = [r for r in ctx.drive(exe, lines) if r["op"] in ("var", "mvn")]
    laws = {}
    for ev, r in zip(plan, res):
        name = ev["law"]["name"]
        par = fxl([ev["law"][c] for c in "abc"])
        what = "%s(%s)%s" % (name, ", ".join("%g" % p for p in par), " in units of 2^%d" % ev["unit"] if ev["unit"] else "") if ev["op"] == "variate" else "multivariate normal of dimension %d" % len(ev["sigma"])
        if "exception" in r:
            ctx.fail(what + " raised " + r["exception"])
            continue
        if r["bad"]:
            ctx.fail("%s: %d draws are not finite" % (what, r["bad"]))
            continue
        laws[name] = laws.get(name, 0) + 1
        ctx.samples(n)
        ps = ev["ps"] if ev["op"] == "variate" else ev["qs"] * len(ev["ws"])
        compare(ctx, what, n, ps, r["one"], r["two"], dict(parameters=par, grid=fxl(ev["xs"]),
                                                            covariance=[fxl(x) for x in ev["sigma"]]))
    ctx.validated(len(ts))
    ctx.cov["laws"] = len(laws)
    ctx.need(len(laws) == 12, "a law was never drawn from: %s" % laws)
