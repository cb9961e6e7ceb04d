"""C16: the density a proposal reports agrees with how it draws."""
from vlib import build, quint
from vlib.quint import ONE, fx, fxl, tofx
from .filterlib import vec
from .variatelib import compare

ASSUMPTIONS = ["frequencies at 6.5 standard errors", "stretch moves of up to 26 members in up to 5 dimensions"]
KINDS = ["normal", "student", "lognormal"]


def run(ctx):
    exe = build.driver("drv_engine")
    quint.selftest(["laws"], ctx.scratch)
    ts = ctx.traces(quint.run("variates", step="stepPropose", traces=ctx.n(24, 240), steps=9, seed=ctx.seed,
                              invariants=["sane"], scratch=ctx.scratch))
    evs = [s["ev"] for t in ts for s in t[1:]]
    n, nrec = ctx.n(20000, 60000), 12
    lines = ["seed x %d" % (ctx.seed + 13)]
    for k, ev in enumerate(evs):
        u = 2.0 ** ev["unit"]
        xs = vec(fxl(ev["xs"]))
        if ev["op"] == "stretch":
            d, m = len(ev["sigma"][0]), len(ev["sigma"])
            a = fx(ev["start"][0])
            how = "default" if a == 2.0 and k % 2 else ["ctor", "set"][k % 2]
            lines.append("stretch s%d %d %d %d %.17g %s %s %d %d %s" % (
                k, d, m, ev["index"], a, how, " ".join("%.17g" % (fx(x) * u) for r in ev["sigma"] for x in r), n, nrec, xs))
        elif ev["law"]["name"] == "multinormal":
            d = len(ev["sigma"])
            lines.append("mvnprop m%d %d %s %s %d %d %s" % (
                k, d, " ".join("%.17g" % (fx(x) * u * u) for r in ev["sigma"] for x in r), " ".join("%.17g" % (fx(x) * u) for x in ev["start"]),
                n, len(ev["ws"]),
                " ".join(" ".join("%.17g" % fx(x) for x in w) + " " + vec([x * u for x in fxl(g)]) for w, g in zip(ev["ws"], ev["gs"]))))
        else:
            o = ev["other"]
            # the scale, the start and the thresholds are in the unit; degrees of freedom and the log-scale have none
            lines.append("prop p%d %s %.17g %.17g %.17g %d %d %s" % (
                k, o["name"], fx(o["a"]) * (u if o["name"] == "normal" else 1.0), fx(o["b"]) * u, fx(ev["start"][0]) * u, n, nrec,
                vec([x * u for x in fxl(ev["xs"])])))
    res = [r for r in ctx.drive(exe, lines) if r["op"] in ("stretch", "mvnprop", "prop")]
    moves, stretches, kinds = [], [], {}
    for ev, r in zip(evs, res):
        name = "stretch" if ev["op"] == "stretch" else ev["law"]["name"]
        case = dict(start=fxl(ev["start"]), law=ev["law"], sigma=[fxl(x) for x in ev["sigma"]], grid=fxl(ev["xs"]))
        if "exception" in r:
            ctx.fail("%s proposal raised %s" % (name, r["exception"]), **case)
            continue
        if r["bad"]:
            ctx.fail("%s proposal: %d draws are not finite" % (name, r["bad"]), **case)
            continue
        kinds[name] = kinds.get(name, 0) + 1
        ctx.samples(n)
        if name == "stretch":
            d, m = len(ev["sigma"][0]), len(ev["sigma"])
            rec = r["rec"]
            for j in range(0, len(rec), 3 + d):
                if d > 1 or m == 2:
                    stretches.append((ev, [d, tofx(rec[j + 2])], rec[j], case))
                elif abs(rec[j]) > 1e-9:
                    ctx.fail("stretch proposal in one dimension reports the correction %g" % rec[j], **case)
            if d > 1 or m == 2:
                if r["worst"] > 1e-9:
                    ctx.fail("stretch proposal off the lines through the other members (distance %g)" % r["worst"], **case)
                    continue
                compare(ctx, "scale of a stretch move", n, ev["ps"], r["one"], r["two"], case)
                p = 1.0 / (m - 1)
                for k in range(m):
                    if k != ev["index"] and abs(r["picks"][k] - n * p) > 6.5 * (n * p * (1 - p)) ** 0.5 + 12 * (m > 2):
                        ctx.fail("stretch proposal chose member %d in %d of %d draws, expected 1 in %d"
                                 % (k, r["picks"][k], n, m - 1), **case)
                        break
        elif name == "multinormal":
            compare(ctx, "multivariate normal proposal", n, ev["qs"] * len(ev["ws"]), r["one"], r["two"], case)
            if r["correction"] > 1e-9:
                ctx.fail("multivariate normal proposal reports the correction %g" % r["correction"], **case)
        else:
            compare(ctx, name + " proposal", n, ev["ps"], r["one"], r["two"], case)
            o = ev["other"]
            for j in range(0, len(r["rec"]), 2):
                moves.append((name, [KINDS.index(o["name"]), o["a"], o["b"], ev["start"][0], tofx(r["rec"][j] / 2.0 ** ev["unit"])], r["rec"][j + 1], case))
    for (name, x, got, case), want in zip(moves, quint.judge(["laws"], "", "correctionOf", [m[1] for m in moves], ctx.scratch, "int", name="corr")):
        ctx.count("corrections")
        if abs(got - want / ONE) > 1e-8 * (1 + abs(got)):
            ctx.fail("%s proposal from %g to %g: correction %.9g, specified %.9g" % (name, fx(x[3]), fx(x[4]), got, want / ONE), **case)
    for (ev, x, got, case), want in zip(stretches, quint.judge(["laws"], "", "stretchCorrection", [m[1] for m in stretches], ctx.scratch, "int", name="scorr")):
        ctx.count("corrections")
        if abs(got - want / ONE) > 1e-6 * (1 + abs(got)):
            ctx.fail("stretch proposal in %d dimensions with scale %.9g: correction %.9g, specified %.9g"
                     % (x[0], fx(x[1]), got, want / ONE), **case)
    ctx.validated(len(ts))
    ctx.need(len(kinds) == 5, "a kind of proposal was never used")
