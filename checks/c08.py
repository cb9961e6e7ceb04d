"""C08: parameters decode to the roots, MA polynomial and amplitude they stand for."""
from vlib import build, quint
from vlib.quint import fx, fxl
from .filterlib import Units, vec, cancellation
from .postlib import in_units, post_line, change_line, describe

ASSUMPTIONS = ["roots are compared as a set; p <= 7", "lags up to 100 time units"]


def match(spec, got, tol):
    """Largest distance of a one-to-one matching of the roots, or None."""
    left, worst = list(got), 0.0
    if len(spec) != len(got):
        return None
    for s in spec:
        b = min(left, key=lambda g: abs(g - s))
        worst = max(worst, abs(b - s) / abs(s))
        left.remove(b)
    return worst if worst <= tol else None


def spread(roots):
    """Allowed relative deviation of the roots: the smaller root of a factor is a difference of larger numbers."""
    sizes = [abs(r) for r in roots]
    return 1e-9 + 3e-15 * max(sizes) / min(sizes)


def run(ctx):
    exe = build.driver("drv_model")
    quint.selftest(["carma", "posterior"], ctx.scratch)
    ts = ctx.traces(quint.run("posteriorobj", step="stepDecode", traces=ctx.n(480, 3000), steps=12, seed=ctx.seed,
                              invariants=["answersSane"], scratch=ctx.scratch))
    lines, plan = [], []
    for t in ts:
        for s in t:
            ev = s["ev"]
            o = ev["post"]
            u = Units(o["units"])
            re, im = u.rates(r[0] for r in ev["roots"]), u.rates(r[1] for r in ev["roots"])
            if ev["op"] == "new":
                lines.append(post_line("o", o))
            elif ev["op"] == "decode":
                lines.append("%s o %s" % ("decode1" if o["kind"] == "car1" else "decode", vec(in_units(o, ev["theta"]))))
                plan.append(ev)
                if o["kind"] != "car1":
                    lines.append("acvf o %s %s %s %.17g %s" % (
                        vec(re), vec(im), vec(u.ma(ev["ma"]) + [0.0] * (o["p"] - len(ev["ma"]))),
                        u.noise(ev["sigsqr"], o["p"]) ** 0.5, vec(u.times(ev["lags"]))))
                    lines.append("polycoefs o %s %s" % (vec(re), vec(im)))
            else:
                lines.append(change_line("o", ev))
    res = iter([r for r in ctx.drive(exe, lines) if r["op"] in ("decode", "decode1", "acvf", "polycoefs")])
    kinds = {}
    for ev in plan:
        o = ev["post"]
        r = next(res, None)
        a = next(res, None) if o["kind"] != "car1" else {}
        c = next(res, None) if o["kind"] != "car1" else {}
        if r is None or a is None or c is None:
            return
        bad = [x["exception"] for x in (r, a, c) if "exception" in x]
        if bad:
            ctx.fail("decoding raised " + bad[0], case=describe(ev))
            continue
        name = "%s p=%d q=%d" % (o["kind"], o["p"], o["q"])
        kinds[(o["kind"], o["p"], o["q"])] = 1
        ctx.count("very_different_scales", int(ev["tag"] == "wide"))
        ctx.samples()
        u = Units(o["units"])
        sig = u.noise(ev["sigsqr"], o["p"])
        if o["kind"] == "car1":
            w = -u.rates([ev["roots"][0][0]])[0]
            if not abs(float(r["omega"]) / w - 1) < 1e-9 or not abs(float(r["sigsqr"]) / sig - 1) < 1e-9:
                ctx.fail("%s: decoded (omega, sigma^2) = (%s, %s), specified (%.12g, %.12g)" % (name, r["omega"], r["sigsqr"], w, sig), case=describe(ev))
            continue
        spec = [complex(fx(x), fx(y)) / u.T for x, y in ev["roots"]]
        got = [complex(float(x), float(y)) for x, y in zip(r["re"], r["im"])]
        if match(spec, got, spread(spec)) is None:
            ctx.fail("%s: decoded roots %s, specified %s" % (name, got, spec), case=describe(ev))
            continue
        ma = u.ma(ev["ma"])
        ma += [0.0] * (o["p"] - len(ma))
        gma = [float(x) for x in r["ma"]]
        gma += [0.0] * (o["p"] - len(gma))
        if any(not abs(x - y) <= 1e-9 * abs(y) for x, y in zip(gma, ma)):
            ctx.fail("%s: decoded MA coefficients %s, specified %s" % (name, gma, ma), case=describe(ev))
            continue
        chi = cancellation(ev["roots"], ev["ma"], ev["acov"][0], ev["sigsqr"])
        if chi > 1e7:
            ctx.count("ill_conditioned_skipped")
            continue
        tol = 1e-8 + 1e-13 * chi
        if not abs(float(r["sigsqr"]) / sig - 1) <= tol:
            ctx.fail("%s: decoded sigma^2 %s, specified %.12g" % (name, r["sigsqr"], sig), case=describe(ev))
        v0 = fx(ev["acov"][0])
        for lag, x, g in zip([0.0] + fxl(ev["lags"]), [v0] + fxl(ev["acov"]), [u.var(a["var"])] + [u.var(z) for z in a["acvf"]]):
            ctx.maxi("max_deviation_over_tolerance", abs(g - x) / v0 / tol)
            if not abs(g - x) <= tol * v0:
                ctx.fail("%s: autocovariance at lag %g is %.12g, specified %.12g" % (name, lag, g, x), case=describe(ev))
                break
        # monic polynomial, highest power first
        ar = [1.0]
        for z in spec:
            ar = [u - z * v for u, v in zip(ar + [0], [0] + ar)]
        gc = [float(x) for x in c["coefs"]]
        if len(gc) != len(ar) or any(not abs(x - y.real) <= 1e-9 * abs(y) for x, y in zip(gc, [complex(z) for z in ar])):
            ctx.fail("%s: polynomial of the roots %s, specified %s" % (name, gc, [complex(z).real for z in ar]), case=describe(ev))
    ctx.validated(len(ts))
    ctx.cov["models_covered"] = len(kinds)
    ctx.need(len(kinds) >= 24, "too few models")
