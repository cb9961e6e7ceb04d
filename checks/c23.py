"""C23: power spectrum, autocovariance and roots of a process."""
from vlib import quint
from vlib.quint import fx, fxl
from .filterlib import cancellation

ASSUMPTIONS = ["p <= 7, frequencies up to 8, lags up to ten time units",
               "relative tolerance 1e-8 for spectra, widened by the cancellation error for autocovariances"]


def run(ctx):
    quint.selftest(["process"], ctx.scratch)
    ts = ctx.traces(quint.run("process", step="stepFunctions", traces=ctx.n(120, 600), steps=12, seed=ctx.seed,
                              invariants=["processSane"], scratch=ctx.scratch))
    evs = [s["ev"] for t in ts for s in t[1:]]
    cases = []
    for k, ev in enumerate(evs):
        m = ev["model"]
        if ev["op"] == "functions":
            cases.append({"op": "functions", "roots": [fxl(z) for z in m["roots"]], "ar": fxl(m["ar"])[::-1], "ma": fxl(m["ma"]),
                          "units": ev["units"], "sigsqr": fx(m["sigsqr"]), "freqs": fxl(ev["freqs"]), "lags": fxl(ev["lags"])})
        else:
            cases.append({"op": "roots", "widths": fxl(ev["widths"]), "cents": fxl(ev["cents"]), "arrays": k % 2 == 0, "units": ev["units"]})
    res = ctx.python("py_process.py", {"seed": ctx.seed, "cases": cases}, allow_crash=True)
    orders, shapes = set(), set()
    for c, ev, r in zip(cases, evs, res or []):
        if "exception" in r:
            ctx.fail("%s failed: %s" % (c["op"], r["exception"]), case=c)
            continue
        ctx.samples()
        if not r["intact"]:
            ctx.fail("%s modified its arguments" % c["op"], case=c)
        if c["op"] == "roots":
            shapes.add((len(c["widths"]) - len(c["cents"]), 0.0 in c["cents"]))
            left = [complex(fx(a), fx(b)) for a, b in ev["roots"]]
            got = [complex(*z) for z in r["roots"]]
            for z in got:
                best = min(left, key=lambda w: abs(w - z), default=None)
                if best is None or not abs(best - z) <= 1e-12 * abs(best):
                    ctx.fail("roots of widths %s and centroids %s are %s" % (c["widths"], c["cents"], got), case=c)
                    break
                left.remove(best)
            else:
                if left:
                    ctx.fail("roots %s missing for widths %s and centroids %s" % (left, c["widths"], c["cents"]), case=c)
            continue
        p, q = len(c["roots"]), len(c["ma"]) - 1
        orders.add((p, q))
        for name in ("power", "power1", "power0"):
            if name not in r:
                continue
            for f, g, w in zip(c["freqs"], r[name], fxl(ev["power"])):
                s = 2 * 3.141592653589793 * f
                top = sum(abs(b) * s ** i for i, b in enumerate(c["ma"]))
                bot = sum(a * s ** (p - i) * 1j ** (p - i) for i, a in enumerate(c["ar"]))
                big = sum(abs(a) * s ** (p - i) for i, a in enumerate(c["ar"]))
                # size of the terms that may cancel in numerator and denominator
                tol = 1e-9 * c["sigsqr"] * top ** 2 / abs(bot) ** 2 * (big / abs(bot)) + 1e-32
                ctx.maxi("max_deviation_over_tolerance", abs(g - w) / tol)
                if not abs(g - w) <= tol:
                    ctx.fail("p=%d q=%d: power at %.6g is %.12g, specified %.12g" % (p, q, f, g, w), case=c)
                    break
        canc = cancellation(ev["model"]["roots"], ev["model"]["ma"], ev["r0"], ev["model"]["sigsqr"])
        if canc * 2.3e-16 > 1e-9:
            ctx.count("ill_conditioned_skipped")
            continue
        tol = (1e-9 + 1e4 * 2.3e-16 * canc) * fx(ev["r0"])
        for name in ("acov", "acov1", "acov0"):
            for l, g, w in zip(c["lags"], r.get(name, []), fxl(ev["acov"])):
                ctx.maxi("max_deviation_over_tolerance", abs(g - w) / tol)
                if not abs(g - w) <= tol:
                    ctx.fail("p=%d q=%d: autocovariance at lag %.6g is %.12g, specified %.12g" % (p, q, l, g, w), case=c)
                    break
        if not abs(r["var0"] - fx(ev["r0"])) <= tol:
            ctx.fail("p=%d q=%d: variance %.12g, specified %.12g" % (p, q, r["var0"], fx(ev["r0"])), case=c)
    ctx.validated(len(ts))
    ctx.cov["orders_covered"] = len(orders)
    ctx.need(len(orders) >= 20 and len(shapes) == 4, "orders %d shapes %s" % (len(orders), shapes))
