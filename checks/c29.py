"""C29: the figure of the quality of a fit."""
from vlib import quint
from vlib.quint import fx, fxl
from .filterlib import MAXROUND
from .fitlib import case_of, label, predict_rounding, predict_scales

ASSUMPTIONS = ["tables of at most 7 rows, 3 to 9 or 50 to 58 measurements, p <= 6",
               "read off the drawn lines, segments, areas and bars, wherever in the figure they are",
               "horizontal position and common scale of the histogram are left open"]


def same(a, b, tol):
    return len(a) == len(b) and all(abs(x - y) <= tol for x, y in zip(a, b))


def line_in(axes, xs, ys, xtol, ytol):
    return any(same(x, xs, xtol) and same(y, ys, ytol) for ax in axes for x, y in ax["lines"])


def contour(area, xs, lo, hi, xtol, ytol):
    """whether a filled area has the given lower and upper edge"""
    pts = [(x, y) for x, l, h in zip(xs, lo, hi) for y in (l, h)]
    def on(p, q):
        return abs(p[0] - q[0]) <= xtol and abs(p[1] - q[1]) <= ytol
    return all(any(on(p, q) for q in area) for p in pts) and all(any(on(p, q) for p in pts) for q in area)


def acf_in(axes, acf, tol):
    """axes that show the autocorrelations at the lags 0, 1, ... as vertical lines from zero"""
    for ax in axes:
        got = {}
        for sg in ax["segments"]:
            (x0, y0), (x1, y1) = sg[0], sg[-1]
            if x0 == x1 and min(abs(y0), abs(y1)) == 0.0:
                got[x0] = y0 + y1
        if set(got) >= set(range(len(acf))) and max(got) == len(acf) - 1:
            if all(abs(got[k] - w) <= tol and abs(got.get(-k, w) - w) <= tol for k, w in enumerate(acf)):
                return ax
    return None


def judge(ctx, c, ev, tab, d):
    a, axes = ev["ass"], d["axes"]
    T, F = d["T"], d["F"]
    ys, r0 = predict_scales(ev, tab)
    tol = 1e-7 + 1e4 * predict_rounding(ev)
    mu, span = abs(fx(ev["mu"])), (c["t"][-1] - c["t"][0]) * T
    vmin = max(fx(ev["reply"]["vmin"]), 1e-30)
    big = max(abs(t) for t in c["t"]) * T
    xtol = 1e-9 * span + 1e-12 * big
    ytol = tol * (ys + mu) * F
    t, y = [x * T for x in c["t"]], [x * F for x in c["y"]]
    if not line_in(axes, t, y, 1e-12 * big, 1e-12 * (ys + mu) * F):
        return "the measurements are not shown"
    grid = [x * T for x in fxl(a["grid"])]
    mean, vs = fxl(a["law"]["mean"]), fxl(a["law"]["vars"])
    if not line_in(axes, grid, [m * F for m in mean], xtol, ytol):
        return "the interpolation at %d even times from the first to the last measurement is not shown" % len(grid)
    sd = [max(v, 0.0) ** 0.5 for v in vs]
    # the root of a vanishing variance is known to the root of its error only
    stol = ytol + (tol * r0) ** 0.5 * F
    if not any(contour(ar, grid, [(m - s) * F for m, s in zip(mean, sd)], [(m + s) * F for m, s in zip(mean, sd)], xtol, stol)
               for ax in axes for ar in ax["areas"]):
        return "the band of one standard deviation about the interpolation is not shown"
    res = fxl(a["resid"])
    rtol = tol * (1.0 + (ys + mu) / vmin ** 0.5 + max(abs(r) for r in res))
    if rtol > 1e-3:
        ctx.count("residuals_ill_conditioned")
        return None
    if not line_in(axes, t, res, 1e-12 * big, rtol):
        return "the standardized residuals %s are not shown" % res[:4]
    lo, hi = min(res), max(res)
    w = (hi - lo) / 10
    if all(abs((r - lo) / w - round((r - lo) / w)) * w > 10 * rtol or r in (lo, hi) for r in res):
        edges = [lo + k * w for k in range(10)]
        found = False
        for ax in axes:
            b = sorted(ax["bars"], key=lambda x: x[1])
            if len(b) != 10 or not line_in([ax], t, res, 1e-12 * big, rtol):
                continue
            # drawn centred on the left edge of each bin, or from it
            at = any(same([x[1] + f * x[3] for x in b], edges, 1e-6 * w + 10 * rtol) for f in (0.0, 0.5))
            top = max((x[2] for x in b), key=abs)
            found = at and top != 0 and same([x[2] / top for x in b], [n / max(a["counts"]) for n in a["counts"]], 1e-9)
        if not found:
            return "the histogram of the residuals is not that of %s" % a["counts"]
        ctx.count("histograms")
    r2 = sum(r * r for r in res)
    atol = 1e-9 + 20 * len(res) * rtol * max(abs(r) for r in res) / r2
    ax1 = acf_in(axes, fxl(a["acf"]), atol)
    if ax1 is None and atol < 1e-3:
        return "the autocorrelation of the residuals is not shown: %s" % fxl(a["acf"])[:4]
    m2 = r2 / len(res)
    s4 = sum((r * r - m2) ** 2 for r in res)
    btol = 1e-9 + 80 * len(res) * rtol * max(abs(r) for r in res) ** 3 / s4 if s4 > 0 else 1.0
    ax2 = acf_in(axes, fxl(a["acf2"]), btol)
    if ax2 is None and btol < 1e-3:
        return "the autocorrelation of the squared residuals is not shown: %s" % fxl(a["acf2"])[:4]
    for ax, what in ((ax1, "residuals"), (ax2, "squared residuals")):
        if ax is None:
            continue
        lim = fx(a["limit"])
        if not any(contour(ar, [0.0, float(len(res) - 1 if len(res) < 51 else 50)], [-lim] * 2, [lim] * 2, 1e-9, 1e-9) for ar in ax["areas"]):
            return "the white-noise interval of the autocorrelation of the %s is not +-%.6g" % (what, lim)
    return None


def run(ctx):
    quint.selftest(["fit"], ctx.scratch)
    ts = ctx.traces(quint.run("fitobj", step="stepAssess", traces=ctx.n(40, 200), steps=6, seed=ctx.seed,
                              invariants=["answersSane"], scratch=ctx.scratch))
    ts += ctx.traces(quint.run("fitobj", step="stepAssessLong", traces=ctx.n(8, 40), steps=2, seed=ctx.seed,
                               invariants=["answersSane"], scratch=ctx.scratch))
    cases, plan = [], []
    for s in [s for t in ts for s in t[1:]]:
        ev, tab = s["ev"], s["tab"]
        if predict_rounding(ev) > MAXROUND:
            ctx.count("ill_conditioned_skipped")
            continue
        how = ev["how"] if len(cases) % 5 else ev["how"].upper()
        cases.append(case_of(tab, [{"op": "figure", "how": how, "n": ev["sub"]}], watch=True))
        plan.append((ev, tab))
    res = ctx.pythons("py_fit.py", {}, cases, allow_crash=True, timeout=600)
    if res is None:
        return
    seen = {}
    for c, (ev, tab), r in zip(cases, plan, res):
        where = "%s, %d measurements, %s" % (label(c), len(c["t"]), ev["how"])
        o = r["ops"][0] if r["ops"] else {}
        bad = r.get("exception") or o.get("exception")
        if bad:
            ctx.fail(where + " failed: " + bad, case=c)
            continue
        what = "changed " + ", ".join(o["changed"]) if o.get("changed") else judge(ctx, c, ev, tab, o["r"])
        if what:
            ctx.fail(where + ": " + what, case=c)
        key = ev["how"] + (" car1" if c["kind"] == "car1" else "") + (" long" if len(c["t"]) > 40 else "")
        seen[key] = seen.get(key, 0) + 1
        ctx.samples()
    ctx.validated(len(ts))
    ctx.cov["figures"] = seen
    ctx.need(len(seen) >= 8, "figures %s" % sorted(seen))
