"""Replay of fitobj traces into the Python sample classes."""
from vlib.quint import fx, fxl, tofx
from .filterlib import rounding_of, cancellation, MAXROUND

KINDS = ["car1", "car", "carma"]


def case_of(tab, ops, **more):
    o = tab["post"]
    c = {"kind": o["kind"], "p": o["p"], "q": o["q"], "t": [fx(r["t"]) for r in o["rows"]],
         "y": [fx(r["y"]) for r in o["rows"]], "e": [fx(r["e"]) for r in o["rows"]],
         "trace": [fxl(th) for th in tab["trace"]], "lps": fxl(tab["lps"]), "ops": ops,
         "units": [o["units"]["t"], o["units"]["f"]]}
    c.update(more)
    return c


def label(c):
    return "p=%d q=%d, %d rows" % (c["p"], c["q"], len(c["trace"]))


def flat_theta(c, th):
    """arguments of fit.derivedOf"""
    return [KINDS.index(c["kind"]), c["p"], c["q"]] + [tofx(x) for x in th]


def flat_value(c, th):
    """arguments of fit.valueOf"""
    out = [KINDS.index(c["kind"]), c["p"], c["q"], len(c["t"])]
    for t, y, e in zip(c["t"], c["y"], c["e"]):
        out += [tofx(t), tofx(y), tofx(e)]
    return out + [tofx(x) for x in th]


def round_of_derived(d):
    """rounding error of a double precision evaluation of the driving noise of a row"""
    return rounding_of(d["roots"], d["mac"], d["sd2"], d["sigsqr"], 0)


def rel(a, b, scale):
    return abs(a - b) / scale if scale > 0 else abs(a - b)


def compare_derived(ctx, get, d, kind, where, case, mle=False):
    """get(name) -> ([re...], [im...]) of one row, or None if the name is absent. Returns False on a deviation."""
    ok = True

    def expect(name, want, tol, im=None):
        nonlocal ok
        g = get(name)
        if g is None:
            ctx.fail("%s: %s is missing" % (where, name), case=case)
            ok = False
            return
        re, img = g
        if len(re) != len(want):
            ctx.fail("%s: %s has %d values, specified %d" % (where, name, len(re), len(want)), case=case)
            ok = False
            return
        scale = max([abs(x) for x in want] + [abs(x) for x in (im or [])] + [1e-300])
        for j, (a, b) in enumerate(zip(re, want)):
            # coefficients differ by orders of magnitude: each is compared at its own size
            sc = scale if name == "ar_roots" else max(abs(b), 1.0) if name == "log_omega" else max(abs(b), 1e-12 * scale)
            dev = rel(a, b, sc)
            if im is not None:
                dev = max(dev, rel(img[j], im[j], sc))
            ctx.maxi("max_deviation_over_tolerance", dev / tol)
            if not dev <= tol:
                ctx.fail("%s: %s[%d] is %s, specified %s" % (
                    where, name, j, complex(a, img[j]) if im is not None else a, complex(b, im[j]) if im is not None else b),
                    case=case)
                ok = False
                return

    expect("var", [fx(d["sd2"])], 1e-12)
    expect("measerr_scale", [fx(d["scale"])], 1e-12)
    expect("mu", [fx(d["mu"])], 1e-12)
    r = round_of_derived(d)
    if r > MAXROUND:
        ctx.count("ill_conditioned_skipped")
    else:
        expect("sigma", [fx(d["sigma"])], 1e-8 + 1e4 * r)
    if kind == "car1" and not mle:
        expect("log_omega", None or [case["log_omega"]], 1e-12)
        return ok
    re, im = [fx(z[0]) for z in d["roots"]], [fx(z[1]) for z in d["roots"]]
    expect("ar_roots", re, 1e-8, im)
    expect("ar_coefs", fxl(d["arc"]), 1e-8)
    expect("ma_coefs", fxl(d["mac"]), 1e-8)
    expect("psd_width", fxl(d["widths"]), 1e-8)
    # a centroid is zero for real roots
    cw = fxl(d["cents"])
    big = max(cw + fxl(d["widths"]))
    g = get("psd_cent" if mle else "psd_centroid")
    if g is None or len(g[0]) != len(cw) or any(not abs(a - b) <= 1e-8 * big for a, b in zip(g[0], cw)):
        ctx.fail("%s: centroids are %s, specified %s" % (where, g and g[0], cw), case=case)
        ok = False
    if not mle:
        expect("quad_coefs", fxl(d["quads"]), 1e-10)
    return ok


def predict_rounding(ev):
    m = ev["model"]
    return rounding_of(m["roots"], m["ma"], ev["r0"], m["sigsqr"], ev["reply"]["vmin"])


def predict_scales(ev, tab):
    r0 = fx(ev["r0"])
    ys = max([abs(fx(r["y"] - ev["mu"])) for r in tab["post"]["rows"]] + [r0 ** 0.5])
    return ys, r0


def compare_prediction(ev, tab, mean, vars_):
    """None if the reply is the specified one, else what differs; tolerance as for the filters"""
    tol = 1e-7 + 1e4 * predict_rounding(ev)
    ys, r0 = predict_scales(ev, tab)
    wm, wv = fxl(ev["reply"]["mean"]), fxl(ev["reply"]["vars"])
    if len(mean) != len(wm) or len(vars_) != len(wv):
        return "%d means and %d variances for %d times" % (len(mean), len(vars_), len(wm))
    for i in range(len(wm)):
        if not abs(mean[i] - wm[i]) <= tol * (ys + abs(wm[i]) + abs(fx(ev["mu"]))):
            return "mean at time %d of the request is %.12g, specified %.12g" % (i, mean[i], wm[i])
        if not abs(vars_[i] - wv[i]) <= tol * r0:
            return "variance at time %d of the request is %.12g, specified %.12g" % (i, vars_[i], wv[i])
    return None


def real_runs(ctx, traces, steps):
    """Short sampler runs through CarmaModel: list of (case, reply) with the raw table in reply["raw"]."""
    from vlib import quint
    ts = ctx.traces(quint.run("selection", step="doRun", traces=traces, steps=steps, seed=ctx.seed,
                              invariants=["selectionSane"], scratch=ctx.scratch))
    cases, evs = [], []
    for t in ts:
        m = t[0]["mod"]
        ops = []
        for s in t[1:]:
            e = s["ev"]
            ops.append({"op": "run", "nsamples": e["samples"], "nburnin": 20, "nthin": e["thin"], "ntemperatures": 2})
        kind = "car1" if m["p"] == 1 else "car" if m["q"] == 0 else "carma"
        cases.append({"kind": kind, "p": m["p"], "q": m["q"], "t": [fx(r["t"]) for r in m["rows"]],
                      "y": [fx(r["y"]) for r in m["rows"]], "e": [fx(r["e"]) for r in m["rows"]], "ops": ops})
    res = ctx.python("py_model.py", {"seed": ctx.seed, "scratch": ctx.scratch, "cases": cases}, allow_crash=True, timeout=600)
    out = []
    for c, rs in zip(cases, res or []):
        for r in rs:
            if "exception" in r:
                ctx.fail("a run failed: " + r["exception"], case=c)
            elif r["raw"] is None:
                ctx.count("runs_without_raw_table")
            else:
                out.append((dict(c, ops=[], trace=r["raw"]), r))
    ctx.validated(len(ts))
    return out
