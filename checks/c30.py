"""C30: reports about the samples of a parameter."""
from vlib import quint
from vlib.quint import fx, fxl

ASSUMPTIONS = ["real parameters of 1 to 3 elements and 4 to 36 samples, read from files",
               "the external autocorrelation time is replaced by a known function of the series it is given",
               "histograms are compared unless a value lies on the edge of a bin; kernel densities on a grid of 20 by 20"]


def same(a, b, tol):
    return len(a) == len(b) and all(abs(x - y) <= tol for x, y in zip(a, b))


def size(xs):
    return max(abs(x) for x in xs) or 1.0


def on_edge(xs, nb):
    lo, hi = min(xs), max(xs)
    if lo == hi:
        return True
    return any(x not in (lo, hi) and abs((x - lo) * nb / (hi - lo) - round((x - lo) * nb / (hi - lo))) < 1e-7 for x in xs)


def has_line(ax, xs, ys, tol):
    return any((xs is None or same(x, xs, 1e-12 * size(xs))) and same(y, ys, tol) for x, y in ax["lines"])


def has_acf(ax, acf):
    got = {}
    for sg in ax["segments"]:
        (x0, y0), (x1, y1) = sg[0], sg[-1]
        if x0 == x1:
            got[x0] = y0 + y1
    return set(got) >= set(range(len(acf))) and all(
        abs(got[k] - w) <= 1e-7 and abs(got.get(-k, w) - w) <= 1e-7 for k, w in enumerate(acf))


def bars_of(ax, horizontal):
    """(position, extent along the axis, length) of each bar, in order"""
    b = [(r[1], r[3], r[2]) if horizontal else (r[0], r[2], r[3]) for r in ax["bars"]]
    return sorted(b)


def wrong_bars(ctx, ax, xs, counts, horizontal, tol, shift=(0.0,)):
    """None if the bars are proportional to the specified counts and lie on the specified bins"""
    nb = len(counts)
    if on_edge(xs, nb):
        ctx.count("histogram_edges_skipped")
        return None
    ctx.count("histograms")
    b = bars_of(ax, horizontal)
    lo, w = min(xs), (max(xs) - min(xs)) / nb
    if len(b) != nb:
        return "%d bars, specified %d" % (len(b), nb)
    if not any(same([p + s * e for p, e, _ in b], [lo + k * w for k in range(nb)], 1e-6 * w + tol) for s in shift):
        return "bars do not lie on the bins"
    top = max(l for _, _, l in b)
    if not top > 0 or not same([l / top for _, _, l in b], [n / max(counts) for n in counts], 1e-9):
        return "bars %s, specified counts %s" % ([round(l / top * max(counts), 6) for _, _, l in b], counts)
    return None


def judge(ctx, op, ev, r, units, names):
    o = ev["op"]
    if sorted(r["names"]) != sorted(names):
        return "holds %s, specified %s" % (r["names"], sorted(names))
    d = r["r"]
    if o == "load":
        return None
    if not ev["known"]:
        if o == "effective":
            return None if d["neff"] is None else "numbers %s of a parameter that is not there" % d["neff"]
        return "a plot of something that is not there" if any(ax["lines"] or ax["bars"] for ax in d["axes"]) else None
    f = 2.0 ** units[ev["name"]]
    cols = ev["cols"]
    vals = [[x * f for x in fxl(c["xs"])] for c in cols]
    if o in ("pdf2", "kde"):
        vals[1] = [x * 2.0 ** units[ev["other"]] for x in fxl(cols[1]["xs"])]
    tols = [1e-12 * size(v) for v in vals]
    if o == "read":
        if len(d["cols"]) != len(vals) or not all(same(a, b, t) for a, b, t in zip(d["cols"], vals, tols)):
            return "samples %s, specified %s" % (d["cols"], vals)
    elif o == "effective":
        if not same(d["neff"] or [], [fx(c["neff"]) for c in cols], 1e-9 * len(vals[0])):
            return "effective numbers %s, specified %s" % (d["neff"], [fx(c["neff"]) for c in cols])
    elif o == "summary":
        b = d["blocks"]
        if [x["element"] for x in b] != list(range(len(cols))) or any(x["name"] != ev["name"] for x in b):
            return "summary of %s" % [(x["name"], x["element"]) for x in b]
        for k, (x, c) in enumerate(zip(b, cols)):
            e = [y * f for y in fxl(c["ends"])]
            for name, want, tol in (("neff", [fx(c["neff"])], 1e-9 * len(vals[0])), ("med", [fx(c["med"]) * f], tols[k]),
                                    ("sd", [fx(c["sd"]) * f], 1e-8 * size(vals[k])), ("i68", e[0:2], tols[k]),
                                    ("i95", e[2:4], tols[k]), ("i99", e[4:6], tols[k])):
                # printed to 17 digits; the deviation of values far from zero loses some
                if name == "sd":
                    tol = 1e-12 * size(vals[k]) + 1e-9 * want[0]
                if not same(x.get(name, []), want, tol):
                    return "element %d, %s: %s, specified %s" % (k, name, x.get(name), want)
    elif o in ("trace", "pdf1", "autocorr"):
        if len(d["axes"]) != len(cols):
            return "%d plots for %d elements" % (len(d["axes"]), len(cols))
        for k, c in enumerate(cols):
            ax = [a for a in d["axes"] if str(k) in a["label"].split()]
            if len(ax) != 1:
                return "no plot of element %d" % k
            ax = ax[0]
            if o == "trace" and not has_line(ax, list(range(len(vals[k]))), vals[k], tols[k]):
                return "the trace of element %d is not shown" % k
            if o == "pdf1":
                what = wrong_bars(ctx, ax, vals[k], c["bins"][1], False, tols[k])
                if what:
                    return "element %d: %s" % (k, what)
                area = sum(e * l for _, e, l in bars_of(ax, False))
                if min(vals[k]) < max(vals[k]) and not abs(area - 1) <= 1e-6:
                    return "element %d: area %.9g" % (k, area)
            if o == "autocorr" and min(vals[k]) < max(vals[k]):
                if fx(c["sd"]) > 1e-7 * size(fxl(c["xs"])) and not has_acf(ax, fxl(c["acf"])):
                    return "the autocorrelation of element %d is not shown" % k
                if not any(same(x, [fx(c["tau"])] * 2, 1e-9) for x, y in ax["lines"]):
                    return "the autocorrelation time of element %d is not shown" % k
    elif o == "parameter":
        k = ev["i"]
        c, v = cols[k], vals[k]
        ax = [a for a in d["axes"] if has_line(a, list(range(len(v))), v, tols[k])]
        if not ax:
            return "the trace of element %d is not shown" % k
        what = min(v) < max(v) and wrong_bars(ctx, ax[0], v, c["bins"][0], True, tols[k], shift=(0.0, 0.5))
        if what:
            return "element %d: %s" % (k, what)
        if min(v) < max(v):
            ax = [a for a in d["axes"] if has_acf(a, fxl(c["acf"]))]
            if not ax:
                return "the autocorrelation of element %d is not shown" % k
            lim = min(5 * fx(c["tau"]), len(v))
            if not same(ax[0]["xlim"], [0.0, lim], 1e-6):
                return "lags from %s, specified 0 to %g" % (ax[0]["xlim"], lim)
    else:
        joint = [a for a in d["axes"] if (has_line(a, vals[0], vals[1], tols[1]) if o == "pdf2" else a["levels"])]
        if not joint:
            return "the pairs of values are not shown" if o == "pdf2" else "no contours"
        rest = [a for a in d["axes"] if a is not joint[0]]
        if len(rest) != 2:
            return "%d plots" % len(d["axes"])
        for k, horizontal in ((0, False), (1, True)):
            if not any(wrong_bars(ctx, a, vals[k], cols[k]["bins"][2], horizontal, tols[k]) is None for a in rest):
                return "histogram of the %s parameter is not %s" % (("first", "second")[k], cols[k]["bins"][2])
        if o == "kde":
            kd = ev["kde"]
            g = f * 2.0 ** units[ev["other"]]
            got, want = [x * g for x in joint[0]["levels"][0]], fxl(kd["levels"])
            if min(fxl(kd["margins"])) < 1e-9 or abs(fx(kd["rho"])) > 0.999:
                ctx.count("contours_skipped")
            elif not same(got, want, 1e-6 * want[2]) or not all(abs(a - b) <= 1e-6 * b + 1e-11 * want[2] for a, b in zip(got, want)):
                return "contours at %s, specified %s" % (got, want)
            else:
                ctx.count("contours")
            # points outside the contours are some of the pairs
            pairs = set(zip(vals[0], vals[1]))
            for x, y in joint[0]["lines"]:
                for p in zip(x, y):
                    if not any(abs(p[0] - a) <= tols[0] and abs(p[1] - b) <= tols[1] for a, b in pairs):
                        return "a point %s that is no pair of samples" % (p,)
    return None


def run(ctx):
    quint.selftest(["summary"], ctx.scratch)
    ts = ctx.traces(quint.run("summaryobj", step="step", traces=ctx.n(48, 300), steps=20, seed=ctx.seed,
                              invariants=["reportsSane"], scratch=ctx.scratch))
    tp = ctx.traces(quint.run("summaryobj", step="stepPair", traces=ctx.n(16, 100), steps=2, seed=ctx.seed + 5,
                              invariants=["reportsSane"], scratch=ctx.scratch))

    def op_of(s):
        ev = s["ev"]
        o = {"op": ev["op"], "name": ev["name"], "other": ev["other"], "i": ev["i"], "j": ev["j"], "nb": ev["nb"]}
        if ev["op"] == "load":
            f = 2.0 ** (s["units"][ev["name"]] if ev["name"] in s["units"] else 0)
            o["cols"] = [[x * f for x in fxl(c)] for c in ev["table"]]
        return o

    def drawable(ev):
        # a kernel density needs two parameters that are not functions of each other, and distinct levels
        if ev["op"] != "kde" or not ev["known"]:
            return True
        l = fxl(ev["kde"]["levels"])
        return len(l) == 3 and abs(fx(ev["kde"]["rho"])) < 0.9999 and l[0] < l[1] * (1 - 1e-6) and l[1] < l[2] * (1 - 1e-6)

    cases, plan = [], []
    for k, t in enumerate(ts):
        st = [s for s in t[1:] if s["ev"]["op"] != "skip" and drawable(s["ev"])]
        cases.append({"birth": k % 2 == 0, "ops": [op_of(s) for s in st]})
        plan.append(st)
    for t in tp:
        for s in t[1:]:
            if not drawable(s["ev"]):
                ctx.count("contours_not_distinct")
                continue
            ops = [{"op": "load", "name": n, "cols": [[x * 2.0 ** s["units"][n] for x in fxl(c)] for c in s["store"][n]]} for n in ("theta", "mu")]
            joint = dict(s, ev=dict(s["ev"], op="pdf2"))
            cases.append({"birth": False, "ops": ops + [op_of(s), op_of(joint)]})
            plan.append([None, None, s, joint])
    res = ctx.pythons("py_summary.py", {}, cases, allow_crash=True, timeout=600)
    if res is None:
        return
    seen = {}
    for c, st, rs in zip(cases, plan, res):
        done = []
        for op, s, r in zip(c["ops"], st, rs):
            done.append("%s %s" % (op["op"], op["name"]))
            where = "after " + ", ".join(done[-6:])
            if "exception" in r:
                ctx.fail("%s: %s" % (where, r["exception"]), case=c)
                break
            if s is None:
                continue
            key = op["op"] + ("" if s["ev"]["known"] else " unknown")
            seen[key] = seen.get(key, 0) + 1
            ctx.samples()
            what = judge(ctx, op, s["ev"], r, s["units"], s["ev"]["names"])
            if what:
                ctx.fail("%s: %s" % (where, what), case=c)
                break
    ctx.validated(len(cases))
    ctx.cov["reports"] = seen
    ctx.need(len(seen) >= 16, "reports %s" % sorted(seen))
