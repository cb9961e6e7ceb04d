"""C24: bands of the power spectrum are percentiles of the spectra of the rows."""
import itertools

from vlib import quint
from vlib.quint import fx, fxl, tofx
from .fitlib import case_of, label, flat_theta, round_of_derived, KINDS
from .filterlib import MAXROUND

ASSUMPTIONS = ["tables of at most 7 rows, p <= 7; bands compared at 5 frequencies of each plot, their order at all",
               "which rows make a subsample is left open: some set of that many distinct rows must give the band at all frequencies",
               "relative tolerance 1e-7 plus the rounding error of the driving noise"]


def run(ctx):
    quint.selftest(["fit"], ctx.scratch)
    ts = ctx.traces(quint.run("fitobj", step="stepBands", traces=ctx.n(32, 160), steps=5, seed=ctx.seed,
                              invariants=["answersSane"], scratch=ctx.scratch))
    states = [s for t in ts for s in t[1:]]
    cases = []
    for k, s in enumerate(states):
        ev = s["ev"]
        cases.append(case_of(s["tab"], [{"op": "bands", "pct": fx(ev["pct"]), "sub": ev["sub"], "linear": k % 3 == 0,
                                         "picks": [0.13, 0.41, 0.78]}], watch=True))
    res = ctx.pythons("py_fit.py", {}, cases, allow_crash=True, timeout=600)
    if res is None:
        return
    live, flat, ranges = [], [], []
    for c, s, r in zip(cases, states, res):
        bad = r.get("exception") or next((o["exception"] for o in r["ops"] if "exception" in o), None)
        if bad:
            ctx.fail("%s, sub=%d: %s" % (label(c), s["ev"]["sub"], bad), case=c)
            continue
        d = r["ops"][0]["r"]
        fs = [tofx(a[0]) for a in d["at"]]
        x = [KINDS.index(c["kind"]), c["p"], c["q"], len(c["trace"]), len(fs)] + fs
        for th in s["tab"]["trace"]:
            x += th
        live.append((c, s, r["ops"][0]))
        flat.append(x)
        ranges.append([len(c["t"])] + [tofx(t) for t in c["t"]])
    spectra = quint.judge(["fit"], "", "spectraOf", flat, ctx.scratch, "List[List[int]]")
    spans = quint.judge(["fit"], "", "rangeOf", ranges, ctx.scratch, "List[int]", name="span")

    ds = iter(quint.judge(["fit"], "", "derivedOf", [flat_theta(c, th) for c, s, o in live for th in c["trace"]], ctx.scratch, "Derived", name="derived"))
    rounds = [max(round_of_derived(next(ds)) for th in c["trace"]) for c, s, o in live]

    # candidate bands of all subsets, evaluated by the specification
    items, index = [], []
    for k, (c, s, o) in enumerate(live):
        n = len(c["trace"])
        size = s["ev"]["sub"] or n
        for rows in itertools.combinations(range(n), size):
            for j in range(len(o["r"]["at"])):
                items.append([s["ev"]["pct"]] + [spectra[k][i][j] for i in rows])
                index.append((k, rows, j))
    bands = quint.judge(["fit"], "", "bandOf", items, ctx.scratch, "List[int]", name="band")
    want = {}
    for (k, rows, j), b in zip(index, bands):
        want.setdefault(k, {}).setdefault(rows, {})[j] = fxl(b)
    seen = {}
    for k, (c, s, o) in enumerate(live):
        d, ev = o["r"], s["ev"]
        n = len(c["trace"])
        where = "%s, %g%% band of %s rows" % (label(c), fx(ev["pct"]), ev["sub"] or "all")
        ctx.samples(len(d["at"]))
        seen["sub" if ev["sub"] else "all"] = seen.get("sub" if ev["sub"] else "all", 0) + 1
        seen[c["kind"]] = seen.get(c["kind"], 0) + 1
        if o["changed"]:
            ctx.fail("%s: the call changed %s" % (where, o["changed"]), case=c)
            continue
        lo, hi = fxl(spans[k])
        if not (abs(d["f"][0] - lo) <= 1e-9 * lo and abs(d["f"][1] - hi) <= 1e-9 * hi):
            ctx.fail("%s: frequencies from %.10g to %.10g, specified %.10g to %.10g" % (where, d["f"][0], d["f"][1], lo, hi), case=c)
            continue
        if not d["rising"] or set(d["lens"]) != {d["n"]}:
            # a grid that falls because half the highest frequency lies below the lowest one is still the specified span
            if not (lo >= hi and set(d["lens"]) == {d["n"]}):
                ctx.fail("%s: frequencies do not increase or the bands have another length" % where, case=c)
                continue
        if not d["ordered"]:
            ctx.fail("%s: lower, middle and upper values are not in order" % where, case=c)
            continue
        if rounds[k] > MAXROUND:
            ctx.count("ill_conditioned_skipped")
            continue
        tol = 1e-7 + 1e4 * rounds[k]
        def fits(band):
            return all(all(abs(g - w) <= tol * abs(w) + 1e-31 for g, w in zip(a[1:], band[j])) for j, a in enumerate(d["at"]))
        if not any(fits(b) for b in want[k].values()):
            b = next(iter(want[k].values()))
            j = next((j for j, a in enumerate(d["at"]) if any(not abs(g - w) <= tol * abs(w) + 1e-31 for g, w in zip(a[1:], b[j]))), 0)
            ctx.fail("%s: at frequency %.6g the band is %s, specified %s" % (
                where, d["at"][j][0], d["at"][j][1:], b[j] if len(want[k]) == 1 else "by none of %d subsets of the rows" % len(want[k])), case=c)
    ctx.validated(len(ts))
    ctx.cov["calls"] = seen
    ctx.need(len(seen) == 5, "calls %s" % seen)
