"""C22: fits and order choices report what they maximised; runs use the settings of the model."""
import math

from vlib import quint
from vlib.quint import fx, fxl, tofx
from .fitlib import flat_value, rounding_of

ASSUMPTIONS = ["the optimiser is replaced by a script of outcomes for the selection logic, and is the real one, on 14 to 18 "
               "measurements and p <= 4, for the reported values",
               "jobs are processes started by fork"]


def rows_of(mod):
    return {"t": [fx(r["t"]) for r in mod["rows"]], "y": [fx(r["y"]) for r in mod["rows"]], "e": [fx(r["e"]) for r in mod["rows"]]}


def fun_of(o):
    return [fx(o["fun"]), float("nan"), float("inf")][o["cls"]]


def same(a, b):
    return (a != a and b != b) or a == b or abs(a - b) <= 1e-9 * max(1.0, abs(b))


def op_of(ev):
    if ev["op"] == "run":
        op = {"op": "run", "nsamples": ev["samples"], "nthin": ev["thin"]}
        if ev["pmax"] >= 0:
            op["nburnin"] = ev["pmax"]
        if ev["qmax"] >= 1:
            op["ntemperatures"] = ev["qmax"]
        return op
    op = {k: ev[k] for k in ("op", "p", "q", "pmax", "qmax", "trials", "jobs")}
    op["list"] = [list(x) for x in ev["list"]]
    op["script"] = [{"cls": o["cls"], "fun": fx(o["fun"])} for s in ev["script"] for o in s]
    return op


def usable(ev):
    """Whether every fit of the script has at least one finite end"""
    return all(any(o["cls"] == 0 for o in s) for s in ev["script"])


def check_run(ctx, c, ev, r):
    m = ev["mod"]
    if r["type"] != ("Car1Sample" if m["p"] == 1 else "CarmaSample") or not r["kept"] or r["order"] != [m["p"], m["q"]]:
        ctx.fail("run of p=%d q=%d gave a %s of order %s" % (m["p"], m["q"], r["type"], r["order"]), case=c)
    if any(list(a) != list(b) for a, b in zip(r["data"], (c["t"], c["y"], c["e"]))):
        ctx.fail("the sample object holds other data than the model", case=c)
    n = {k: d["shape"][0] for k, d in r["dump"].items()}
    if set(n.values()) != {ev["samples"]}:
        ctx.fail("%d samples asked for, stored %s" % (ev["samples"], n), case=c)
    if not r["calls"]:
        ctx.count("runs_without_recorded_call")
        return
    # a run of another order is a run of another model: only the last call makes the sample
    a = r["calls"][-1]["args"]
    if r["calls"][-1]["name"] == "run_mcmc_car1":
        got = {"samples": a[0], "burnin": a[1], "data": a[2:5], "thin": a[5] if len(a) > 5 else 1, "p": 1, "q": 0,
               "start": a[6] if len(a) > 6 else []}
    else:
        got = {"samples": a[0], "burnin": a[1], "data": a[2:5], "p": a[5], "q": a[6], "chains": a[7],
               "zcarma": a[8] if len(a) > 8 else False, "thin": a[9] if len(a) > 9 else 1, "start": a[10] if len(a) > 10 else []}
    want = {"samples": ev["samples"], "burnin": ev["burnin"], "thin": ev["thin"], "p": m["p"], "q": m["q"],
            "data": [c["t"], c["y"], c["e"]], "start": []}
    if m["p"] > 1:
        want.update(chains=ev["chains"], zcarma=False)
    for k, w in want.items():
        if got.get(k) != w:
            ctx.fail("run with nsamples=%d, nburnin=%s, ntemperatures=%s, nthin=%d, p=%d, q=%d: %s used is %s, specified %s" % (
                ev["samples"], ev["pmax"] if ev["pmax"] >= 0 else "default", ev["qmax"] if ev["qmax"] >= 1 else "default",
                ev["thin"], m["p"], m["q"], k, got.get(k), w), case=c)


def check_fit(ctx, c, ev, r):
    """Scripted optimiser: the reported fit and the choice"""
    what = "fit of p=%d q=%d" % (ev["p"], ev["q"]) if ev["op"] == "fit" else "order choice pmax=%d qmax=%d list=%s" % (
        ev["pmax"], ev["qmax"], ev["list"])
    what += ", %d trials, %d jobs" % (ev["trials"], ev["jobs"])
    dims = [3 + p + q for p, q in ev["pairs"] for _ in range(ev["trials"])]
    got = [l["dim"] for l in r["log"]]
    if ev["op"] == "fit" or r["pairs"] == [list(x) for x in ev["pairs"]]:
        if sorted(got) != sorted(dims):
            ctx.fail("%s: optimisations of sizes %s, specified %s" % (what, got, dims), case=c, script=ev["script"])
            return
    fits = [ev["script"][i][b] for i, b in enumerate(ev["best"])]
    if ev["op"] == "order":
        if sorted(r["pairs"]) != sorted(list(x) for x in ev["pairs"]) or len(r["scores"]) != len(r["pairs"]):
            ctx.fail("%s: examined %s, specified %s" % (what, r["pairs"], ev["pairs"]), case=c)
            return
        if r["pairs"] != [list(x) for x in ev["pairs"]]:
            # another order of the pairs: the script cannot be attributed
            ctx.count("reordered_pairs")
            return
        for i, s in enumerate(r["scores"]):
            want = fx(ev["scores"][i]) if fits[i]["cls"] == 0 else fun_of(fits[i])
            if not same(float(s), want):
                ctx.fail("%s: criterion of %s is %s, specified %.12g" % (what, ev["pairs"][i], s, want), case=c, script=ev["script"])
                return
    f = fits[ev["chosen"]] if ev["op"] == "order" else fits[0]
    if not same(float(r["fit"]["fun"]), fun_of(f)):
        ctx.fail("%s: reported objective %s, the best of the optimisations is %.12g" % (what, r["fit"]["fun"], fun_of(f)),
                 case=c, script=ev["script"])
        return
    mine = [l["tag"] for l in r["log"] if same(float(l["fun"]), fun_of(f))]
    if r["fit"]["x"][2] not in mine:
        ctx.fail("%s: the reported vector is not the one with the reported objective" % what, case=c, script=ev["script"])


def run(ctx):
    quint.selftest(["selection"], ctx.scratch)
    ts = ctx.traces(quint.run("selection", step="step", traces=ctx.n(24, 240), steps=8, seed=ctx.seed,
                              invariants=["selectionSane"], scratch=ctx.scratch))
    cases, plans = [], []
    for t in ts:
        m = t[0]["mod"]
        evs = [s["ev"] for s in t[1:] if s["ev"]["op"] == "run" or usable(s["ev"])]
        # a call that cannot be judged is left out, which must not change the state the others start from
        evs = []
        for s in t[1:]:
            if s["ev"]["op"] == "order" and not usable(s["ev"]):
                break
            if s["ev"]["op"] != "fit" or usable(s["ev"]):
                evs.append(s["ev"])
        cases.append(dict(rows_of(m), p=m["p"], q=m["q"], ops=[op_of(e) for e in evs]))
        plans.append(evs)
    res = ctx.python("py_model.py", {"seed": ctx.seed, "scratch": ctx.scratch, "cases": cases}, allow_crash=True, timeout=600)
    seen = {}
    for c, evs, rs in zip(cases, plans, res or []):
        if len(rs) < len(evs):
            ctx.fail("the model could not be made: " + str(rs), case=c)
            continue
        for ev, r in zip(evs, rs):
            if "exception" in r:
                ctx.fail("%s failed: %s" % (ev["op"], r["exception"]), case=c)
                break
            if (r["p"], r["q"]) != (ev["mod"]["p"], ev["mod"]["q"]):
                ctx.fail("model order after %s is p=%d q=%d, specified p=%d q=%d" % (
                    ev["op"], r["p"], r["q"], ev["mod"]["p"], ev["mod"]["q"]), case=c, script=ev["script"])
                break
            if any(list(a) != list(b) for a, b in zip(r["data_kept"], (c["t"], c["y"], c["e"]))):
                ctx.fail("%s changed the data of the model" % ev["op"], case=c)
                break
            if ev["op"] == "run":
                check_run(ctx, c, ev, r)
            else:
                check_fit(ctx, c, ev, r)
                seen["jobs"] = seen.get("jobs", 0) + (ev["jobs"] > 1)
                seen["nan first"] = seen.get("nan first", 0) + any(s[0]["cls"] == 1 for s in ev["script"])
            seen[ev["op"]] = seen.get(ev["op"], 0) + 1
            ctx.samples()
        ctx.validated()

    # ---- the real optimiser
    ts = ctx.traces(quint.run("selection", step="stepReal", traces=ctx.n(8, 48), steps=2, seed=ctx.seed,
                              invariants=["selectionSane"], scratch=ctx.scratch))
    evs = [s["ev"] for t in ts for s in t[1:]]
    cases = [dict(rows_of(e["mod"]), p=e["mod"]["p"], q=e["mod"]["q"], ops=[op_of(e)]) for e in evs]
    res = ctx.python("py_model.py", {"seed": ctx.seed, "scratch": ctx.scratch, "cases": cases}, allow_crash=True, timeout=600)
    items, back, aic, aicback = [], [], [], []
    for k, (c, ev, rs) in enumerate(zip(cases, evs, res or [])):
        r = rs[0]
        if "exception" in r:
            ctx.fail("%s failed: %s" % (ev["op"], r["exception"]), case=c)
            continue
        f = float(r["fit"]["fun"])
        funs = [float(l["fun"]) for l in r["log"]]
        if len(funs) != ev["trials"] * len(ev["pairs"]):
            ctx.fail("%d optimisations run, %d asked for" % (len(funs), ev["trials"] * len(ev["pairs"])), case=c)
        p, q = (r["p"], r["q"]) if ev["op"] == "order" else (ev["p"], ev["q"])
        mine = [float(l["fun"]) for l in r["log"] if l["dim"] == 3 + p + q and len(r["fit"]["x"]) == l["dim"]]
        if ev["op"] == "fit" and not same(f, min([x for x in funs if x == x], default=float("nan"))):
            ctx.fail("reported objective %.12g, ends of the optimisations %s" % (f, funs), case=c)
        if ev["op"] == "order" and not any(same(f, x) for x in mine):
            ctx.fail("reported objective %.12g is none of the optimisations of the chosen order: %s" % (f, mine), case=c)
        # an optimisation that met an undefined value is reported with the vector before
        if f != f:
            ctx.count("undefined_ends")
        elif not same(-r["own"], f):
            ctx.fail("p=%d q=%d: reported objective %.12g, log-density at the reported vector %.12g" % (p, q, f, r["own"]), case=c)
        kind = "car1" if p == 1 else "car" if q == 0 else "carma"
        cc = dict(c, kind=kind, p=p, q=q)
        if math.isfinite(f):
            items.append(flat_value(cc, r["fit"]["x"]))
            back.append((cc, r))
        if ev["op"] == "order":
            for (pp, qq), s in zip(r["pairs"], r["scores"]):
                fs = [float(l["fun"]) for l in r["log"] if l["dim"] == 3 + pp + qq]
                # several pairs share a dimension only beyond pmax = 2
                b = min([x for x in fs if x == x], default=float("nan"))
                if math.isfinite(b):
                    aic.append([tofx(b), pp, qq, len(c["t"])])
                    aicback.append((c, pp, qq, float(s)))
            sc = [float(s) for s in r["scores"]]
            if any(x == x for x in sc) and r["pairs"][sc.index(min(x for x in sc if x == x))] != [r["p"], r["q"]]:
                ctx.fail("scores %s of %s, order set to p=%d q=%d" % (sc, r["pairs"], r["p"], r["q"]), case=c)
        ctx.samples()
        ctx.validated()
    vs = quint.judge(["fit"], "", "valueOf", items, ctx.scratch, "Value")
    ds = quint.judge(["fit"], "", "derivedOf", [x[:3] + x[4 + 3 * x[3]:] for x in items], ctx.scratch, "Derived", name="der")
    for (c, r), v, d in zip(back, vs, ds):
        rnd = rounding_of(d["roots"], d["mac"], v["r0"], d["sigsqr"], v["vmin"]) if v["vmin"] > 0 else 1.0
        if rnd > 1e-9:
            ctx.count("ill_conditioned_skipped")
            continue
        tol = (1e-7 + 1e4 * rnd) * (len(c["t"]) + fx(v["chi2"]))
        want = -fx(v["ll"] + v["lp"])
        ctx.count("reported_values_judged")
        if not abs(float(r["fit"]["fun"]) - want) <= tol:
            ctx.fail("p=%d q=%d: reported objective %.12g, specified log-density of the reported vector gives %.12g" % (
                c["p"], c["q"], float(r["fit"]["fun"]), want), case=c, x=r["fit"]["x"])
    for (c, p, q, s), w in zip(aicback, quint.judge(["fit"], "", "akaikeOf", aic, ctx.scratch, "int", name="aic")):
        if not same(s, fx(w)):
            ctx.fail("criterion of p=%d q=%d is %.12g, specified %.12g" % (p, q, s, fx(w)), case=c)
    ctx.cov["calls"] = seen
    ctx.need(all(seen.get(k, 0) >= 3 for k in ("fit", "order", "run", "jobs", "nan first")), "calls %s" % seen)
