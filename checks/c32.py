"""C32: objects of the compiled module are independent of one another and of the caller's arrays."""
import math

from vlib import quint
from vlib.quint import fx, fxl
from .drawlib import Draws
from .filterlib import Units, MAXROUND, rounding_of
from .postlib import density_tolerance, in_units

ASSUMPTIONS = ["up to four objects alive, p <= 6, at most 9 measurements, histories of up to 28 calls",
               "simulated values are standardised with the specified joint law, seven standard errors"]


def op_of(ev, m):
    x, o = ev["thing"], ev["thing"]["post"]
    u = Units(o["units"])
    op = {"op": ev["op"], "slot": ev["slot"]}
    if ev["op"] in ("make", "run"):
        op.update(cls=x["cls"], kind=o["kind"], p=o["p"], q=o["q"], given=ev["given"], first=x["serial"] % 2 == 0, temp=fx(o["temp"]),
                  t=u.times(r["t"] for r in o["rows"]), y=u.values(r["y"] for r in o["rows"]), e=u.values(r["e"] for r in o["rows"]))
    if ev["op"] == "make":
        op.update(sigsqr=u.noise(ev["sigsqr"], o["p"]), roots=[u.rates(z) for z in ev["roots"]], ma=u.ma(ev["ma"]))
    if ev["op"] == "run":
        op.update(nums=ev["nums"], theta=fxl(ev["theta"]))
    if ev["op"] in ("density", "prior"):
        op.update(theta=in_units(o, ev["theta"]))
    if ev["op"] == "mle":
        op.update(on=o["mle"])
    if ev["op"] in ("predict", "simulate"):
        op.update(times=u.times(ev["req"]), m=m)
    return op


def rounding(ev):
    return rounding_of(ev["roots"], ev["ma"], ev["r0"], ev["sigsqr"], ev["reply"]["vmin"])


def describe(ev):
    o = ev["thing"]["post"]
    return {"class": ev["thing"]["cls"], "kind": o["kind"], "p": o["p"], "q": o["q"], "mle": o["mle"], "theta": fxl(ev["theta"]),
            "filter": fxl(ev["thing"]["theta"]), "request": fxl(ev["req"]), "given": ev["given"], "settings": ev["nums"],
            "rows": [[fx(r["t"]), fx(r["y"]), fx(r["e"])] for r in o["rows"]],
            "units": "times x 2^%d, values x 2^%d" % (o["units"]["t"], o["units"]["f"])}


def check_run(ev, r):
    o = ev["thing"]["post"]
    n, dim = ev["nums"][0], 4 if o["kind"] == "car1" else 3 + o["p"] + o["q"]
    if len(r["samples"]) != n or len(r["logs"]) != n:
        return "%d samples and %d log-posteriors, %d asked for" % (len(r["samples"]), len(r["logs"]), n)
    if any(len(s) != dim for s in r["samples"]):
        return "samples of %s numbers, the model has %d" % (sorted(set(len(s) for s in r["samples"])), dim)
    for s, a, b in zip(r["samples"], r["logs"], r["again"]):
        if not abs(a - float(b)) <= 1e-7 * (1 + abs(a)):
            return "log-posterior %.12g recorded for a sample of log-density %s" % (a, b)
    return None


def run(ctx):
    quint.selftest(["fixed", "carma", "gauss"], ctx.scratch)
    ts = ctx.traces(quint.run("pool", step="step", traces=ctx.n(72, 400), steps=28, seed=ctx.seed, invariants=["poolSane"],
                              scratch=ctx.scratch))
    m = 60
    cases, plan = [], []
    for t in ts:
        evs, ops = [], []
        for s in t[1:]:
            ev = s["ev"]
            if ev["op"] in ("filter", "predict", "simulate") and rounding(ev) > MAXROUND:
                ctx.count("ill_conditioned_skipped")
                continue
            if ev["op"] in ("density", "prior") and fx(ev["margin"]) < 1e-9 and not ev["thing"]["post"]["mle"]:
                ctx.count("on_a_boundary_skipped")
                continue
            evs.append(ev)
            ops.append(op_of(ev, m))
        cases.append({"ops": ops})
        plan.append(evs)
    res = ctx.pythons("py_pool.py", {}, cases, allow_crash=True, timeout=600)
    if res is None:
        return
    draws, seen, kinds, offsets = Draws(ctx), {}, set(), {}
    for evs, rs in zip(plan, res):
        done = []
        for ev, r in zip(evs, rs):
            o, op = ev["thing"]["post"], ev["op"]
            u = Units(o["units"])
            done.append("%s%d" % (op, ev["slot"]))
            where = "%s of a %s, p=%d q=%d, after %s" % (op, ev["thing"]["cls"], o["p"], o["q"], " ".join(done))
            if "exception" in r:
                ctx.fail("%s: %s" % (where, r["exception"]), case=describe(ev))
                break
            if not r.get("intact", True):
                ctx.fail("%s: the arrays of the caller were modified" % where, case=describe(ev))
                break
            seen[op] = seen.get(op, 0) + 1
            kinds.add((ev["thing"]["cls"], o["kind"]))
            ctx.samples()
            what = None
            if op == "run":
                what = check_run(ev, r)
            elif op in ("density", "prior"):
                got = float(r["value"])
                if op == "prior":
                    want, tol = fx(ev["lp"]), 1e-9 * (1 + abs(fx(ev["lp"])))
                    if not abs(got - want) <= tol:
                        what = "log-prior %.12g, specified %.12g" % (got, want)
                elif not ev["inside"]:
                    if math.isfinite(got):
                        what = "log-density %.12g of a vector outside the support" % got
                else:
                    tol = density_tolerance(dict(ev, post=o))
                    if tol is None:
                        ctx.count("ill_conditioned_skipped")
                        continue
                    ctx.count("densities_compared")
                    # values in units of 2^f shift the log-density; a constant per measurement is free, the same for all objects
                    dev = got - fx(ev["lik"]["ll"] + ev["lp"]) + len(o["rows"]) * o["units"]["f"] * math.log(2.0)
                    n = len(o["rows"])
                    offset = offsets.setdefault("per_row", dev / n)
                    ctx.maxi("max_deviation_over_tolerance", abs(dev - offset * n) / tol)
                    if not abs(dev - offset * n) <= 3 * tol:
                        what = "log-density %.12g, off by %.6g" % (got, dev - offset * n)
            elif op == "simulate":
                y = ev["reply"]
                n, k = len(o["rows"]), len(ev["req"])
                resid, lrows, vs = fxl(y["resid"]), [fxl(x) for x in y["lrows"]], fxl(y["vars"])
                r0 = fx(ev["r0"])
                ys = max([abs(fx(x["y"])) for x in o["rows"]] + [r0 ** 0.5])
                vals = [u.mean(x) for x in r["values"]]
                if len(vals) != k * m:
                    what = "%s values for %d times" % (r.get("count"), k)
                else:
                    what = draws.add(vals, m, k, [sum(a * b for a, b in zip(l[:n], resid)) for l in lrows], lrows, n,
                                     [math.sqrt(max(0.0, v)) for v in vs], [v <= 1e-20 * r0 for v in vs], ys)
            elif op in ("filter", "predict"):
                tol = 1e-7 + 1e4 * rounding(ev)
                r0 = fx(ev["r0"])
                ys = max([abs(fx(x["y"])) for x in o["rows"]] + [r0 ** 0.5])
                wm, wv = fxl(ev["reply"]["mean"]), fxl(ev["reply"]["vars"])
                gm, gv = [u.mean(x) for x in r["mean"]], [u.var(x) for x in r["vars"]]
                if len(gm) != len(wm) or len(gv) != len(wv):
                    what = "%d means and %d variances, specified %d" % (len(gm), len(gv), len(wm))
                for i in range(len(wm)) if not what else []:
                    dev = max(abs(gm[i] - wm[i]) / (ys + abs(wm[i])), abs(gv[i] - wv[i]) / max(r0, wv[i]))
                    ctx.maxi("max_deviation_over_tolerance", dev / tol)
                    if not dev <= tol:
                        what = "answer %d is (%.12g, %.12g), specified (%.12g, %.12g)" % (i, gm[i], gv[i], wm[i], wv[i])
                        break
            if what:
                ctx.fail("%s: %s" % (where, what), case=describe(ev))
                break
    for what in draws.finish() if not ctx.violations else []:
        ctx.fail(what)
    ctx.validated(len(ts))
    ctx.cov["calls"] = seen
    ctx.cov["classes_covered"] = len(kinds)
    ctx.need(len(seen) == 10 and len(kinds) >= 9, "calls %s, classes %s" % (seen, kinds))
