"""C26: reading or using results never changes them."""
from vlib import quint
from vlib.quint import fx, fxl, tofx
from .filterlib import MAXROUND
from .fitlib import case_of, label, compare_derived, compare_prediction, flat_theta, predict_rounding, KINDS

ASSUMPTIONS = ["histories of at most 20 operations on tables of at most 7 rows; p <= 7",
               "state compared bit by bit: every array of samples, the data, the arrays of the caller, the point estimate",
               "summaries that need an autocorrelation time are left out (their helper does not run here)"]


def op_of(ev, k):
    o = {"op": ev["op"]}
    if ev["op"] in ("predict", "simulate"):
        o.update(times=fxl(ev["req"]), how="random" if ev["how"] == "row" else ev["how"])
    elif ev["op"] == "bands":
        o.update(pct=fx(ev["pct"]), sub=ev["sub"], picks=[0.2, 0.7], linear=k % 2 == 0)
    elif ev["op"] == "addmle":
        o.update(theta=fxl(ev["theta"]), fun=fx(ev["pct"]))
    else:
        o.update(row=ev["row"], how=ev["how"])
    return o


def run(ctx):
    quint.selftest(["fit"], ctx.scratch)
    ts = ctx.traces(quint.run("fitobj", traces=ctx.n(48, 200), steps=ctx.n(12, 20), seed=ctx.seed,
                              invariants=["answersSane"], scratch=ctx.scratch))
    cases = []
    for t in ts:
        evs = [s["ev"] for s in t[1:]]
        cases.append(case_of(t[0]["tab"], [{"op": "dump"}] + [op_of(e, k) for k, e in enumerate(evs)] + [{"op": "dump"}], watch=True))
    res = ctx.pythons("py_fit.py", {}, cases, allow_crash=True, timeout=800)
    if res is None:
        return

    # what the specification says about the answers of the calls
    est, crit, spec = [], [], []
    for i, (c, t, r) in enumerate(zip(cases, ts, res)):
        if r.get("exception"):
            ctx.fail("%s: %s" % (label(c), r["exception"]), case=c)
            continue
        for k, (op, o) in enumerate(zip(c["ops"], r["ops"])):
            if "exception" in o:
                continue
            if op["op"] == "addmle":
                est.append((i, k, flat_theta(c, op["theta"])))
            elif op["op"] == "criterion" and r["ops"][0].get("r"):
                crit.append((i, k, [tofx(x) for x in r["ops"][0]["r"]["loglik"]["re"]]))
            elif op["op"] == "bands" and not op["sub"]:
                fs = [tofx(a[0]) for a in o["r"]["at"]]
                x = [KINDS.index(c["kind"]), c["p"], c["q"], len(c["trace"]), len(fs)] + fs
                for th in t[0]["tab"]["trace"]:
                    x += th
                spec.append((i, k, x))
    derived = dict(zip([x[:2] for x in est], quint.judge(["fit"], "", "derivedOf", [x[2] for x in est], ctx.scratch, "Derived")))
    values = dict(zip([x[:2] for x in crit], quint.judge(["fit"], "", "criterionOf", [x[2] for x in crit], ctx.scratch, "int", name="crit")))
    spectra = quint.judge(["fit"], "", "spectraOf", [x[2] for x in spec], ctx.scratch, "List[List[int]]", name="spec")
    items = []
    for (i, k, _), sp in zip(spec, spectra):
        for j in range(len(sp[0])):
            items.append(((i, k), [tofx(cases[i]["ops"][k]["pct"])] + [row[j] for row in sp]))
    bands = {}
    for (key, _), b in zip(items, quint.judge(["fit"], "", "bandOf", [x[1] for x in items], ctx.scratch, "List[int]", name="band")):
        bands.setdefault(key, []).append(fxl(b))

    seen = {}
    for i, (c, t, r) in enumerate(zip(cases, ts, res)):
        if r.get("exception"):
            continue
        done = []
        for k, (op, o) in enumerate(zip(c["ops"], r["ops"])):
            done.append(op["op"])
            where = "%s, after %s" % (label(c), " ".join(done))
            ctx.samples()
            seen[op["op"]] = seen.get(op["op"], 0) + 1
            if "exception" in o:
                ctx.fail("%s: %s" % (where, o["exception"]), case=c)
                break
            if o["changed"]:
                ctx.fail("%s: changed %s" % (where, ", ".join(o["changed"])), case=c)
                break
            d = o["r"]
            if d and not d.get("intact", True):
                ctx.fail("%s: the argument of the caller was modified" % where, case=c)
                break
            what = None
            if op["op"] == "predict":
                ev = t[k]["ev"]
                if predict_rounding(ev) <= MAXROUND:
                    what = compare_prediction(ev, t[0]["tab"], d["mean"], d["vars"])
            elif op["op"] == "criterion":
                w = fx(values[i, k])
                if not abs(d["value"] - w) <= 1e-9 * (abs(w) + 1):
                    what = "criterion %.12g, specified %.12g" % (d["value"], w)
            elif op["op"] == "addmle":
                m = d["mle"]
                def get(name):
                    return (m[name]["re"], m[name].get("im", [0.0] * len(m[name]["re"]))) if name in m else None
                if "loglik" not in m or m["loglik"]["re"] != [-op["fun"]]:
                    what = "the estimate has log-density %s, given %.12g" % (m.get("loglik"), -op["fun"])
                elif not compare_derived(ctx, get, derived[i, k], c["kind"], where, c, mle=True):
                    break
            elif op["op"] == "bands" and not op["sub"]:
                for a, b in zip(d["at"], bands[i, k]):
                    if any(not abs(g - w) <= 1e-7 * abs(w) + 1e-31 for g, w in zip(a[1:], b)):
                        what = "band at %.6g is %s, specified %s" % (a[0], a[1:], b)
                        break
            if what:
                ctx.fail("%s: %s" % (where, what), case=c)
                break
    ctx.validated(len(ts))
    ctx.cov["operations"] = seen
    ctx.need(len(seen) == 12, "operations %s" % sorted(seen))
