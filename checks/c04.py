"""C04: answers of a filter object do not depend on the history of calls."""
from vlib import build, quint
from vlib.quint import fx, fxl
from .filterlib import Units, SEVERAL, new_line, set_line, describe, scales, tolerance, vec
from . import c02

ASSUMPTIONS = ["histories of up to 12 calls on one object", "well-separated roots, p <= 7, at most 12 measurements"]


def run(ctx):
    exe = build.driver("drv_model")
    ts = ctx.traces(quint.run("filterobj", step="step", traces=ctx.n(320, 2500), steps=ctx.n(12, 16), seed=ctx.seed,
                              invariants=["answersSane"], scratch=ctx.scratch))
    lines, want = ["seed %d" % (7000 + ctx.seed)], [None]
    for k, t in enumerate(ts):
        for s in t:
            ev, op = s["ev"], s["ev"]["op"]
            if op == "new":
                lines.append(new_line("o", ev["obj"], ev["roots"], "vas"[k % 3]))
            elif op == "filter":
                lines.append("filter o")
            elif op == "update":
                lines.append("update o %d" % ev["req"][0])
            elif op == "predict":
                lines.append("predict o %.17g" % Units(ev["obj"]["units"]).time(ev["req"][0]))
            elif op == "simulate":
                lines.append("simulate o " + vec(Units(ev["obj"]["units"]).times(ev["req"])))
            else:
                steps = SEVERAL.get(op, (op,))
                lines += [set_line("o", dict(ev, op=o)) for o in steps]
                want += [None] * (len(steps) - 1)
            want.append((k, s))
            lines.append("fdata o")
            want.append((k, s))
    res = ctx.drive(exe, lines)
    followed = set()
    for (w, r) in zip(want, res):
        if w is None:
            continue
        k, s = w
        ev, op = s["ev"], r["op"]
        o = ev["obj"]
        u = Units(o["units"])
        where = "after " + " ".join(s["hist"])
        if "exception" in r:
            if tolerance(ev) is not None:
                ctx.fail("%s raised %s %s" % (op, r["exception"], where), case=describe(ev))
            continue
        if op == "fdata":
            for key in ("t", "y", "e"):
                cells = [row[key] for row in o["rows"]]
                if [float(x) for x in r[key]] != (u.times(cells) if key == "t" else u.values(cells)):
                    ctx.fail("the object no longer holds its %s values %s" % (key, where), case=describe(ev), got=r[key])
            continue
        if op not in ("filter", "update", "predict"):
            continue
        followed.add((s["hist"][-2], op))
        tol = tolerance(ev)
        if tol is None:
            ctx.count("ill_conditioned_skipped")
            continue
        if op == "predict":
            if not c02.compare(ctx, ev, 0, r, tol):
                ctx.violations[-1]["what"] += " " + where if ctx.violations else ""
            continue
        ys, r0 = scales(ev)
        n = len(ev["mean"])
        if len(r["mean"]) != len(o["rows"]):
            ctx.fail("%d forecasts for %d measurements %s" % (len(r["mean"]), len(o["rows"]), where), case=describe(ev))
            continue
        for i in range(n):
            ctx.samples()
            dm = abs(u.mean(r["mean"][i]) - fx(ev["mean"][i])) / max([ys] + [abs(x) for x in fxl(ev["mean"])])
            dv = abs(u.var(r["var"][i]) - fx(ev["vars"][i])) / (r0 + fx(o["rows"][i]["e"]) ** 2)
            if not (dm <= tol and dv <= tol):
                ctx.fail("forecast %d is (%.12g, %.12g), specified (%.12g, %.12g), %s"
                         % (i, u.mean(r["mean"][i]), u.var(r["var"][i]), fx(ev["mean"][i]), fx(ev["vars"][i]), where),
                         case=describe(ev))
                break
    ctx.validated(len(ts))
    ctx.cov["call_pairs_covered"] = len(followed)
    ctx.need(len(followed) >= 25, "too few pairs of consecutive calls")
