"""C05: row order and repeated times of the input never change the results."""
import math
from vlib import build, quint
from vlib.quint import fx, fxl
from .filterlib import Units, vec, rounding_of
from .postlib import in_units

ASSUMPTIONS = ["4 to 7 distinct times with up to 3 repeated rows; where repeated rows disagree any one of them may be used, the same one throughout"]


def describe(ev):
    return {"kind": ev["kind"], "arrangement": ev["how"], "rows": [[fx(r["t"]), fx(r["y"]), fx(r["e"])] for r in ev["shown"]],
            "roots": [(fx(a), fx(b)) for a, b in ev["roots"]], "ma": fxl(ev["ma"]), "sigsqr": fx(ev["sigsqr"]),
            "request": fxl(ev["req"]), "theta": fxl(ev["theta"]),
            "units": "times x 2^%d, values x 2^%d" % (ev["units"]["t"], ev["units"]["f"])}


def columns(ev, rows):
    u = Units(ev["units"])
    return [u.times(r["t"] for r in rows), u.values(r["y"] for r in rows), u.values(r["e"] for r in rows)]


def run(ctx):
    exe = build.driver("drv_model")
    ts = ctx.traces(quint.run("ingest", traces=ctx.n(96, 500), steps=12, seed=ctx.seed, invariants=["ingestSane"], scratch=ctx.scratch))
    lines, plan = [], []
    for t in ts:
        for s in t:
            ev = s["iev"]
            k = len(plan)
            tt, yy, ee = columns(ev, ev["shown"])
            data = "%s %s %s" % (vec(tt), vec(yy), vec(ee))
            sub = []
            u = Units(ev["units"])
            if ev["op"] == "filter":
                re, im = (u.rates(ev["quad"]), [0.0]) if ev["kind"] == "kf1" else (
                    u.rates(r[0] for r in ev["roots"]), u.rates(r[1] for r in ev["roots"]))
                sub = ["filter_new o %s %s %s %.17g %s %s %s" % (ev["kind"], "vas"[k % 3], data, u.noise(ev["sigsqr"], len(ev["quad"])),
                                                                 vec(re), vec(im), vec(u.ma(ev["ma"]))),
                       "filter o", "fdata o"] + ["predict o %.17g" % x for x in u.times(ev["req"])]
            else:
                p, q = ev["quad"]
                th = in_units({"kind": ev["kind"], "p": p, "q": q, "units": ev["units"]}, ev["theta"])
                sub = ["post_new o %s %d %d 1.0 %s" % (ev["kind"], p, q, data), "ld o " + vec(th), "pdata o"]
                for a in ev["alts"]:
                    for om, ok, sd in a["tests"]:
                        sub.append("ld o " + vec([(fx(sd) if sd else fx(ev["theta"][0])) * u.F, 1.0, 0.0, math.log(fx(om) / u.T) if om else th[3]]))
            lines += sub
            plan.append((ev, len(sub)))
    res = ctx.drive(exe, lines)
    pos, dup, kinds = 0, 0, {}
    for ev, n in plan:
        rs = res[pos:pos + n]
        pos += n
        if len(rs) < n:
            return
        bad = [r["exception"] for r in rs if "exception" in r]
        if bad:
            ctx.fail("unsorted input raised " + bad[0], case=describe(ev))
            continue
        ctx.samples()
        kinds[(ev["op"], ev["kind"], ev["how"])] = 1
        dup += len(ev["alts"]) > 1
        why, ok, skipped = "", False, False
        it = 3
        for a in ev["alts"]:
            tests = rs[it:it + len(a["tests"])]
            it += len(a["tests"])
            r = rounding_of(ev["roots"], ev["ma"], a["r0"], ev["sigsqr"], a["vmin"])
            if r > 1e-9:
                skipped = True
                continue
            tol = 1e-7 + 1e4 * r
            why = check_alt(ev, a, rs, tests, tol)
            if not why:
                ok = True
                break
        if not ok and not skipped:
            ctx.fail("%s, arrangement %d: %s" % (ev["kind"], ev["how"], why), case=describe(ev))
        ctx.count("ill_conditioned_skipped", int(skipped))
    ctx.validated(len(ts))

    # the Python model holds the same series
    evs = [ev for ev, n in plan]
    got = ctx.python("py_ingest.py", [dict(zip("tye", columns(ev, ev["shown"])), p=3, q=i % 3) for i, ev in enumerate(evs)], allow_crash=True)
    for ev, g in zip(evs, got or []):
        if "exception" in g:
            ctx.fail("CarmaModel raised " + g["exception"], case=describe(ev))
            continue
        held = [g["t"], g["y"], g["e"]]
        inner = [g["vt"], g["vy"], g["ve"]]
        if not any(columns(ev, a["rows"]) == held for a in ev["alts"]):
            ctx.fail("CarmaModel holds %s" % held, case=describe(ev))
        elif None not in inner and inner != held:
            ctx.fail("CarmaModel samples with %s but reports %s" % (inner, held), case=describe(ev))
        elif not g["intact"]:
            ctx.fail("CarmaModel changed the arrays passed in", case=describe(ev))
        ctx.count("python_models")
    ctx.cov["arrangements_covered"] = len(kinds)
    ctx.cov["disagreeing_repeats"] = dup
    ctx.need(len(kinds) >= 25 and dup > 10, "too few arrangements")


def check_alt(ev, a, rs, tests, tol):
    """Empty string if the results are those of this series."""
    n = len(a["rows"])
    u = Units(ev["units"])
    ymax = max([abs(fx(r["y"])) for r in a["rows"]] + [fx(a["r0"]) ** 0.5] + [abs(x) for x in fxl(a["mean"]) + fxl(a["pmean"])])
    held = rs[2]
    if [held["t"], held["y"], held["e"]] != columns(ev, a["rows"]):
        return "the object holds %s" % [held["t"], held["y"], held["e"]]
    if ev["op"] == "filter":
        m, v = [u.mean(x) for x in rs[1]["mean"]], [u.var(x) for x in rs[1]["var"]]
        pm, pv = [u.mean(r["mean"]) for r in rs[3:]], [u.var(r["var"]) for r in rs[3:]]
        if len(m) != n or len(v) != n:
            return "%d forecasts for %d distinct times" % (len(m), n)
        sv = max(fxl(a["vars"]))
        for name, g, s, sc in (("forecast mean", m, a["mean"], ymax), ("forecast variance", v, a["vars"], sv),
                               ("predicted mean", pm, a["pmean"], ymax), ("predicted variance", pv, a["pvars"], sv)):
            for x, y in zip(g, fxl(s)):
                if not abs(x - y) <= tol * sc:
                    return "%s %.12g, specified %.12g" % (name, x, y)
        return ""
    # the density of the data is per unit of each value
    g, s = float(rs[1]["ld"]) + n * math.log(u.F), fx(a["ld"])
    if not abs(g - s) <= tol * 100 * (n + abs(s)):
        return "log-density %.12g, specified %.12g" % (g, s)
    for (om, inside, sd), r in zip(a["tests"], tests):
        if (abs(float(r["ld"])) < float("inf")) != inside:
            return "%s: log-density %s, specified %s" % ("omega = %.9g" % fx(om) if om else "deviation = %.9g" % fx(sd), r["ld"],
                                                         "inside the prior" if inside else "outside the prior")
    return ""
