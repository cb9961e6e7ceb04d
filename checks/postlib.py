"""Replay of posteriorobj traces into the posterior classes."""
import math

from vlib.quint import fx, fxl
from .filterlib import Units, vec, rounding_of

MARGIN = 1e-9        # closer to a boundary of the prior than this (relative) gives no verdict


def post_line(ident, o):
    u = Units(o["units"])
    t, y, e = u.times(r["t"] for r in o["rows"]), u.values(r["y"] for r in o["rows"]), u.values(r["e"] for r in o["rows"])
    return "post_new %s %s %d %d %.17g %s %s %s" % (ident, o["kind"], o["p"], o["q"], fx(o["temp"]), vec(t), vec(y), vec(e))


def shifts(o):
    """What a change of the unit of time by a factor 2 subtracts from each parameter, in multiples of ln 2."""
    def quads(n):
        return [2 if i % 2 == 0 and i + 1 < n else 1 for i in range(n)]
    return [0, 0, 0] + quads(o["p"]) + (quads(o["q"]) if o["kind"] == "carma" else [0] if o["kind"] == "zcarma" else [])


def in_units(o, th):
    """A parameter vector of the specification in the units of the object."""
    F, lt = 2.0 ** o["units"]["f"], o["units"]["t"] * math.log(2.0)
    v = [x - k * lt for x, k in zip(fxl(th), shifts(o))]
    return [v[0] * F, v[1], v[2] * F] + v[3:]


def from_units(o, v):
    """The inverse, for a vector of floating point numbers."""
    F, lt = 2.0 ** o["units"]["f"], o["units"]["t"] * math.log(2.0)
    w = [x + k * lt for x, k in zip(v, shifts(o))]
    return [w[0] / F, w[1], w[2] / F] + w[3:]


def change_line(ident, ev):
    o, op = ev["post"], ev["op"]
    u = Units(o["units"])
    if op == "setprior":
        return "setprior %s %.17g" % (ident, fx(o["maxsd"]) * u.F)
    if op == "setmle":
        return "mle %s %d" % (ident, 1 if o["mle"] else 0)
    if op == "kappa":
        return "kappa %s %.17g %.17g" % ((ident,) + tuple(u.rates([o["klo"], o["khi"]])))
    raise RuntimeError("unknown operation " + op)


def describe(ev):
    o = ev["post"]
    return {"kind": o["kind"], "p": o["p"], "q": o["q"], "mle": o["mle"], "maxsd": fx(o["maxsd"]),
            "rows": [[fx(r["t"]), fx(r["y"]), fx(r["e"])] for r in o["rows"]], "theta": fxl(ev["theta"]),
            "inside": ev["inside"],
            "units": "times x 2^%d, values x 2^%d" % (o["units"]["t"], o["units"]["f"]), "broken": ev["broken"]}


def density_tolerance(ev):
    """Allowed deviation of a log-density, or None for an ill-conditioned case."""
    l = ev["lik"]
    r = rounding_of(ev["roots"], ev["ma"], l["r0"], ev["sigsqr"], l["vmin"])
    if r > 1e-9 or l["vmin"] <= 0:
        return None
    n, chi2, vmin = len(ev["post"]["rows"]), fx(l["chi2"]), fx(l["vmin"])
    ys = max([abs(fx(x["y"] - ev["theta"][2])) for x in ev["post"]["rows"]] + [fx(l["r0"]) ** 0.5])
    return (1e-7 + 1e4 * r) * (n + chi2 + (n * chi2) ** 0.5 * ys / vmin ** 0.5) + 1e-9


def margin_ok(ev):
    need = 1e-5 if ev["tag"] in ("near-coincident", "close-pair") else MARGIN
    return fx(ev["margin"]) >= need
