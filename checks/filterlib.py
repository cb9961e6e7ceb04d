"""Replay of filterobj traces into the filter classes."""
import math

from vlib.quint import fx, fxl


def vec(xs):
    return "%d %s" % (len(xs), " ".join("%.17g" % x for x in xs)) if xs else "0"


class Units:
    """The units of a case: times are multiplied by 2^t and values by 2^f, see gen.qnt."""

    def __init__(self, units):
        self.T, self.F = 2.0 ** units["t"], 2.0 ** units["f"]

    def time(self, x):
        return fx(x) * self.T

    def times(self, xs):
        return [fx(x) * self.T for x in xs]

    def values(self, xs):
        return [fx(x) * self.F for x in xs]

    def rates(self, xs):
        return [fx(x) / self.T for x in xs]

    def ma(self, ma):
        return [fx(m) * self.T ** k for k, m in enumerate(ma)]

    def noise(self, sigsqr, p):
        return fx(sigsqr) * self.F ** 2 / self.T ** (2 * p - 1)

    # answers, expressed in the units of the specification
    def mean(self, x):
        return float(x) / self.F

    def var(self, x):
        return float(x) / self.F / self.F


def new_line(ident, obj, roots, ctor):
    u = Units(obj["units"])
    t, y, e = u.times(r["t"] for r in obj["rows"]), u.values(r["y"] for r in obj["rows"]), u.values(r["e"] for r in obj["rows"])
    if obj["kind"] == "kf1":
        re, im, ma = u.rates([obj["quad"][0]]), [0.0], [1.0]
    else:
        re, im = u.rates(r[0] for r in roots), u.rates(r[1] for r in roots)
        ma = u.ma(obj["ma"])
    return "filter_new %s %s %s %s %s %s %.17g %s %s %s" % (
        ident, obj["kind"], ctor, vec(t), vec(y), vec(e), u.noise(obj["sigsqr"], len(obj["quad"])), vec(re), vec(im), vec(ma))


def set_line(ident, ev):
    o, op = ev["obj"], ev["op"]
    u = Units(o["units"])
    if op == "setsig":
        return "setsig %s %.17g" % (ident, u.noise(o["sigsqr"], len(o["quad"])))
    if op == "setomega":
        if o["kind"] == "kf1":
            return "setomega %s %s %s" % (ident, vec(u.rates([o["quad"][0]])), vec([0.0]))
        return "setomega %s %s %s" % (ident, vec(u.rates(r[0] for r in ev["roots"])), vec(u.rates(r[1] for r in ev["roots"])))
    if op == "setma":
        ma = u.ma(o["ma"])
        return "setma %s %s" % (ident, vec(ma + [0.0] * (len(o["quad"]) - len(ma))))
    if op == "sety":
        return "sety %s %s" % (ident, vec(u.values(r["y"] for r in o["rows"])))
    if op == "sete":
        return "sete %s %s" % (ident, vec(u.values(r["e"] for r in o["rows"])))
    if op == "settime":
        return "settime %s %s" % (ident, vec(u.times(r["t"] for r in o["rows"])))
    raise RuntimeError("unknown operation " + op)


# calls that take several steps
SEVERAL = {"setorder": ("setsig", "setomega", "setma"), "setdata": ("settime", "sety", "sete")}


def describe(ev):
    o = ev["obj"]
    return {"kind": o["kind"], "p": len(o["quad"]), "roots": [(fx(a), fx(b)) for a, b in ev["roots"]],
            "ma": fxl(o["ma"]), "sigsqr": fx(o["sigsqr"]), "rows": [[fx(r["t"]), fx(r["y"]), fx(r["e"])] for r in o["rows"]],
            "request": fxl(ev["req"]),
            "units": "times x 2^%d, values x 2^%d" % (o["units"]["t"], o["units"]["f"])}


def scales(ev):
    """Size of the means and of the variances of a case, for tolerances relative to them."""
    r0 = fx(ev["r0"])
    ymax = max([abs(fx(r["y"])) for r in ev["obj"]["rows"]] + [r0 ** 0.5])
    return ymax, r0


def cancellation(roots, ma, r0, sigsqr):
    """Size of the terms of the stationary variance in the basis of the characteristic roots, relative to
    their sum: the factor by which double precision loses accuracy in any root-space computation."""
    r = [complex(fx(a), fx(b)) for a, b in roots]
    if len(r) == 1:
        return 1.0
    c = []
    for k, x in enumerate(r):
        d = 1.0 + 0j
        for l, z in enumerate(r):
            if l != k:
                d *= x - z
        if d == 0 or x.real == 0 or r0 <= 0:
            return math.inf
        c.append(sum(fx(m) * x ** i for i, m in enumerate(ma)) / d)
    tot = sum(abs(c[i] * c[j].conjugate() / (r[i] + r[j].conjugate())) for i in range(len(r)) for j in range(len(r)))
    return max(1.0, fx(sigsqr) * tot / fx(r0))


def rounding(ev):
    """Estimate of the relative rounding error of a double precision evaluation of a case."""
    o = ev["obj"]
    return rounding_of(ev["roots"], o["ma"], ev["r0"], o["sigsqr"], ev["vmin"])


def rounding_of(roots, ma, r0, sigsqr, vmin):
    kap = max(1.0, r0 / vmin) if vmin > 0 else 1.0
    # the last terms are the resolution of the specification's own numbers
    return 2.3e-16 * cancellation(roots, ma, r0, sigsqr) * kap + (
        1e-30 / fx(sigsqr) + 1e-35 / fx(r0) if sigsqr > 0 and r0 > 0 else 1.0)


MAXROUND = 1e-9      # cases beyond this are too ill-conditioned for a verdict


def tolerance(ev):
    """Allowed relative deviation, or None for an ill-conditioned case. The largest deviations measured on
    correct code are about 200 times the estimate."""
    r = rounding(ev)
    return None if r > MAXROUND else 1e-7 + 1e4 * r
