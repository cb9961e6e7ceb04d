"""Whole sampler runs: building the driver, and commands made from the specified settings."""
import os

from vlib import build
from vlib.quint import fx, fxl
from .filterlib import vec

SOURCE = "carmcmc.cpp"


def spy_driver():
    """Driver that watches the steps of a run, or None where the sources cannot be watched this way."""
    try:
        return build.driver("drv_runs", exclude=(SOURCE,), extra_flags=["-DSPY"],
                            extra_sources=[(os.path.join(build.SRC, SOURCE), ["-include", os.path.join(build.HARNESS, "spy.hpp")])])
    except build.BuildError:
        return None


def plain_driver():
    return build.driver("drv_runs")


def line(ident, r, virial=0, samples=None, burnin=None):
    o = r["post"]
    t, y, e = ([fx(x[k]) for x in o["rows"]] for k in ("t", "y", "e"))
    return "run %s %s %d %d %d %d %d %d %.17g %s %s %s %s %d" % (
        ident, o["kind"], o["p"], o["q"], r["chains"], samples or r["samples"], r["burnin"] if burnin is None else burnin,
        r["thin"], fx(o["maxsd"]), vec(fxl(r["start"])), vec(t), vec(y), vec(e), virial)


def describe(r):
    o = r["post"]
    return dict(kind=o["kind"], p=o["p"], q=o["q"], chains=r["chains"], samples=r["samples"], burnin=r["burnin"], thin=r["thin"],
                start=fxl(r["start"]), rows=[[fx(x["t"]), fx(x["y"]), fx(x["e"])] for x in o["rows"]])


def name(r):
    o = r["post"]
    return "%s p=%d q=%d, %d chains, %d samples, burn-in %d, thinning %d" % (
        o["kind"], o["p"], o["q"], r["chains"], r["samples"], r["burnin"], r["thin"])
