"""Sampler runs through the Python wrapper."""
import json
import sys
import traceback
import carmcmc as cm
from carmcmc import _carmcmc as lib


def vec(x):
    v = lib.vecD()
    v.extend([float(a) for a in x])
    return v


cases = json.load(open(sys.argv[1]))
out = []
for c in cases:
    try:
        t, y, e = vec(c["t"]), vec(c["y"]), vec(c["e"])
        if c["kind"] == "car1":
            args = [c["samples"], c["burnin"], t, y, e]
            if c["thin"] > 1 or c["start"]:
                args.append(c["thin"])
            if c["start"]:
                args.append(vec(c["start"]))
            r = lib.run_mcmc_car1(*args)
        else:
            args = [c["samples"], c["burnin"], t, y, e, c["p"], c["q"], c["chains"]]
            if c["thin"] > 1 or c["start"] or c["kind"] == "zcar":
                args += [c["kind"] == "zcar", c["thin"]]
            if c["start"]:
                args.append(vec(c["start"]))
            r = lib.run_mcmc_carma(*args)
        s = [list(x) for x in r.getSamples()]
        out.append({"lens": [len(x) for x in s], "theta": [float(v) for x in s for v in x], "lls": [float(x) for x in r.GetLogLikes()],
                    "again": [float(r.getLogDensity(vec(x))) for x in s], "prior": [float(r.getLogPrior(vec(x))) for x in s],
                    "intact": list(t) == c["t"] and list(y) == c["y"] and list(e) == c["e"]})
    except Exception:
        out.append({"exception": traceback.format_exc()[-600:]})
json.dump(out, open(sys.argv[2], "w"))
