"""Replays histories of calls into the filter written in Python."""
import json
import sys
import traceback
import numpy as np
from carmcmc import carma_pack


def main():
    a = json.load(open(sys.argv[1]))
    np.random.seed(a["seed"] % (2 ** 32))
    out = []
    for c in a["cases"]:
        res = []
        out.append(res)
        t, y, e = (np.array(c[k], dtype=float) for k in ("t", "y", "e"))
        roots = np.array([complex(*z) for z in c["roots"]])
        keep = [x.copy() for x in (t, y, e, roots)]
        kf = None
        for op in c["ops"]:
            try:
                if kf is None:
                    kw = {} if c["default"] else {"ma_coefs": np.array(c["ma"]) if c["arrays"] else list(c["ma"])}
                    kf = carma_pack.KalmanFilterDeprecated(t, y, e ** 2, c["sigsqr"], roots, **kw)
                if op["op"] == "filter":
                    m, v = kf.filter()
                    r = {"mean": [float(x) for x in m], "vars": [float(x) for x in v]}
                elif op["op"] == "predict":
                    p = [kf.predict(x) for x in op["times"]]
                    r = {"mean": [float(x[0]) for x in p], "vars": [float(x[1]) for x in p]}
                else:
                    vals = []
                    for _ in range(op["m"]):
                        if op["scalar"]:
                            vals.append(float(kf.simulate(op["times"][0])))
                        else:
                            vals += [float(x) for x in kf.simulate(np.array(op["times"]))]
                    r = {"values": vals}
                r["intact"] = bool(all(np.array_equal(x, z) for x, z in zip(keep, (t, y, e, roots))))
                res.append(r)
            except Exception:
                res.append({"exception": traceback.format_exc()[-700:]})
    json.dump(out, open(sys.argv[2], "w"))


main()
