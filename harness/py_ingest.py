"""Builds models from rows in any order and reports the series they hold, and the filter output through the wrapper."""
import json
import sys
import traceback
import numpy as np
import carmcmc as cm

cases = json.load(open(sys.argv[1]))
out = []
for c in cases:
    try:
        t, y, e = (np.array(c[k], dtype=float) for k in ("t", "y", "e"))
        keep = (t.copy(), y.copy(), e.copy())
        m = cm.CarmaModel(t, y, e, p=c["p"], q=c["q"])
        out.append({"t": list(map(float, m.time)), "y": list(map(float, m.y)), "e": list(map(float, m.ysig)),
                    "vt": list(m._time) if hasattr(m, "_time") else None,
                    "vy": list(m._y) if hasattr(m, "_y") else None,
                    "ve": list(m._ysig) if hasattr(m, "_ysig") else None,
                    "intact": bool(all(np.array_equal(a, b) for a, b in zip(keep, (t, y, e))))})
    except Exception:
        out.append({"exception": traceback.format_exc()[-600:]})
json.dump(out, open(sys.argv[2], "w"))
