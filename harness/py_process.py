"""Functions of a process: spectrum, autocovariance, roots, synthetic light curves."""
import json
import sys
import traceback
import numpy as np
import carmcmc as cm
from carmcmc import carma_pack


def scale(c):
    """Puts a case into its units (see gen.qnt); the factors are powers of two."""
    a = c.get("units", {"t": 0, "f": 0})
    T, F = 2.0 ** a["t"], 2.0 ** a["f"]
    for k in ("roots",):
        if k in c:
            c[k] = [[x / T for x in z] for z in c[k]]
    for k in ("widths", "cents", "freqs"):
        if k in c:
            c[k] = [x / T for x in c[k]]
    for k in ("lags", "times"):
        if k in c:
            c[k] = [x * T for x in c[k]]
    if "ar" in c:
        c["ar"] = [x / T ** i for i, x in enumerate(c["ar"])]
    if "ma" in c:
        c["ma"] = [x * T ** i for i, x in enumerate(c["ma"])]
    if "sigsqr" in c:
        p = len(c["roots"])
        c["sigsqr"] *= F ** 2 / T ** (2 * p - 1)
        c["sigma"] = c["sigsqr"] ** 0.5
    return T, F


def unscale(r, T, F):
    for k in ("power", "power1", "power0"):
        if k in r:
            r[k] = [x / F / F / T for x in r[k]]
    for k in ("acov", "acov1", "acov0"):
        if k in r:
            r[k] = [x / F / F for x in r[k]]
    if "var0" in r:
        r["var0"] = r["var0"] / F / F
    if "roots" in r:
        r["roots"] = [[x * T for x in z] for z in r["roots"]]
    if "values" in r:
        r["values"] = [x / F for x in r["values"]]
    return r


def main():
    a = json.load(open(sys.argv[1]))
    np.random.seed(a["seed"] % (2 ** 32))
    out = []
    for c in a["cases"]:
        try:
            r = {}
            T, F = scale(c)
            if c["op"] == "functions":
                roots = np.array([complex(*z) for z in c["roots"]])
                ar, ma, f = np.array(c["ar"]), np.array(c["ma"]), np.array(c["freqs"])
                keep = [x.copy() for x in (roots, ar, ma, f)]
                r["power"] = [float(x) for x in cm.power_spectrum(f, c["sigma"], ar, ma_coefs=ma)]
                r["power1"] = [float(cm.power_spectrum(float(x), c["sigma"], list(c["ar"]), ma_coefs=list(c["ma"]))) for x in f]
                r["acov"] = [float(np.real(cm.carma_variance(c["sigsqr"], roots, ma_coefs=ma, lag=l))) for l in c["lags"]]
                r["acov1"] = [float(np.real(cm.carma_variance(c["sigsqr"], roots, ma_coefs=list(c["ma"]) + [0.0] * (len(roots) - len(c["ma"])), lag=l))) for l in c["lags"]]
                r["var0"] = float(np.real(cm.carma_variance(c["sigsqr"], roots, ma)))
                if len(c["ma"]) == 1:
                    r["power0"] = [float(x) for x in cm.power_spectrum(f, c["sigma"], ar)]
                    r["acov0"] = [float(np.real(cm.carma_variance(c["sigsqr"], roots, lag=l))) for l in c["lags"]]
                r["intact"] = bool(all(np.array_equal(x, y) for x, y in zip(keep, (roots, ar, ma, f))))
            elif c["op"] == "roots":
                w, z = np.array(c["widths"]), np.array(c["cents"])
                g = cm.get_ar_roots(w if c["arrays"] else list(w), z if c["arrays"] else list(z))
                r["roots"] = [[float(x.real), float(x.imag)] for x in np.asarray(g)]
                r["intact"] = list(w) == c["widths"] and list(z) == c["cents"]
            else:
                roots = np.array([complex(*z) for z in c["roots"]])
                ma, t = np.array(c["ma"]), np.array(c["times"])
                keep = [x.copy() for x in (roots, ma, t)]
                vals = []
                for _ in range(c["m"]):
                    if c["form"] == "car1":
                        y = carma_pack.car1_process(t, c["sigsqr"], -1.0 / roots[0].real)
                    elif c["form"] == "default":
                        y = cm.carma_process(t, c["sigsqr"], roots)
                    else:
                        y = cm.carma_process(t, c["sigsqr"], roots, ma_coefs=ma)
                    vals += [float(x) for x in np.ravel(y)]
                r["values"] = vals
                r["intact"] = bool(all(np.array_equal(x, y) for x, y in zip(keep, (roots, ma, t))))
            out.append(unscale(r, T, F))
        except Exception:
            out.append({"exception": traceback.format_exc()[-600:]})
    json.dump(out, open(sys.argv[2], "w"))


main()
