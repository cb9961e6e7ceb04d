"""Builds fitted sample objects from given parameter tables and replays operations on them."""
import json
import os
import sys
import traceback
import types
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import carmcmc as cm
from carmcmc import _carmcmc as lib
from py_shown import shown


def vec(x):
    v = lib.vecD()
    v.extend([float(a) for a in x])
    return v


class Fake(object):
    """A sampler that returns a given table and evaluates densities with the library's own object."""
    def __init__(self, base, trace, lps):
        self.base, self.trace, self.lps = base, trace, lps

    def getSamples(self):
        v = lib.vecvecD()
        v.extend([vec(r) for r in self.trace])
        return v

    def GetLogLikes(self):
        return vec(self.lps)

    def __getattr__(self, name):
        return getattr(self.base, name)


class Units(object):
    """Numbers of the specification in the units of a case and back; see gen.qnt. Factors are powers of two."""
    def __init__(self, c):
        a = c.get("units", [0, 0])
        self.T, self.F, self.lt = 2.0 ** a[0], 2.0 ** a[1], a[0] * np.log(2.0)
        self.p, self.q, self.n = c["p"], c["q"], len(c["t"])

    def theta(self, th):
        def quads(n):
            return [2 if i % 2 == 0 and i + 1 < n else 1 for i in range(n)]
        th = [x - k * self.lt for x, k in zip(th, [0, 0, 0] + quads(self.p) + quads(self.q))]
        return [th[0] * self.F, th[1], th[2] * self.F] + th[3:]

    def back(self, name, a):
        """A stored quantity, in the units of the specification."""
        a = np.asarray(a)
        T, F = self.T, self.F
        if name == "var":
            return a / F / F
        if name == "mu":
            return a / F
        if name == "sigma":
            return a / F * T ** (self.p - 1) * np.sqrt(T)
        if name == "log_omega":
            return a + self.lt
        if name in ("ar_roots", "psd_width", "psd_centroid", "psd_cent"):
            return a * T
        if name == "ar_coefs" and a.shape[-1] == self.p + 1:
            return a * T ** np.arange(self.p + 1.0)
        if name == "ma_coefs" and a.ndim > 0:
            return a / T ** np.arange(float(a.shape[-1]))
        if name == "quad_coefs":
            return a * T ** np.array([2.0 if i % 2 == 0 and i + 1 < self.p else 1.0 for i in range(a.shape[-1])])
        if name in ("loglik", "logpost") and a.ndim >= 1:
            # the density of the data is per unit of each value
            return a + self.n * np.log(F)
        return a


def build(c):
    u = c["u"] = Units(c)
    t, y, e = (np.array(c[k], dtype=float) * f for k, f in (("t", u.T), ("y", u.F), ("e", u.F)))
    args = [True, "x", vec(t), vec(y), vec(e)]
    if c["kind"] == "car1":
        base = lib.CAR1(*args)
    elif c["kind"] == "car":
        base = lib.CARp(*(args + [c["p"]]))
    else:
        base = lib.CARMA(*(args + [c["p"], c["q"]]))
    smp = Fake(base, [u.theta(th) for th in c["trace"]], [x - u.n * np.log(u.F) for x in c["lps"]])
    if c["kind"] == "car1":
        s = cm.Car1Sample(t, y, e, smp)
    elif c.get("estimate_at_birth"):
        s = cm.CarmaSample(t, y, e, smp, q=c["q"], MLE=estimate(c["estimate_at_birth"], u))
    else:
        s = cm.CarmaSample(t, y, e, smp, q=c["q"])
    return s, base, (t, y, e)


def estimate(a, u):
    return types.SimpleNamespace(x=np.array(u.theta(a["theta"]), dtype=float), fun=float(a["fun"]), message="made up", success=True)


def flat(a):
    a = np.asarray(a)
    r = {"shape": list(a.shape), "re": [float(x) for x in np.real(a).ravel()]}
    if np.iscomplexobj(a):
        r["im"] = [float(x) for x in np.imag(a).ravel()]
    return r


def dump(s, u):
    return {k: flat(u.back(k, s.get_samples(k))) for k in sorted(s.parameters)}


def blob(a):
    a = np.asarray(a)
    return (a.dtype.str, a.shape, np.ascontiguousarray(a).tobytes())


def snapshot(s, caller):
    st = {"sample " + k: blob(s.get_samples(k)) for k in s.parameters}
    for k in ("time", "y", "ysig"):
        st["data " + k] = blob(getattr(s, k))
    for k, a in zip(("time", "y", "ysig"), caller):
        st["array of the caller, " + k] = blob(a)
    st["order"] = (s.p, s.q)
    st["estimate"] = {k: blob(v) for k, v in s.mle.items()} if hasattr(s, "mle") else None
    return st


def names(s, k):
    # a histogram needs real values that differ from their neighbours
    def drawable(n):
        v = np.asarray(s.get_samples(n))
        return not np.iscomplexobj(v) and np.all(np.isfinite(v)) and np.max(np.abs(v)) < 1e10 * (1.0 + np.min(np.ptp(v, axis=0)))
    ns = [n for n in sorted(s.parameters) if drawable(n)]
    return ns[k % len(ns)]


def perform(s, op, u):
    o = op["op"]
    if o == "dump":
        return dump(s, u)
    if o == "read":
        return flat(s.get_samples(names(s, op["row"])))
    if o == "scribble":
        a = s.get_samples(names(s, op["row"]))
        a += 1.0
        a[...] = -7.0
        return None
    if o == "predict":
        t = np.array(op["times"], dtype=float) * u.T
        keep = t.copy()
        if op.get("scalar"):
            r = [s.predict(float(x), bestfit=op["how"]) for x in t]
            m, v = [float(np.squeeze(x[0])) for x in r], [float(np.squeeze(x[1])) for x in r]
        else:
            m, v = s.predict(t, bestfit=op["how"])
            m, v = [float(x) for x in np.ravel(m)], [float(x) for x in np.ravel(v)]
        return {"mean": [x / u.F for x in m], "vars": [x / u.F / u.F for x in v], "intact": bool(np.array_equal(t, keep))}
    if o == "random":
        t = np.array(op["times"], dtype=float) * u.T
        out = []
        for _ in range(op["m"]):
            m, v = s.predict(t, bestfit="random")
            out.append([float(x) / u.F for x in m] + [float(x) / u.F / u.F for x in v])
        return {"draws": out}
    if o == "simulate":
        t = np.array(op["times"], dtype=float) * u.T
        keep = t.copy()
        m = op.get("m", 1)
        out = []
        for _ in range(m):
            if op.get("scalar"):
                out += [float(np.squeeze(s.simulate(float(t[0]), bestfit=op["how"])))]
            else:
                out += [float(x) for x in s.simulate(t, bestfit=op["how"])]
        return {"values": [x / u.F for x in out], "intact": bool(np.array_equal(t, keep))}
    if o == "bands":
        kw = {"percentile": op["pct"], "doShow": False}
        if op["sub"]:
            kw["nsamples"] = op["sub"]
        if op.get("linear"):
            kw["plot_log"] = False
        r = s.plot_power_spectrum(**kw)
        plt.close("all")
        lo, hi, mid, f = [np.asarray(x, dtype=float) for x in r[:4]]
        lo, hi, mid, f = lo / u.F / u.F / u.T, hi / u.F / u.F / u.T, mid / u.F / u.F / u.T, f * u.T
        n = len(f)
        idx = sorted({0, n - 1} | {int(u * (n - 1)) for u in op["picks"]})
        return {"n": n, "f": [float(f[0]), float(f[-1])], "rising": bool(np.all(np.diff(f) > 0)),
                "ordered": bool(np.all(lo <= mid * (1 + 1e-12)) and np.all(mid <= hi * (1 + 1e-12))),
                "logstep": float(np.ptp(np.diff(np.log(f)))),
                "lens": [len(lo), len(mid), len(hi)],
                "at": [[float(f[i]), float(lo[i]), float(mid[i]), float(hi[i])] for i in idx]}
    if o == "criterion":
        return {"value": float(np.squeeze(s.DIC())) - 2.0 * u.n * float(np.log(u.F))}
    if o == "addmle":
        e = estimate(op, u)
        keep = e.x.copy()
        s.add_mle(e)
        return {"mle": {k: flat(u.back(k, v)) for k, v in s.mle.items()}, "intact": bool(np.array_equal(keep, e.x)) and e.fun == float(op["fun"])}
    if o == "assess":
        s.assess_fit(bestfit=op["how"], nplot=8, doShow=False)
        plt.close("all")
        return None
    if o == "figure":
        fig = s.assess_fit(bestfit=op["how"], nplot=op["n"], doShow=False)
        out = [shown(ax) for ax in fig.axes]
        plt.close("all")
        return {"axes": out, "T": u.T, "F": u.F}
    if o in ("trace", "pdf1", "pdf2"):
        n = names(s, op["row"])
        if o == "trace":
            s.plot_trace(n)
        elif o == "pdf1":
            s.plot_1dpdf(n)
        else:
            s.plot_2dpdf(n, names(s, op["row"] // 7))
        plt.close("all")
        return None
    raise RuntimeError("unknown operation " + o)


def main():
    a = json.load(open(sys.argv[1]))
    np.random.seed(a["seed"] % (2 ** 32))
    out = []
    for c in a["cases"]:
        res = {"ops": []}
        out.append(res)
        try:
            s, base, caller = build(c)
            res["p"], res["q"] = int(s.p), int(s.q)
            if c.get("estimate_at_birth"):
                res["mle"] = {k: flat(c["u"].back(k, v)) for k, v in s.mle.items()}
        except Exception:
            res["exception"] = traceback.format_exc()[-600:]
            continue
        if c.get("probe"):
            res["probe"] = [float(base.getLogDensity(vec(c["u"].theta(c["probe"]))))]
        first = snapshot(s, caller)
        for op in c["ops"]:
            try:
                r = perform(s, op, c["u"])
            except Exception:
                res["ops"].append({"exception": traceback.format_exc()[-600:]})
                continue
            finally:
                if c.get("watch"):
                    now = snapshot(s, caller)
                    if op["op"] == "addmle":
                        first["estimate"] = now["estimate"]
                    changed = sorted(k for k in set(first) | set(now) if first.get(k) != now.get(k))
            d = {"r": r}
            if c.get("watch"):
                d["changed"] = changed
            res["ops"].append(d)
    json.dump(out, open(sys.argv[2], "w"))


main()
