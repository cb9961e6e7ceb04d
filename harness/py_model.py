"""Fits, order choices and sampler runs of model objects; the optimiser is recorded or replaced by a script."""
import fcntl
import json
import os
import sys
import traceback
import types
import numpy as np
import scipy.optimize

CFG = json.load(open(sys.argv[1]))
LOG = os.path.join(CFG["scratch"], "optimiser.log")
REAL = scipy.optimize.minimize
SCRIPT = []          # outcomes of the optimisations to come, in the order of the calls


def minimize(fun, x0, args=(), **kw):
    """Same as the library's, with a record of every call; shared between processes through a file."""
    with open(LOG, "a+") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        f.seek(0)
        k = sum(1 for _ in f)
        if SCRIPT:
            o = SCRIPT[k] if k < len(SCRIPT) else {"cls": 0, "fun": 0.0}
            v = [o["fun"], float("nan"), float("inf")][o["cls"]]
            r = scipy.optimize.OptimizeResult(x=np.array(x0, dtype=float), fun=v, message="scripted %d" % k, success=True)
            r.x[2] = 1000.0 + k
            f.write(json.dumps({"dim": len(x0), "fun": str(v), "tag": 1000.0 + k}) + "\n")
            return r
    r = REAL(fun, x0, args=args, **kw)
    with open(LOG, "a") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        f.write(json.dumps({"dim": len(x0), "fun": str(float(np.squeeze(r.fun))), "x": [float(a) for a in r.x]}) + "\n")
    return r


scipy.optimize.minimize = minimize
import carmcmc as cm
from carmcmc import _carmcmc as lib

CALLS = []


def recorded(name):
    real = getattr(lib, name)

    def call(*a):
        r = real(*a)
        CALLS.append({"name": name, "args": [list(x) if isinstance(x, lib.vecD) else x for x in a], "result": r})
        return r
    return call


for nm in ("run_mcmc_car1", "run_mcmc_carma"):
    setattr(lib, nm, recorded(nm))


def vec(x):
    v = lib.vecD()
    v.extend([float(a) for a in x])
    return v


def flat(a):
    a = np.asarray(a)
    r = {"shape": list(a.shape), "re": [float(x) for x in np.real(a).ravel()]}
    if np.iscomplexobj(a):
        r["im"] = [float(x) for x in np.imag(a).ravel()]
    return r


def log_lines():
    if not os.path.exists(LOG):
        return []
    return [json.loads(l) for l in open(LOG)]


def own(m, p, q, x):
    """The library's log-density in maximum-likelihood mode, for the data of the model"""
    args = [True, "x", vec(m.time), vec(m.y), vec(m.ysig)]
    if p == 1:
        o = lib.CAR1(*args)
    elif q == 0:
        o = lib.CARp(*(args + [p]))
    else:
        o = lib.CARMA(*(args + [p, q]))
    if p > 1:
        o.SetMLE(True)
    return float(o.getLogDensity(vec(x)))


def result(r):
    return {"fun": str(float(np.squeeze(r.fun))), "x": [float(a) for a in r.x]}


def perform(m, op):
    global SCRIPT
    del CALLS[:]
    if os.path.exists(LOG):
        os.remove(LOG)
    SCRIPT = op.get("script") or []
    d = {}
    if op["op"] == "fit":
        r = m.get_mle(op["p"], op["q"], ntrials=op["trials"], njobs=op["jobs"])
        d["fit"] = result(r)
        if not SCRIPT:
            d["own"] = own(m, op["p"], op["q"], r.x)
    elif op["op"] == "order":
        kw = {"njobs": op["jobs"], "ntrials": op["trials"]}
        if op["qmax"] >= 0:
            kw["qmax"] = op["qmax"]
        if op["list"]:
            kw["pqlist"] = [tuple(x) for x in op["list"]]
        best, pairs, scores = m.choose_order(op["pmax"], **kw)
        d["fit"] = result(best)
        d["pairs"] = [[int(a) for a in x] for x in pairs]
        d["scores"] = [str(float(np.squeeze(x))) for x in scores]
        if not SCRIPT:
            d["own"] = own(m, m.p, m.q, best.x)
    elif op["op"] == "run":
        kw = {k: op[k] for k in ("nburnin", "ntemperatures", "nthin") if k in op}
        if op.get("init"):
            kw["init"] = vec(op["init"])
        s = m.run_mcmc(op["nsamples"], **kw)
        d["calls"] = [{"name": c["name"], "args": c["args"]} for c in CALLS]
        d["kept"] = m.mcmc_sample is s
        d["type"] = type(s).__name__
        d["order"] = [int(s.p), int(s.q)]
        d["dump"] = {k: flat(s.get_samples(k)) for k in sorted(s.parameters)}
        d["data"] = [list(map(float, a)) for a in (s.time, s.y, s.ysig)]
        d["raw"] = [[float(x) for x in r] for r in CALLS[-1]["result"].getSamples()] if CALLS else None
        d["dic"] = float(np.squeeze(s.DIC()))
    else:
        raise RuntimeError("unknown operation")
    d["log"] = log_lines()
    d["p"], d["q"] = int(m.p), int(m.q)
    d["data_kept"] = [list(map(float, a)) for a in (m.time, m.y, m.ysig)]
    return d


def pool_works():
    """Whether this machine lets processes share work at all (they need semaphores)."""
    import multiprocessing
    try:
        pool = multiprocessing.Pool(2)
        ok = pool.map(int, [1, 2]) == [1, 2]
        pool.terminate()
        return ok
    except Exception:
        return False


def main():
    np.random.seed(CFG["seed"] % (2 ** 32))
    out = []
    if not pool_works():
        for c in CFG["cases"]:
            for op in c["ops"]:
                op["jobs"] = 1
    for c in CFG["cases"]:
        res = []
        out.append(res)
        try:
            m = cm.CarmaModel(*[np.array(c[k], dtype=float) for k in ("t", "y", "e")], p=c["p"], q=c["q"])
        except Exception:
            res.append({"exception": traceback.format_exc()[-600:]})
            continue
        for op in c["ops"]:
            try:
                res.append(perform(m, op))
            except Exception:
                res.append({"exception": traceback.format_exc()[-600:]})
    json.dump(out, open(sys.argv[2], "w"))


if __name__ == "__main__":
    main()
