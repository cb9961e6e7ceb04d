"""Replays calls on several objects of the compiled module, interleaved."""
import gc
import json
import sys
import traceback
from carmcmc import _carmcmc as lib

def vec(x):
    v = lib.vecD()
    v.extend([float(a) for a in x])
    return v


def make(op, held):
    t, y, e = (vec(op[k]) for k in ("t", "y", "e"))
    held += [t, y, e]
    if op["cls"] == "filter":
        if op["kind"] == "car1":
            return lib.KalmanFilter1(t, y, e, op["sigsqr"], -op["roots"][0][0])
        w = lib.vecC()
        w.extend([complex(*z) for z in op["roots"]])
        ma = vec(op["ma"])
        held += [w, ma]
        return lib.KalmanFilterp(t, y, e, op["sigsqr"], w, ma)
    args = [True, "x", t, y, e] + {"car1": [], "car": [op["p"]], "carma": [op["p"], op["q"]]}[op["kind"]]
    if op["given"]:
        args.append(op["temp"])
    return {"car1": lib.CAR1, "car": lib.CARp, "carma": lib.CARMA}[op["kind"]](*args)


def run(op, held):
    t, y, e = (vec(op[k]) for k in ("t", "y", "e"))
    held += [t, y, e]
    n, burn, thin, chains = op["nums"]
    start = vec(op["theta"])
    if op["kind"] == "car1":
        args = [n, burn, t, y, e] + [thin, start][:op["given"]]
        o = lib.run_mcmc_car1(*args)
    else:
        args = [n, burn, t, y, e, op["p"], op["q"], chains] + [op["kind"] == "zcar", thin, start][:op["given"]]
        o = lib.run_mcmc_carma(*args)
    if op["given"] == (2 if op["kind"] == "car1" else 3):
        held.append(start)
    s, l = o.getSamples(), o.GetLogLikes()
    r = {"samples": [[float(a) for a in x] for x in s], "logs": [float(a) for a in l],
         "again": [str(o.getLogDensity(x)) for x in s]}
    held += [l] + [x for x in s]
    return o, r


def answer(o, op, held):
    k = op["op"]
    if k in ("density", "prior"):
        v = vec(op["theta"])
        held.append(v)
        x = o.getLogDensity(v) if k == "density" else o.getLogPrior(v)
        return {"value": str(x), "intact": list(v) == op["theta"]}
    if k == "mle":
        o.SetMLE(op["on"])
        return {}
    if k == "filter":
        o.Filter()
        m, v = o.GetMean(), o.GetVar()
        r = {"mean": [float(x) for x in m], "vars": [float(x) for x in v]}
        held += [m, v]
        return r
    if k == "predict":
        p = [o.Predict(x) for x in op["times"]]
        return {"mean": [p_.first for p_ in p], "vars": [p_.second for p_ in p]}
    if k == "simulate":
        t = vec(op["times"])
        held.append(t)
        vals = []
        for _ in range(op["m"]):
            s = o.Simulate(t)
            if len(s) != len(op["times"]):
                return {"values": [float(x) for x in s], "count": len(s)}
            vals += [float(x) for x in s]
        held.append(s)
        return {"values": vals, "intact": list(t) == op["times"]}
    raise RuntimeError("unknown operation " + k)


def main():
    a = json.load(open(sys.argv[1]))
    out = []
    for c in a["cases"]:
        objs, held, res = {}, {}, []
        out.append(res)
        for op in c["ops"]:
            try:
                i, r = op["slot"], {}
                if op["op"] in ("make", "run"):
                    held[i] = []
                    if op["first"]:
                        objs.pop(i, None)
                    if op["op"] == "make":
                        objs[i] = make(op, held[i])
                    else:
                        objs[i], r = run(op, held[i])
                    r["intact"] = all(list(x) == op[k] for x, k in zip(held[i], ("t", "y", "e")))
                elif op["op"] == "scribble":
                    for v in held[i]:
                        for j in range(len(v)):
                            v[j] = 7.25
                elif op["op"] == "drop":
                    del objs[i], held[i]
                    gc.collect()
                else:
                    r = answer(objs[i], op, held[i])
                res.append(r)
            except Exception:
                res.append({"exception": traceback.format_exc()[-700:]})
    json.dump(out, open(sys.argv[2], "w"))


main()
