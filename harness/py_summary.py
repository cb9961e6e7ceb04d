"""Fills sample containers from files and replays reports on them."""
import contextlib
import io
import json
import os
import re
import sys
import tempfile
import traceback
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from py_shown import shown
import acor


def timescale(x, *a, **k):
    """Stands for the external autocorrelation time; see summary.qnt."""
    x = np.asarray(x)
    if x.ndim != 1 or np.iscomplexobj(x):
        raise RuntimeError("autocorrelation time of something that is no real series")
    big = float(np.max(np.abs(x)))
    tau = 1.0 if big == 0.0 else 1.0 + (abs(float(x[0])) + 2.0 * abs(float(x[-1]))) / big
    return tau, float(np.mean(x)), float(np.std(x))


acor.acor = timescale
import carmcmc as cm

np.set_printoptions(precision=17)
NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|nan|inf")
KEYS = [("element", None), ("Effective", "neff"), ("Median", "med"), ("Standard", "sd"), ("68%", "i68"), ("95%", "i95"), ("99%", "i99")]


def parse(text):
    """Blocks of a printed summary: name, element and the numbers after each heading."""
    out = []
    for line in text.split("\n"):
        if line.startswith("Posterior summary for parameter"):
            w = line.split()
            out.append({"name": w[4], "element": int(w[-1]) if "element" in w else 0})
        elif out and ":" in line:
            head, _, tail = line.partition(":")
            for k, name in KEYS[1:]:
                if head.startswith(k):
                    out[-1][name] = [float(x) for x in NUMBER.findall(tail)]
    return out


def write(path, name, cols):
    with open(path, "w") as f:
        f.write(name + "\n")
        for row in zip(*cols):
            f.write(" ".join("%.17g" % x for x in row) + "\n")


def figure():
    out = []
    for num in plt.get_fignums():
        out += [dict(shown(ax), levels=[[float(x) for x in c.levels] for c in ax.collections if hasattr(c, "levels")],
                     xlim=[float(x) for x in ax.get_xlim()], label=ax.get_ylabel()) for ax in plt.figure(num).axes]
    plt.close("all")
    return out


def known(s):
    out = []
    for n in ("theta", "sigma", "log_omega", "mu"):
        try:
            s.get_samples(n)
            out.append(n)
        except KeyError:
            pass
    return sorted(out)


def perform(s, op, path):
    o = op["op"]
    if o == "load":
        write(path, op["name"], op["cols"])
        s.generate_from_file([path])
        s.newaxis()
        return None
    if o == "read":
        a = s.get_samples(op["name"])
        return {"cols": [[float(x) for x in c] for c in a.T]}
    if o == "summary":
        text = io.StringIO()
        with contextlib.redirect_stdout(text):
            s.posterior_summaries(op["name"])
        return {"blocks": parse(text.getvalue())}
    if o == "effective":
        r = s.effective_samples(op["name"])
        return {"neff": None if r is None else [float(x) for x in r]}
    plt.close("all")
    if o == "trace":
        s.plot_trace(op["name"])
    elif o == "autocorr":
        s.plot_autocorr(op["name"])
    elif o == "parameter":
        s.plot_parameter(op["name"], pindex=op["i"])
    elif o == "pdf1":
        s.plot_1dpdf(op["name"])
    elif o == "pdf2":
        s.plot_2dpdf(op["name"], op["other"], op["i"], op["j"])
    elif o == "kde":
        s.plot_2dkde(op["name"], op["other"], op["i"], op["j"], nbins=op["nb"])
    else:
        raise RuntimeError("unknown operation " + o)
    return {"axes": figure()}


def main():
    a = json.load(open(sys.argv[1]))
    out = []
    with tempfile.TemporaryDirectory(dir=os.getcwd()) as tmp:
        for c in a["cases"]:
            s, res = None, []
            out.append(res)
            for k, op in enumerate(c["ops"]):
                try:
                    path = os.path.join(tmp, "s.txt")
                    if s is None and op["op"] == "load" and c["birth"]:
                        write(path, op["name"], op["cols"])
                        s = cm.MCMCSample(filename=path)
                        s.newaxis()
                        r = None
                    else:
                        if s is None:
                            s = cm.MCMCSample()
                        r = perform(s, op, path)
                    res.append({"r": r, "names": known(s)})
                except Exception:
                    res.append({"exception": traceback.format_exc()[-700:]})
                    plt.close("all")
    json.dump(out, open(sys.argv[2], "w"))


main()
