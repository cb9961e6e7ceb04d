"""Running the Quint specification and reading its traces."""
import concurrent.futures as cf
import glob
import json
import os
import subprocess

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
ONE = 10 ** 36


class SpecError(Exception):
    """The specification itself failed: parse error, tool failure or a violated model property."""


def decode(v):
    if isinstance(v, dict):
        if "#bigint" in v:
            return int(v["#bigint"])
        if "#tup" in v:
            return tuple(decode(x) for x in v["#tup"])
        if "#map" in v:
            return {_h(decode(k)): decode(x) for k, x in v["#map"]}
        if "#set" in v:
            return [decode(x) for x in v["#set"]]
        return {k: decode(x) for k, x in v.items() if k != "#meta"}
    if isinstance(v, list):
        return [decode(x) for x in v]
    return v


def _h(v):
    if isinstance(v, (list, dict)):
        return json.dumps(v)
    return v


def fx(n):
    """fixed-point integer -> correctly rounded float"""
    return n / ONE


def fxl(ns):
    return [n / ONE for n in ns]


def tofx(x):
    """exact value of a float, as a fixed-point integer (rounded at 1e-36)"""
    n, d = float(x).as_integer_ratio()
    return (2 * n * ONE + d) // (2 * d)


def _env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["NODE_OPTIONS"] = "--max-old-space-size=3000"
    return e


# runs of the simulator that were repeated with another seed
RETRIED = []


def spread(k):
    """The simulator draws from one long sequence, starting at its seed: neighbouring seeds would repeat each other."""
    return (k * 0x9E3779B97F4A7C15) % 2 ** 63


def run(module, step="step", init="init", traces=8, steps=10, seed=1, invariants=(), scratch=None, workers=8,
        main=None, timeout=800, path=None):
    """Random behaviours of a module: list of traces, each a list of states.

    The work is split over processes with distinct seeds derived from `seed`."""
    path = path or os.path.join(SPEC, module + ".qnt")
    main = main or module
    workers = max(1, min(workers, traces))
    share = [traces // workers + (1 if k < traces % workers else 0) for k in range(workers)]

    def one(k):
        pat = os.path.join(scratch, "%s_%s_%d_{seq}.itf.json" % (main, step, k))
        def attempt(s):
            cmd = ["quint", "run", path, "--main=" + main, "--init=" + init, "--step=" + step,
                   "--max-samples=%d" % share[k], "--n-traces=%d" % share[k], "--max-steps=%d" % steps,
                   "--seed=%d" % spread(s * 64 + k + 1), "--out-itf=" + pat, "--verbosity=1"]
            if invariants:
                cmd += ["--invariants"] + list(invariants)
            return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                                  env=_env(), cwd=scratch)

        r = attempt(seed)
        if "Invariant violated" in r.stdout:
            # a case beyond the resolution of the specification's numbers: it says nothing about the
            # implementation; noted in the evidence, and other cases are used
            RETRIED.append("%s %s seed %d worker %d: %s" % (main, step, seed, k, " ".join(r.stdout.split())[-200:]))
            for f in glob.glob(os.path.join(scratch, "%s_%s_%d_*.itf.json" % (main, step, k))):
                os.remove(f)
            r = attempt(seed + 1000003)
        if r.returncode:
            raise SpecError("quint run %s failed (%d):\n%s" % (main, r.returncode, r.stdout[-3000:]))
        out = []
        for f in sorted(glob.glob(os.path.join(scratch, "%s_%s_%d_*.itf.json" % (main, step, k)))):
            with open(f) as fh:
                out.append([decode(s) for s in json.load(fh)["states"]])
            os.remove(f)
        if not out:
            raise SpecError("quint run %s produced no trace:\n%s" % (main, r.stdout[-2000:]))
        return out

    with cf.ThreadPoolExecutor(workers) as ex:
        return [t for ts in ex.map(one, range(workers)) for t in ts]


def lit(v):
    """Quint literal of a Python value."""
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v) if v >= 0 else "(-%d)" % -v
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, list):
        return "[" + ", ".join(lit(x) for x in v) + "]"
    if isinstance(v, tuple):
        return "(" + ", ".join(lit(x) for x in v) + ")"
    if isinstance(v, dict):
        return "{ " + ", ".join("%s: %s" % (k, lit(x)) for k, x in v.items()) + " }"
    raise TypeError(type(v))


def evaluate(imports, expr_of, items, scratch, typ, name="judge", chunk=40, defs=""):
    """Evaluate a definition of the specification on recorded values.

    A module is written whose only state is the list of expr_of(literal of item) over the items, and run for no step.
    Returns the decoded results in order."""
    rel = os.path.relpath(SPEC, scratch)
    jobs = []
    for k in range(0, len(items), chunk):
        mod = "%s%d" % (name, k)
        path = os.path.join(scratch, mod + ".qnt")
        with open(path, "w") as f:
            f.write("module %s {\n" % mod)
            for i in imports:
                f.write('  import %s.* from "%s/%s"\n' % (i, rel, i))
            f.write(defs + "\n  var judged: List[%s]\n  action init = judged' = [\n    " % typ)
            f.write(",\n    ".join(expr_of(lit(x)) for x in items[k:k + chunk]))
            f.write("\n  ]\n  action step = judged' = judged\n}\n")
        jobs.append(dict(module=mod, main=mod, path=path, traces=1, steps=1, scratch=scratch))
    res = run_jobs(jobs)
    return [x for r in res for x in r[0][0]["judged"]]


DIGIT = 2 ** 192
PART = 400          # integers per literal


def pack(xs):
    """List of integers as one number; inverse of unpack in the specification."""
    n = 0
    for x in [*reversed(xs), len(xs)]:
        assert abs(x) < DIGIT // 2
        n = n * DIGIT + x + DIGIT // 2
    return n


def judge(imports, defs, fn, items, scratch, typ, name="judge", size=6000):
    """Evaluate fn: (List[int]) => typ, defined in defs or in an imported module, on recorded values.

    The values are flat lists of integers, written as one number each (records are slow to read) and decoded by the
    specification itself. Lists are distributed over processes by size. Returns the decoded results in order."""
    if not items:
        return []
    total = sum(len(x) for x in items)
    size = max(200, min(size, total // 8 + 1))
    rel = os.path.relpath(SPEC, scratch)
    groups, cur, n = [], [], 0
    for x in items:
        cur.append(x)
        n += len(x)
        if n >= size:
            groups.append(cur)
            cur, n = [], 0
    if cur:
        groups.append(cur)
    jobs = []
    for k, g in enumerate(groups):
        mod = "%s%d" % (name, k)
        path = os.path.join(scratch, mod + ".qnt")
        with open(path, "w") as f:
            f.write("module %s {\n" % mod)
            for i in ["pack"] + [i for i in imports if i != "pack"]:
                f.write('  import %s.* from "%s/%s"\n' % (i, rel, i))
            f.write(defs + "\n  pure val packed: List[List[int]] = [\n    ")
            f.write(",\n    ".join("[" + ", ".join(hex(pack(x[i:i + PART])) for i in range(0, max(1, len(x)), PART)) + "]" for x in g))
            f.write("\n  ]\n  var judged: List[%s]\n" % typ)
            f.write("  action init = judged' = packed.foldl([], (acc, x) => acc.append(%s(unpackAll(x))))\n" % fn)
            f.write("  action step = judged' = judged\n}\n")
        jobs.append(dict(module=mod, main=mod, path=path, traces=1, steps=1, scratch=scratch))
    res = run_jobs(jobs)
    return [x for r in res for x in r[0][0]["judged"]]


def run_jobs(jobs, workers=8):
    """Run several single-process quint jobs (dicts of keyword arguments of run) in parallel."""
    with cf.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(lambda kw: run(workers=1, **kw), jobs))


def selftest(modules, scratch):
    """The unit tests written in the specification; raises SpecError if one fails. Returns the number run."""
    def one(m):
        r = subprocess.run(["quint", "test", os.path.join(SPEC, m + ".qnt"), "--main=" + m, "--verbosity=1"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=_env(), cwd=scratch)
        if r.returncode:
            raise SpecError("quint test %s failed:\n%s" % (m, r.stdout[-2000:]))
        return r.stdout.count("ok ")
    with cf.ThreadPoolExecutor(8) as ex:
        return sum(ex.map(one, modules))
