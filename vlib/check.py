"""Frame of every check: scratch space, evidence, violations, exit status."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from . import build, quint

VERIF = build.VERIF
EVID = os.path.join(VERIF, "evidence")


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": 0}
        self.violations = []
        self.assumptions = []
        self.scratch = None

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name):
        return os.path.join(self.scratch, name)

    # -------------------------------------------------------------- accounting
    def traces(self, ts):
        """Count behaviours of the specification that are going to be compared with the code."""
        self.cov["states"] += sum(len(t) for t in ts)
        self.cov["transitions"] += sum(max(0, len(t) - 1) for t in ts)
        return ts

    def validated(self, k=1):
        self.cov["traces_validated_against_impl"] += k

    def samples(self, k=1):
        self.cov["samples"] += k

    def count(self, key, k=1):
        self.cov[key] = self.cov.get(key, 0) + k

    def maxi(self, key, v):
        if v == v:
            self.cov[key] = max(self.cov.get(key, 0.0), v)

    def fail(self, what, **data):
        if len(self.violations) < 50:
            self.violations.append({"what": what, **data})
        self.count("violations_found")

    def need(self, cond, what):
        """Guard against a vacuous check: an unmet need is an error of the check, not a violation."""
        if not cond and not self.violations:
            raise RuntimeError("vacuous check: " + what)

    # -------------------------------------------------------------- execution
    def drive(self, exe, lines, name="drv", timeout=300, env=None, allow_crash=False):
        """Run a driver on a command file; returns the list of JSON results."""
        inp, outp, log = self.path(name + ".in"), self.path(name + ".out"), self.path(name + ".log")
        with open(inp, "w") as f:
            f.write("\n".join(lines) + "\n")
        e = dict(os.environ)
        e["OPENBLAS_NUM_THREADS"] = "1"
        e["OMP_NUM_THREADS"] = "1"
        if env:
            e.update(env)
        with open(log, "w") as lf:
            try:
                r = subprocess.run([exe, inp, outp], stdout=lf, stderr=lf, timeout=timeout, cwd=self.scratch, env=e)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
        res = []
        if os.path.exists(outp):
            with open(outp) as f:
                for l in f:
                    if l.endswith("}\n"):
                        res.append(json.loads(l))
        if rc != 0 and not allow_crash:
            with open(log, "rb") as f:
                tail = f.read()[-1500:].decode("utf8", "replace")
            if rc == 3:
                raise RuntimeError("driver error: " + tail)
            self.fail("the code under test ended abnormally (%s) after %d of %d calls" % (rc, len(res), len(lines)),
                      log=tail, next_call=lines[len(res)] if len(res) < len(lines) else None)
        return res

    def pythons(self, script, args, cases, parts=6, **kw):
        """Like python, with the cases spread over several processes; each gets its own seed. None after a crash."""
        build.python_package()
        parts = max(1, min(parts, len(cases)))
        share = [cases[k::parts] for k in range(parts)]
        with cf.ThreadPoolExecutor(parts) as ex:
            res = list(ex.map(lambda k: self.python(script, dict(args, seed=self.seed * 32 + k, cases=share[k]),
                                                    tag="-%d" % k, **kw), range(parts)))
        if any(r is None for r in res):
            return None
        out = [None] * len(cases)
        for k, r in enumerate(res):
            out[k::parts] = r
        return out

    def python(self, script, args, timeout=300, allow_crash=False, env=None, tag=""):
        """Run a replay script with the package built from /repo; returns its JSON result."""
        root = build.python_package()
        e = dict(os.environ)
        e.update(PYTHONPATH=root, MPLBACKEND="Agg", MPLCONFIGDIR=self.path("mpl"), OPENBLAS_NUM_THREADS="1",
                 OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        if env:
            e.update(env)
        inp, outp, log = (self.path(script + tag + x) for x in (".json", ".res.json", ".log"))
        with open(inp, "w") as f:
            json.dump(args, f)
        if os.path.exists(outp):
            os.remove(outp)
        with open(log, "w") as lf:
            try:
                rc = subprocess.run([build.VENVPY, "-W", "ignore", os.path.join(build.HARNESS, script), inp, outp],
                                    stdout=lf, stderr=lf, timeout=timeout, cwd=self.scratch, env=e).returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
        if rc != 0 or not os.path.exists(outp):
            with open(log, "rb") as f:
                tail = f.read()[-3000:].decode("utf8", "replace")
            if allow_crash:
                self.fail("the code under test ended abnormally (%s)" % rc, log=tail)
                return None
            raise RuntimeError("%s ended with %s:\n%s" % (script, rc, tail))
        with open(outp) as f:
            return json.load(f)


def num(x):
    """JSON number of a driver -> float"""
    return float(x)


def close(a, b, tol):
    return a == a and b == b and abs(a - b) <= tol


def main(pid, run, level="model_checking", assumptions=()):
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1") % (2 ** 31)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    tmproot = os.path.join(VERIF, ".build", "run")
    os.makedirs(tmproot, exist_ok=True)

    def attempt():
        ctx = Ctx(pid, tier, seed)
        ctx.scratch = tempfile.mkdtemp(prefix=pid + "-", dir=tmproot)
        try:
            run(ctx)
        finally:
            shutil.rmtree(ctx.scratch, ignore_errors=True)
        return ctx

    try:
        ctx = attempt()
        # a rejection counts only if it repeats (one found by a time limit is not tried again)
        if ctx.violations and time.time() - t0 < 300:
            again = attempt()
            if not again.violations:
                print("NOTE: %s: %d rejection(s) did not repeat and are not reported: %s"
                      % (pid, len(ctx.violations), ctx.violations[0]["what"]))
                again.cov["unrepeated_rejections"] = len(ctx.violations)
            ctx = again
    except Exception:
        traceback.print_exc()
        print("ERROR: check %s could not be completed" % pid)
        return 2
    build.prune()
    if quint.RETRIED:
        ctx.cov["specification_retries"] = quint.RETRIED
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": ctx.cov,
          "wall_s": round(time.time() - t0, 2),
          "assumptions": list(assumptions) + ctx.assumptions,
          "violations": [v["what"] for v in ctx.violations][:20]}
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if not ctx.violations:
        print("%s: held (%s)" % (pid, ", ".join("%s=%s" % (k, v) for k, v in ctx.cov.items())))
        return 0
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, "%s.json" % pid)
    with open(rp, "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "how": "VERIF_SEED=%d VERIF_TIER=%s ./check %s" % (seed, tier, pid),
                   "violations": ctx.violations}, f, indent=1, default=str)
    for v in ctx.violations[:5]:
        print("  " + v["what"])
    print("VIOLATION property=%s replay=%s" % (pid, rp))
    return 1
