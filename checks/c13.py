"""C13: the schedule of a sampler run."""
from vlib import build, quint

ASSUMPTIONS = ["step by step: up to 3 parameters, 5 steps, 5 samples, thinning up to 3 and burn-in up to 4, three consecutive runs with the "
               "same or a new sampler; by the closed form: up to 5 parameters, 90 samples, thinning 15, burn-in 150",
               "exhaustively: every configuration of up to 2 parameters, 3 steps, 3 samples, thinning 3 and burn-in 3, twice in a row",
               "labels of parameters are distinct"]

SMALL = 3 * 4 * 3 * 2 * 4 * 11


def collect(ts):
    for t in ts:
        done = {}
        for s in t:
            if s["phase"] == "done":
                done.setdefault(s["runs"], s)
        if done:
            yield [done[r] for r in sorted(done)]


def run(ctx):
    exe = build.driver("drv_engine")
    small = ctx.traces(quint.run("schedule", traces=ctx.n(160, 1600), steps=200, seed=ctx.seed, invariants=["sane"], scratch=ctx.scratch))
    large = ctx.traces(quint.run("schedule", init="initLarge", step="stepLarge", traces=ctx.n(32, 200), steps=3, seed=ctx.seed,
                                 invariants=["callsComplete", "callsInOrder", "recordsRight", "recordsForward"], scratch=ctx.scratch))
    # every configuration of the small scope, two runs each
    whole = quint.evaluate(["runs"], lambda i: "wholeSmall(%s)" % i, list(range(SMALL)), ctx.scratch, "List[Whole]", name="small", chunk=SMALL // 8)
    every = [[dict(x, fresh=k == 0) for k, x in enumerate(w)] for w in whole]
    ctx.cov.update(small_scope_exhausted=len(every))
    lines, cases = ["seed x %d" % (ctx.seed + 5)], []
    for k, runs in enumerate(list(collect(small)) + list(collect(large)) + every):
        c = runs[0]["cfg"]
        dim = 2 + k % 3
        each = []
        for s in runs:
            f = s["cfg"]
            init = [-2.0] * dim if f["user"] else []
            each.append("%d %d %d %d %d %s" % (1 if s["fresh"] else 0, f["samples"], f["burnin"], f["thin"], len(init), " ".join("%g" % x for x in init)))
        lines.append("sampler s%d %d %d %s %d %s %d %s" % (
            k, dim, len(c["tracked"]), " ".join("1" if x else "0" for x in c["tracked"]), len(c["steps"]),
            " ".join("%d %s" % (s["par"], s["kind"]) for s in c["steps"]), len(runs), " ".join(each)))
        cases.append((c, dim, runs))
    res = [r for r in ctx.drive(exe, lines) if r["op"] == "sampler"]
    second = other = shorter = untracked = 0
    for (c, dim, runs), r in zip(cases, res):
        case = dict(configuration=c)
        what = "%d parameters, %d steps" % (len(c["tracked"]), len(c["steps"]))
        if "exception" in r:
            ctx.fail("%s: %s" % (what, r["exception"]), **case)
            continue
        if r["steps"] != len(c["steps"]):
            ctx.fail("%s: %s steps registered" % (what, r["steps"]), **case)
        names = set("par%d" % i for i, x in enumerate(c["tracked"]) if x)
        if set(r["names"].split()) != names:
            ctx.fail("%s: tracked parameters are %s" % (what, r["names"]), **case)
        for k, s in enumerate(runs):
            ctx.samples()
            f = s["cfg"]
            what = "%d samples, burn-in %d, thinning %d, %d steps" % (f["samples"], f["burnin"], f["thin"], len(f["steps"]))
            second += k
            other += bool(k and s["fresh"])
            shorter += bool(k and f["samples"] < runs[k - 1]["cfg"]["samples"])
            log = r["log%d" % k]
            want = []
            for x in s["calls"]:
                st = c["steps"][x["stp"]]
                want += [100 + st["par"] if st["kind"] == "gibbs" else x["stp"], x["before"]]
            if log != want:
                i = next((i for i in range(0, min(len(log), len(want)), 2) if log[i:i + 2] != want[i:i + 2]), None)
                ctx.fail("%s, run %d: %d step calls instead of %d%s" % (
                    what, k + 1, len(log) // 2, len(want) // 2,
                    "" if i is None else "; call %d is step %g on value %g instead of step %d on value %d"
                    % (i // 2, log[i], log[i + 1], want[i], want[i + 1])), log=log, specified=want, **case)
                break
            bad = None
            for i, rec in enumerate(s["recorded"]):
                untracked += not c["tracked"][i]
                v, lp = r["val%d_%d" % (k, i)], r["lp%d_%d" % (k, i)]
                wv = [x + (1000.0 * i if j == dim - 1 else 0) for x in rec for j in range(dim)]
                # the stored density of a recorded state is that of its value: the target is the first component
                if v != wv or lp != rec:
                    bad = "%s, run %d: parameter %d recorded %s with log-densities %s, specified %s" % (what, k + 1, i, v[:24], lp[:12], wv[:24])
                    break
            if bad:
                ctx.fail(bad, **case)
                break
    ctx.validated(len(res))
    ctx.cov.update(second_runs=second, runs_of_a_new_sampler=other, shorter_than_the_one_before=shorter, untracked_parameters=untracked)
    ctx.need(len(cases) > 100 and second > 20 and shorter > 10 and untracked > 20, "too few complete runs")
