"""C17: reproducibility of the random stream."""
from vlib import build, quint

ASSUMPTIONS = ["one process and one thread at a time", "seeds as unsigned 32 bit numbers"]
NAMES = ["exp", "normal", "multinormal", "lognormal", "uniform", "uniform integer", "power law", "student", "chi-square",
         "inverse chi-square", "gamma", "inverse gamma", "CAR(1) start", "CARMA start", "ZCARMA start", "simulation", "sampler run"]


def run(ctx):
    exe = build.driver("drv_engine")
    kw = dict(invariants=["sane"], scratch=ctx.scratch)
    ts = ctx.traces(quint.run("stream", step="step", traces=ctx.n(48, 240), steps=60, seed=ctx.seed, **kw))
    ts += ctx.traces(quint.run("stream", step="stepFew", traces=ctx.n(72, 300), steps=30, seed=ctx.seed + 1, **kw))

    def commands(order):
        lines = []
        for k in order:
            for i, s in enumerate(ts[k]):
                e = s["ev"]
                op = {"seed": "seed", "draw": "draw", "save": "savestate", "recover": "recover"}[e["op"]]
                arg = ctx.path("state%d.txt" % e["arg"]) if e["op"] in ("save", "recover") else e["arg"]
                lines.append("%s %d.%d %s" % (op, k, i, arg))
        return lines

    # two processes, the behaviours in opposite order: what a draw returns depends on the labelled state only
    order = list(range(len(ts)))
    seen = {}
    draws = repeats = 0
    for name, o in (("first", order), ("second", order[::-1])):
        res = {r["id"]: r for r in ctx.drive(exe, commands(o), name=name)}
        for k in o:
            for i, s in enumerate(ts[k]):
                r = res.get("%d.%d" % (k, i))
                if r is None:
                    continue
                if "exception" in r:
                    ctx.fail("%s raised %s" % (s["ev"], r["exception"]), history=[x["ev"] for x in ts[k][:i + 1]])
                    continue
                if s["ev"]["op"] != "draw":
                    continue
                draws += 1
                d = s["draws"][-1]
                lab = (tuple(d["state"]), d["kind"])
                v = r["v"]
                if any(isinstance(x, str) for x in v):
                    ctx.fail("%s gave a value that is not finite" % NAMES[d["kind"]], state=d["state"])
                if lab in seen:
                    repeats += 1
                    if seen[lab][0] != v:
                        ctx.fail("%s after seed %d and %d draws: %r in one run, %r in another" % (
                            NAMES[d["kind"]], d["state"][0], len(d["state"]) - 1, seen[lab][0][:4], v[:4]),
                            history=[x["ev"] for x in ts[k][:i + 1]], other=seen[lab][1])
                else:
                    seen[lab] = (v, [x["ev"] for x in ts[k][:i + 1]])
    # draws differ after another seed, and after further draws where no rejection can bring two streams together again
    by = {}
    for (state, kind), (v, h) in seen.items():
        for other in by.setdefault((kind, tuple(v)), []):
            short = min(len(other), len(state))
            if other[0] != state[0] or (kind in (4, 5) and other[:short] == state[:short] and len(other) != len(state)):
                ctx.fail("%s is the same in two different states of the generator" % NAMES[kind], states=[list(other), list(state)], value=v)
        by[(kind, tuple(v))].append(state)
    ctx.samples(draws)
    ctx.validated(2 * len(ts))
    ctx.cov.update(repeated_draws=repeats, labelled_states=len(seen), kinds=len(set(k for _, k in seen)))
    ctx.need(len(set(k for _, k in seen)) == 17 and repeats > 300, "too few repetitions")
