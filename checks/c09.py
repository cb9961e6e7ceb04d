"""C09: starting values are usable, or exactly those of the user."""
from vlib import build, quint
from vlib.quint import fx, fxl, tofx
from . import runlib
from .filterlib import Units, vec
from .postlib import in_units, from_units, post_line, describe, margin_ok

ASSUMPTIONS = ["between 3 and 11 distinct times, values not all equal",
               "a user vector of finite log-density is used; others are replaced by a draw"]


def run(ctx):
    exe = build.driver("drv_model")
    quint.selftest(["posterior"], ctx.scratch)
    ts = ctx.traces(quint.run("posteriorobj", step="stepStart", traces=ctx.n(96, 320), steps=6, seed=ctx.seed,
                              invariants=["answersSane"], scratch=ctx.scratch))
    evs = [s["ev"] for t in ts for s in t if s["ev"]["op"] == "start"]
    m = ctx.n(40, 200)
    lines, plan = [], []
    for k, ev in enumerate(evs):
        th = in_units(ev["post"], ev["theta"])
        lines += ["seed %d" % (ctx.seed * 1000 + k + 1), post_line("o", ev["post"])]
        if k % 3 == 0:
            lines.append("setprior o %.17g" % (fx(ev["post"]["maxsd"]) * 2.0 ** ev["post"]["units"]["f"] * (0.2 if k % 2 else 0.9486)))
        lines.append("start o %d" % m)
        plan.append((ev, "start"))
        if k % 3:
            # the same object, asked before: a vector that has no finite log-density is not usable
            lines += ["ld o " + vec(th), "setstart o " + vec(th)]
            plan += [(ev, "density"), (ev, "user")]
        # vectors of another length, and one outside the prior
        for bad in (th[:-1], th + [0.1], [0.5], [-1.0] + th[1:]):
            lines.append("setstart o " + vec(bad))
            plan.append((ev, "unusable"))
    res = [r for r in ctx.drive(exe, lines, timeout=400) if r["op"] in ("start", "setstart", "ld")]
    judge, pats = [], {}
    for (ev, what), r in zip(plan, res):
        o = ev["post"]
        if "exception" in r:
            ctx.fail("%s p=%d: starting value raised %s" % (o["kind"], o["p"], r["exception"]), case=describe(ev))
            continue
        pats[(o["kind"], ev["tag"])] = 1
        dim = len(ev["theta"])
        if what == "density":
            finite = abs(float(r["ld"])) < float("inf")
            if margin_ok(ev):
                ctx.count("user_vectors_near_a_bound", int(fx(ev["margin"]) < 1e-2))
            continue
        ths = [float(x) for x in r["theta"]]
        if what == "user" and not finite:
            what = "unusable"
        if what == "user":
            ctx.samples()
            if ths != in_units(o, ev["theta"]):
                ctx.fail("%s p=%d: user vector %s replaced by %s" % (o["kind"], o["p"], in_units(o, ev["theta"]), ths), case=describe(ev))
            continue
        lds = [float(x) for x in (r["ld"] if what == "start" else [r["ld"]])]
        if len(ths) != dim * len(lds):
            ctx.fail("%s p=%d: starting value of wrong length" % (o["kind"], o["p"]), case=describe(ev))
            continue
        for i, l in enumerate(lds):
            ctx.samples()
            th = ths[i * dim:(i + 1) * dim]
            if not abs(l) < float("inf"):
                ctx.fail("%s p=%d (%s sampling): starting value %s has log-density %s" % (o["kind"], o["p"], ev["tag"], th, l), case=describe(ev))
                break
            if what == "start" and i < 3 and len(judge) < ctx.n(400, 4000):
                judge.append((ev, from_units(o, th)))
    # the drawn vectors, judged by the prior of the specification (with the default deviation bound)
    ok = quint.evaluate(["fixed", "gen", "posterior"], lambda x: "violated" + x, [(
        {k: ev["post"][k] for k in ("kind", "p", "q", "rows", "maxsd", "mle", "klo", "khi", "temp", "units")}, [tofx(v) for v in th]) for ev, th in judge],
        ctx.scratch, "int",
        defs="  pure def violated(o: Post, th: Theta): int = conditions(o, th).select(c => not(c.ok) and c.margin > 10^24).length()")
    for (ev, th), n in zip(judge, ok):
        ctx.count("judged_by_specification")
        if n:
            ctx.fail("%s p=%d (%s sampling): starting value %s breaks %d conditions of the prior"
                     % (ev["post"]["kind"], ev["post"]["p"], ev["tag"], th, n), case=describe(ev))
    whole_runs(ctx, evs)
    ctx.validated(len(ts))
    ctx.cov["model_and_sampling_pairs"] = len(pats)
    ctx.need(len(pats) >= 20, "too few sampling patterns")
    ctx.need(len(judge) > 100, "too few starting values")


def whole_runs(ctx, evs):
    """The chains of a run start where the user says, every one of them."""
    exe = runlib.spy_driver()
    if not exe:
        return
    sel = [ev for ev in evs if ev["post"]["kind"] != "zcarma"][:ctx.n(200, 1000)]
    lines, plan = ["seed x %d" % (ctx.seed + 31)], []
    for k, ev in enumerate(sel):
        o, u = ev["post"], Units(ev["post"]["units"])
        th = in_units(o, ev["theta"])
        # a vector of another length now and then
        init = th[:-1] if k % 11 == 10 else th + [0.3] if k % 11 == 9 else [] if k % 11 == 8 else th
        chains = 1 if o["kind"] == "car1" else 1 + k % 5
        t, y, e = u.times(r["t"] for r in o["rows"]), u.values(r["y"] for r in o["rows"]), u.values(r["e"] for r in o["rows"])
        lines.append("run r%d %s %d %d %d 1 %d 1 0 %s %s %s %s 0" % (
            k, o["kind"], o["p"], o["q"], chains, k % 2, vec(init), vec(t), vec(y), vec(e)))
        plan.append((ev, init, chains))
    for (ev, init, chains), r in zip(plan, [r for r in ctx.drive(exe, lines, timeout=400) if r["op"] == "run"]):
        o, dim = ev["post"], len(ev["theta"])
        if "exception" in r:
            ctx.fail("%s p=%d: a run raised %s" % (o["kind"], o["p"], r["exception"]), case=describe(ev))
            continue
        if not r["engaged"]:
            ctx.count("runs_not_watched")
            continue
        ctx.count("runs_watched")
        first = [float(x) for x in r["firstvalues"]]
        usable = len(init) == dim and abs(float(r["initld"][0])) < float("inf")
        for i in range(chains):
            if usable:
                ctx.count("chains_started_by_the_user")
                if first[i * dim:(i + 1) * dim] != init:
                    ctx.fail("%s p=%d: chain %d of %d starts at %s, not at the vector of the user"
                             % (o["kind"], o["p"], i, chains, first[i * dim:(i + 1) * dim]), case=describe(ev), user=init)
                    break
            elif not abs(float(r["firstlds"][i])) < float("inf"):
                ctx.fail("%s p=%d: chain %d of %d starts where the log-density is %s"
                         % (o["kind"], o["p"], i, chains, r["firstlds"][i]), case=describe(ev), user=init)
                break
