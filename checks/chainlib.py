"""Replay of chains behaviours into the Metropolis and exchange steps."""
from vlib import quint
from vlib.quint import ONE, fx, tofx

KINDS = {"fin": 0, "neg": 1, "pos": 2, "nan": 3}
NONFINITE = {"-inf": 1, "inf": 2, "nan": 3}


def flat(x):
    """recorded or specified log-density -> two numbers of the specification"""
    if isinstance(x, dict):
        return [KINDS[x["kind"]], x["v"]]
    if isinstance(x, str):
        return [NONFINITE[x], 0]
    return [0, tofx(x)]


def schedules(ctx, step, init, traces, steps):
    """Behaviours of the specification as (first chains, operations)."""
    ts = ctx.traces(quint.run("chains", step=step, init=init, traces=traces, steps=steps, seed=ctx.seed,
                              invariants=["sane"], scratch=ctx.scratch))
    return [(t[0]["chains"], [s["ev"]["op"] for s in t[1:]]) for t in ts]


def line(ident, typ, start, ops, reps, full):
    p = ["chain %s %s %d" % (ident, typ, len(start))]
    p += ["%.17g" % fx(c["temp"]) for c in start]
    p += ["%.17g" % fx(c["ld"]["v"]) for c in start]
    p.append(str(len(ops)))
    for o in ops:
        p.append("%s %d %d %s %.17g %.17g %.17g" % (
            "x" if o["op"] == "exchange" else "m", o["chain"], o["how"] == "ram" and typ == "vec", o["ld"]["kind"],
            fx(o["ld"]["v"]), fx(o["back"]), fx(o["forth"])))
    p.append("%d %d" % (reps, full))
    return " ".join(p)


def judge(ctx, cases, results, full):
    """Recorded runs against the specification: every complete run, and the frequency of every decision."""
    runs, decisions = [], {}
    for k, ((start, ops), r) in enumerate(zip(cases, results)):
        if "exception" in r:
            ctx.fail("a step raised " + r["exception"], ops=ops)
            continue
        if r["unowned"]:
            ctx.fail("after %d steps a chain's stored log-density was not that of its value" % r["unowned"], start=start, ops=ops)
        if r["frame"]:
            ctx.fail("%d times a chain or temperature changed that the step does not concern" % r["frame"], start=start, ops=ops)
        K, n = len(start), len(ops)
        x = [K, n, full]
        for c in start:
            x += [c["temp"]] + flat(c["ld"])
        for o in ops:
            x += [int(o["op"] == "exchange"), o["chain"], o["back"], o["forth"]] + flat(o["ld"])
        for j in range(0, len(r["traces"]), 2):
            x += [int(r["traces"][j])] + flat(r["traces"][j + 1])
        runs.append((start, ops, r["traces"], x))
        dens = [c["ld"] for c in start] + [o["ld"] for o in ops]
        st = r["stats"]
        for j in range(0, len(st), 7):
            i, a, b, cnt, acc, rmin, rmax = st[j:j + 7]
            op = ops[int(i)]
            if a < 0 or b < -1 or (op["op"] == "exchange" and b < 0):
                continue                      # an unknown value, already reported
            if op["op"] == "exchange":
                key = ("x", start[op["chain"]]["temp"], start[op["chain"] - 1]["temp"], *flat(dens[int(a)]), *flat(dens[int(b)]))
            else:
                key = ("m", start[op["chain"]]["temp"], op["back"] - op["forth"], *flat(dens[int(a)]), *flat(op["ld"]))
            decisions.setdefault(key, []).append((k, op, int(cnt), int(acc), float(rmin), float(rmax)))
    # complete runs
    out = quint.judge(["accept"], "", "rejectedOf", [x for _, _, _, x in runs], ctx.scratch, "List[int]", name="runs")
    for (start, ops, tr, _), bads in zip(runs, out):
        for rep, bad in enumerate(bads):
            ctx.validated()
            if bad >= 0:
                w = 2 * len(start)
                o = (rep * len(ops) + bad) * w
                ctx.fail("the specification does not permit the result of operation %d (%s on chain %d)"
                         % (bad, ops[bad]["op"], ops[bad]["chain"]), start=start, op=ops[bad],
                         before=tr[o - w:o] if bad else start, after=tr[o:o + w])
    # decisions
    for what, fn in (("m", "moveProbOf"), ("x", "exchangeProbOf")):
        sel = [(k, v) for k, v in decisions.items() if k[0] == what]
        ps = quint.judge(["accept"], "", fn, [list(k[1:]) for k, _ in sel], ctx.scratch, "int", name=fn)
        strata = {}
        for (key, obs), p in zip(sel, ps):
            p = p / ONE
            for k, op, n, acc, rmin, rmax in obs:
                ctx.samples(n)
                ctx.count("decisions_" + ("exchange" if what == "x" else op["how"]))
                case = dict(op=op, probability=p, trials=n, accepted=acc, inputs=key)
                if (p == 0 and acc) or (p == 1 and acc < n):
                    ctx.fail("%s accepted %d of %d times, specified probability %g" % (op["op"], acc, n, p), **case)
                elif abs(acc - n * p) > 6.5 * (n * p * (1 - p)) ** 0.5 + 12:
                    ctx.fail("%s accepted %d of %d times, specified probability %g" % (op["op"], acc, n, p), **case)
                # the reported ratio, where one is reported
                finite = what == "x" or op["ld"]["kind"] == "fin"
                if finite and rmin <= rmax:
                    for x in (rmin, rmax):
                        if abs(min(x, 1.0) - p) > 1e-9:
                            ctx.fail("%s reported the acceptance probability %.12g, specified %.12g" % (op["op"], x, p), **case)
                            break
                b = strata.setdefault((op["how"], int(p * 10)), [0.0, 0.0, 0])
                b[0] += acc - n * p
                b[1] += n * p * (1 - p)
                b[2] += n
        for (how, dec), (d, v, n) in strata.items():
            if abs(d) > 6.5 * v ** 0.5 + 12:
                ctx.fail("%s decisions with probability about %.2f: %+.0f accepted of %d beyond the expectation (%.1f standard errors)"
                         % (how or "exchange", dec / 10 + 0.05, d, n, d / max(v, 1) ** 0.5))
        ctx.cov["strata_" + ("exchange" if what == "x" else "move")] = len(strata)
