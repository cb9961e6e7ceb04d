"""C11: adaptation of the proposal covariance."""
from vlib import build, quint
from vlib.quint import ONE, fx, fxl, tofx
from .chainlib import flat

ASSUMPTIONS = ["dimension up to 6, up to 14 iterations, one history in eight repeated up to 79 times; adaptation lengths 0 to 1800", "nonzero unit draws"]

DEFS = """
  // dimension, target, decay, length of the adaptation, iteration, temperature, current and proposed log-density;
  // u, d, covariance before, covariance after
  pure def verdictOf(x: List[int]): Verdict = {
    val k = x[0]
    val o = 10
    pure def mat(at: int): Mat = range(0, k).foldl([], (m, i) => m.append(x.slice(at + i * k, at + (i + 1) * k)))
    judge({ dim: k, target: x[1], decay: x[2], maxiter: x[3] }, mat(o + 2 * k), x[4], x.slice(o, o + k), x.slice(o + k, o + 2 * k),
          moveProb(ldAt(x, 6), ldAt(x, 8), x[5], 0), mat(o + 2 * k + k * k))
  }
"""


JUDGED = 20


def rounds_of(t):
    return t[0]["rounds"]


def run(ctx):
    exe = build.driver("drv_engine")
    ts = ctx.traces(quint.run("ramobj", step="step", traces=ctx.n(160, 640), steps=14, seed=ctx.seed,
                              invariants=["sane"], scratch=ctx.scratch))
    lines = ["seed x %d" % (ctx.seed + 3)]
    for k, t in enumerate(ts):
        c, d = t[0]["cfg"], t[0]["cfg"]["dim"]
        p = ["ram r%d %d %.17g %.17g %d %d %.17g %.17g" % (k, d, fx(c["target"]), fx(c["decay"]), c["maxiter"], k % 2,
                                                          fx(t[0]["temp"]), fx(t[0]["cur"]["v"]))]
        u = [2.0 ** x for x in t[0]["unit"]]
        p += ["%.17g" % (fx(x) * u[i] * u[j]) for i, r in enumerate(t[0]["covar"]) for j, x in enumerate(r)]
        p += ["%.17g" % ((0.25 * i - 1) * u[i]) for i in range(d)]
        p.append(str(rounds_of(t) * (len(t) - 1)))
        for s in rounds_of(t) * t[1:]:
            p += ["%.17g" % fx(x) for x in s["ev"]["u"]] + [s["ev"]["ld"]["kind"], "%.17g" % fx(s["ev"]["ld"]["v"])]
        lines.append(" ".join(p))
    res = [r for r in ctx.drive(exe, lines) if r["op"] == "ram"]
    items, info = [], []
    for t, r in zip(ts, res):
        c, d = t[0]["cfg"], t[0]["cfg"]["dim"]
        case = dict(settings={k: (fx(v) if k in ("target", "decay") else v) for k, v in c.items()}, temperature=fx(t[0]["temp"]),
                    covariance=[fxl(x) for x in t[0]["covar"]], units=t[0]["unit"])
        if "exception" in r:
            ctx.fail("dimension %d: an adaptive step raised %s" % (d, r["exception"]), **case)
            continue
        if r["wrong"]:
            ctx.fail("dimension %d: %d steps did not draw one unit variate per dimension" % (d, r["wrong"]), **case)
            continue
        # back to the units of the specification
        u = [2.0 ** x for x in t[0]["unit"]]
        r["covs"] = [x if isinstance(x, str) else x / u[i // d % d] / u[i % d] for i, x in enumerate(r["covs"])]
        r["disp"] = [x if isinstance(x, str) else x / u[i % d] for i, x in enumerate(r["disp"])]
        cov0 = [x for row in t[0]["covar"] for x in row]
        if any(abs(r["covs"][i] - fx(cov0[i])) > 1e-12 * (1 + abs(fx(cov0[i]))) for i in range(d * d)):
            ctx.fail("dimension %d: the covariance before the first step is not the given one" % d, **case)
        cur = [0, t[0]["cur"]["v"]]
        nacc = 0
        pos = [0.25 * j - 1 for j in range(d)]
        total = rounds_of(t) * (len(t) - 1)
        for i, s in enumerate(rounds_of(t) * t[1:]):
            if any(isinstance(x, str) for x in r["disp"][i * d:(i + 1) * d] + r["covs"][i * d * d:(i + 2) * d * d]):
                ctx.fail("dimension %d, iteration %d: non-finite displacement or covariance" % (d, i), **case)
                break
            x = [d, c["target"], c["decay"], c["maxiter"], i, t[0]["temp"]] + cur + flat(s["ev"]["ld"])
            x += s["ev"]["u"]
            x += [tofx(v) for v in r["disp"][i * d:(i + 1) * d]]
            x += [tofx(v) for v in r["covs"][i * d * d:(i + 2) * d * d]]
            # of long histories the ends and a few between
            if i < JUDGED or i >= total - JUDGED or i % 37 == 0:
                items.append(x)
                # the displacement is the difference of two positions
                sds = [abs(r["covs"][i * d * d + j * (d + 1)]) ** 0.5 for j in range(d)]
                ratio = max(abs(a) / b if b > 0 else 0.0 for a, b in zip(pos, sds))
                info.append((d, i, c, s["ev"], r, ratio, case))
            if r["acc"][i]:
                cur = flat(s["ev"]["ld"])
                nacc += 1
                pos = [a + b for a, b in zip(pos, r["disp"][i * d:(i + 1) * d])]
            if abs(r["rates"][i] - nacc / (i + 1.0)) > 1e-12:
                ctx.fail("dimension %d: acceptance rate %g reported after %d of %d accepted" % (d, r["rates"][i], nacc, i + 1), **case)
                break
    out = quint.judge(["accept", "ram"], DEFS, "verdictOf", items, ctx.scratch, "Verdict", name="ram")
    frozen = adapting = 0
    for (d, i, c, ev, r, ratio, case), v in zip(info, out):
        cond = v["cond"] / ONE
        tol = 1e-8 + 1e-13 * ratio
        rooted = 1e-8 + 1e-13 * ratio * cond ** 0.5 + 1e-14 * cond
        if rooted > 1e-3:
            ctx.count("ill_conditioned_steps")
        ctx.samples()
        ctx.maxi("max_deviation_from_rule", v["rule"] / ONE)
        adapting += i < c["maxiter"]
        frozen += i >= c["maxiter"]
        what = "dimension %d, iteration %d of %d adapting" % (d, i, c["maxiter"])
        if v["rule"] / ONE > tol:
            ctx.fail("%s: the covariance deviates from the rule by %.3g" % (what, v["rule"] / ONE), u=fxl(ev["u"]), ld=ev["ld"], **case)
        elif i >= c["maxiter"] and not v["same"]:
            ctx.fail("%s: the covariance changed after the adaptation" % what, **case)
        elif not v["posdef"] and rooted < 1e-3:
            ctx.fail("%s: the covariance is not positive definite" % what, **case)
        elif v["root"] / ONE > rooted and rooted < 1e-3:
            ctx.fail("%s: the displacement is not a square root of the covariance applied to the unit draw (%.3g)"
                     % (what, v["root"] / ONE), u=fxl(ev["u"]), **case)
    ctx.validated(len(ts))
    ctx.cov.update(adapting_steps=adapting, frozen_steps=frozen)
    ctx.need(adapting > 200 and frozen > 100, "too few steps")
