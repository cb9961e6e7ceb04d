"""C10: Metropolis moves are accepted with the right probability and leave a consistent state."""
from vlib import build, quint
from . import chainlib

ASSUMPTIONS = ["scripted densities, proposals and temperatures; at most 12 successive moves",
               "frequencies at 6.5 standard errors"]


def run(ctx):
    exe = build.driver("drv_engine")
    cases = chainlib.schedules(ctx, "stepMoves", "init", ctx.n(40, 400), 12)
    ones = chainlib.schedules(ctx, "stepMoves", "initOne", ctx.n(24, 240), 12)
    reps, full = ctx.n(1500, 4000), 4
    lines = ["seed x %d" % (ctx.seed + 1)]
    lines += [chainlib.line("v%d" % i, "vec", s, o, reps, full) for i, (s, o) in enumerate(cases)]
    lines += [chainlib.line("s%d" % i, "scalar", s, o, reps, full) for i, (s, o) in enumerate(ones)]
    res = [r for r in ctx.drive(exe, lines) if r["op"] == "chain"]
    chainlib.judge(ctx, cases + ones, res, full)
    ctx.need(ctx.cov.get("decisions_metrop", 0) > 300 and ctx.cov.get("decisions_ram", 0) > 200, "too few decisions")
    ctx.need(ctx.cov.get("strata_move", 0) >= 15, "acceptance probabilities not spread over the range")
