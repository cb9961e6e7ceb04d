"""C19: derived quantities of stored samples are those of their own row."""
from vlib import quint
from vlib.quint import fx, fxl
from .fitlib import case_of, label, compare_derived, flat_theta, real_runs

ASSUMPTIONS = ["p <= 7, tables of at most 7 rows made by the specification; rows of short real runs in addition",
               "relative tolerance 1e-8, for the driving noise widened by its cancellation error"]


def row_getter(dumped, i, n):
    def get(name):
        if name not in dumped:
            return None
        d = dumped[name]
        k = len(d["re"]) // n if n else 0
        return d["re"][i * k:(i + 1) * k], d.get("im", [0.0] * len(d["re"]))[i * k:(i + 1) * k]
    return get


def check_table(ctx, c, dumped, rows, where):
    """rows: specified derived quantities of every row"""
    n = len(rows)
    for name, d in dumped.items():
        if not d["shape"] or d["shape"][0] != n:
            ctx.fail("%s: %s has shape %s for %d rows" % (where, name, d["shape"], n), case=c)
            return
    for i, d in enumerate(rows):
        case = dict(c, ops=[], row=i, log_omega=c["trace"][i][3])
        if not compare_derived(ctx, row_getter(dumped, i, n), d, c["kind"], "%s, row %d" % (where, i), case):
            return
        ctx.samples()


def run(ctx):
    quint.selftest(["fit"], ctx.scratch)
    ts = ctx.traces(quint.run("fitobj", step="stepTable", traces=ctx.n(32, 160), steps=6, seed=ctx.seed,
                              invariants=["answersSane"], scratch=ctx.scratch))
    states = [s for t in ts for s in t[1:]]
    cases = [case_of(s["tab"], [{"op": "dump"}]) for s in states]
    res = ctx.python("py_fit.py", {"seed": ctx.seed, "cases": cases}, allow_crash=True)
    if res is None:
        return
    orders = set()
    flat, where = [], []
    for k, (c, r) in enumerate(zip(cases, res)):
        if "exception" in r or "exception" in r["ops"][0]:
            ctx.fail("building the sample object failed: " + str(r.get("exception") or r["ops"][0]["exception"]), case=c)
            continue
        if (r["p"], r["q"]) != (c["p"], c["q"]):
            ctx.fail("%s: object reports p=%d q=%d" % (label(c), r["p"], r["q"]), case=c)
        orders.add((c["p"], c["q"]))
        for th in c["trace"]:
            flat.append(flat_theta(c, th))
        where.append((k, len(c["trace"])))
    ds = quint.judge(["fit"], "", "derivedOf", flat, ctx.scratch, "Derived")
    pos = 0
    for k, n in where:
        check_table(ctx, cases[k], res[k]["ops"][0]["r"], ds[pos:pos + n], label(cases[k]))
        pos += n
    ctx.validated(len(ts))

    # tables of real runs
    runs = real_runs(ctx, ctx.n(8, 40), 3)
    ds = quint.judge(["fit"], "", "derivedOf", [flat_theta(c, th) for c, _ in runs for th in c["trace"]], ctx.scratch,
                     "Derived", name="runs")
    pos = 0
    for c, r in runs:
        n = len(c["trace"])
        check_table(ctx, c, r["dump"], ds[pos:pos + n], "run of " + label(c))
        pos += n
    ctx.cov["real_runs"] = len(runs)
    ctx.cov["orders_covered"] = len(orders)
    ctx.need(len(orders) >= 12, "too few orders")
