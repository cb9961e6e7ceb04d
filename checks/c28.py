"""C28: the dialogue that asks for the options of a run."""
import os

from vlib import build, quint

ASSUMPTIONS = ["numerical answers are integers that fit their type; an answer is given to every question",
               "file names without blanks, inside a scratch directory"]
BODY = {"data.txt": "1 2 3\n", "sub/series.dat": "4 5 6\n7 8 9\n", "x": "0 0 1\n", "existing.out": "old\n"}


def run(ctx):
    exe = build.driver("drv_engine")
    ts = ctx.traces(quint.run("prompt", traces=ctx.n(400, 4000), steps=40, seed=ctx.seed, invariants=["sane"], scratch=ctx.scratch))
    ts = [t for t in ts if t[-1]["at"] == 6]
    lines, plan = [], []
    for k, t in enumerate(ts):
        d = ctx.path("d%d" % k)
        os.makedirs(os.path.join(d, "sub"))
        for f, b in BODY.items():
            with open(os.path.join(d, f), "w") as h:
                h.write(b)
        s = t[-1]
        if s["seedfile"]:
            lines += ["seed x %d" % (1000 + k), "raw x", "savestate x %s/seed.txt" % d]
        answers = [a["text"] if a["q"] < 2 else str(a["num"]) for a in s["given"]]
        lines.append("prompt p%d %s %d %s" % (k, d, len(answers), " ".join(answers)))
        if s["generator"] == "number":
            lines += ["seed x %d" % s["chosen"][5]["num"], "raw r%d" % k]
        elif s["generator"] == "file":
            lines += ["seed x %d" % (1000 + k), "raw x", "raw r%d" % k]
        elif s["generator"] == "time":
            # the generator was left at 31337 before the dialogue; a time stamp puts it elsewhere
            lines += ["seed x 31337", "raw r%d" % k]
        plan.append((k, d, s, answers))
    res = {r["id"]: r for r in ctx.drive(exe, lines, timeout=120) if r["id"] != "x"}
    kinds = {}
    for k, d, s, answers in plan:
        r, raw = res.get("p%d" % k), res.get("r%d" % k)
        if r is None or raw is None:
            continue
        ctx.samples()
        case = dict(answers=answers, seedfile=s["seedfile"])
        c = s["chosen"]
        if "exception" in r:
            ctx.fail("answers %s raised %s" % (answers, r["exception"]), **case)
            continue
        kinds[s["generator"]] = kinds.get(s["generator"], 0) + 1
        path = lambda f: os.path.normpath(f)
        want = dict(data=os.path.join(d, c[0]["text"]), outfile=os.path.join(d, c[1]["text"]), samples=c[2]["num"], thin=c[3]["num"],
                    burnin=c[4]["num"])
        for f, w in want.items():
            g = r[f]
            if (path(g) if isinstance(w, str) else g) != w:
                ctx.fail("answers %s: option %s is %s instead of %s" % (answers, f, g, w), **case)
        if r["chains"] != 1:
            ctx.fail("answers %s: %d chains" % (answers, r["chains"]), **case)
        if r["rest"] != "left":
            ctx.fail("answers %s: not exactly these answers were read (next word is %r)" % (answers, r["rest"]), **case)
        same = r["raw"] == raw["raw"]
        if s["generator"] == "time":
            if same:
                ctx.fail("answers %s: the generator was not seeded" % answers, **case)
        elif not same:
            ctx.fail("answers %s: the generator is not seeded from the %s (%s, specified %s)" % (
                answers, {"number": "given seed", "file": "seed file"}[s["generator"]], r["raw"], raw["raw"]), **case)
        for f in ("data.txt", "sub/series.dat", "x"):
            with open(os.path.join(d, f)) as h:
                if h.read() != BODY[f]:
                    ctx.fail("answers %s: data file %s was changed" % (answers, f), **case)
    ctx.validated(len(plan))
    ctx.cov["seeded_from"] = kinds
    ctx.need(len(kinds) == 3 and len(plan) > 150, "too few dialogues")
