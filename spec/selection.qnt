// -*- mode: Bluespec; -*-
//
// A model object: maximum-likelihood fits, choice of the order and sampler runs
// in any sequence. The optimiser is an adversary: each optimisation ends with
// any objective value, possibly none (not a number) or infinity.
module selection {
  import fixed.* from "./fixed"
  import carma.* from "./carma"
  import gauss.* from "./gauss"
  import gen.* from "./gen"
  import posterior.* from "./posterior"
  import fit.* from "./fit"

  // end of one optimisation: class 0 a finite value, 1 not a number, 2 infinity
  type Outcome = { cls: int, fun: int }
  type Mod = { p: int, q: int, rows: List[Row] }
  type Event = {
    op: str,                          // new, fit, order, run
    mod: Mod,                         // the model after the call
    p: int, q: int,                   // fit: order asked for
    pmax: int, qmax: int,             // order: limits, qmax < 0: not given
    list: List[(int, int)],           // order: pairs given by the user
    trials: int, jobs: int,
    script: List[List[Outcome]],      // ends of the optimisations of each fit
    pairs: List[(int, int)],          // orders examined
    best: List[int],                  // index of the reported optimisation of each fit
    scores: List[int],                // criterion of each pair (0 where there is none)
    chosen: int,                      // index of the chosen pair
    samples: int, burnin: int, thin: int, chains: int     // run: settings in force
  }

  var mod: Mod
  var ev: Event

  pure def permitted(pmax: int, qmax: int): List[(int, int)] =
    range(1, pmax + 1).foldl([], (acc, p) =>
      range(0, p).foldl(acc, (acc2, q) => if (qmax < 0 or q <= qmax) acc2.append((p, q)) else acc2))

  // number a beats b
  pure def better(a: Outcome, b: Outcome): bool =
    if (a.cls == 1) false
    else if (b.cls == 1) true
    else if (a.cls == 2) false
    else if (b.cls == 2) true
    else a.fun < b.fun

  pure def bestIndex(xs: List[Outcome]): int =
    range(0, xs.length()).foldl(0, (b, i) => if (better(xs[i], xs[b])) i else b)

  pure def scoreOf(o: Outcome, pq: (int, int), n: int): Outcome =
    if (o.cls == 0) { ...o, fun: correctedAkaike(o.fun, pq._1, pq._2, n) } else o

  pure val none: Event = { op: "new", mod: { p: 1, q: 0, rows: [] }, p: 0, q: 0, pmax: 0, qmax: 0, list: [], trials: 0,
                           jobs: 1, script: [], pairs: [], best: [], scores: [], chosen: 0, samples: 0, burnin: 0,
                           thin: 1, chains: 1 }

  // -------------------------------------------------------------- case makers
  pure def mkMod(d: Dice): Mod = {
    val p = 1 + d.get(0) % 4
    { p: p, q: d.get(1) % p, rows: mkRows(14 + d.get(2) % 5, d, 4) }
  }
  // distinct finite values, so that the smallest is unique
  pure def mkOutcome(d: Dice, i: int): Outcome = {
    val x = d.get(i)
    val fun = ((x * 101 - 30000) * 64 + i) * DY
    { cls: if (x % 5 == 1) 1 else if (x % 7 == 2) 2 else 0, fun: fun }
  }
  pure def mkTrials(d: Dice, off: int, n: int): List[Outcome] =
    range(0, n).foldl([], (acc, i) => acc.append(mkOutcome(d, off + i)))

  pure def fitEvent(m: Mod, p: int, q: int, jobs: int, script: List[Outcome]): Event =
    { ...none, op: "fit", mod: m, p: p, q: q, trials: script.length(), jobs: jobs, script: [script],
      pairs: [(p, q)], best: [bestIndex(script)] }

  pure def orderEvent(m: Mod, pmax: int, qmax: int, given: List[(int, int)], jobs: int, trials: int, d: Dice): Event = {
    val pairs = if (given.length() > 0) given else permitted(pmax, qmax)
    val n = m.rows.length()
    val script = range(0, pairs.length()).foldl([], (acc, i) => acc.append(mkTrials(d, i * trials, trials)))
    val best = script.foldl([], (acc, s) => acc.append(bestIndex(s)))
    val scores = range(0, pairs.length()).foldl([], (acc, i) => acc.append(scoreOf(script[i][best[i]], pairs[i], n)))
    val c = bestIndex(scores)
    { ...none, op: "order", pmax: pmax, qmax: qmax, list: given, trials: trials, jobs: jobs, script: script,
      pairs: pairs, best: best, scores: scores.foldl([], (acc, s) => acc.append(if (s.cls == 0) s.fun else 0)), chosen: c,
      // with no finite score at all there is nothing to choose
      mod: if (scores[c].cls == 0) { ...m, p: pairs[c]._1, q: pairs[c]._2 } else m }
  }

  // ------------------------------------------------------------------ actions
  pure val NS: int = 70
  action init = {
    nondet d = 0.to(NS).setOfMaps(0.to(999)).oneOf()
    val m = mkMod(d)
    all { mod' = m, ev' = { ...none, mod: m } }
  }
  action doFit = {
    nondet d = 0.to(8).setOfMaps(0.to(999)).oneOf()
    nondet k = oneOf(1.to(6))
    val p = 1 + d.get(7) % 4
    all { mod' = mod, ev' = fitEvent(mod, p, d.get(6) % p, [1, 1, 2, 3][d.get(8) % 4], mkTrials(d, 0, k)) }
  }
  action doOrder = {
    nondet d = 0.to(70).setOfMaps(0.to(999)).oneOf()
    nondet pmax = oneOf(1.to(4))
    nondet qmax = oneOf((-1).to(2))
    nondet trials = oneOf(1.to(3))
    val given = if (d.get(69) % 4 == 0) [(3, 1), (1, 0), (2, 1)].slice(0, 1 + d.get(68) % 3) else []
    // a limit on q larger than the largest possible order is not meaningful
    val qm = if (qmax >= pmax) -1 else qmax
    val e = orderEvent(mod, pmax, qm, given, [1, 1, 1, 2][d.get(67) % 4], trials, d)
    all { mod' = e.mod, ev' = e }
  }
  // settings left out (negative) take their documented defaults
  action doRun = {
    nondet s = oneOf(1.to(30))
    nondet b = oneOf((-1).to(12))
    nondet th = oneOf(1.to(3))
    nondet c = oneOf((-1).to(4))
    all { mod' = mod,
          ev' = { ...none, op: "run", mod: mod, samples: s, burnin: if (b < 0) s / 2 else b, thin: th,
                  chains: if (c < 1) imax(10, mod.p + mod.q) else c, pmax: b, qmax: c } }
  }
  action step = any { doFit, doFit, doOrder, doRun }

  // Fits with the real optimiser: only the request is specified here
  action stepReal = {
    nondet d = 0.to(NS).setOfMaps(0.to(999)).oneOf()
    nondet k = oneOf(1.to(3))
    nondet j = oneOf(1.to(2))
    nondet a = oneOf(0.to(2))
    val m = mkMod(d)
    all { mod' = m,
          ev' = if (a < 2) { ...none, op: "fit", mod: m, p: m.p, q: m.q, trials: k, jobs: j, pairs: [(m.p, m.q)] }
                else { ...none, op: "order", mod: m, pmax: 2, qmax: -1, trials: 1, jobs: j, pairs: permitted(2, -1) } }
  }

  // --------------------------------------------------- properties of the model
  val orderPermitted: bool = mod.p >= 1 and mod.q >= 0 and mod.q < mod.p
  // every pair once
  val pairsOnce: bool = range(0, ev.pairs.length()).foldl(true, (ok, i) =>
    ok and range(0, i).foldl(true, (a, j) => a and ev.pairs[i] != ev.pairs[j]))
  // no optimisation beats the reported one
  val reportedBest: bool = range(0, ev.best.length()).foldl(true, (ok, i) =>
    ok and ev.script[i].foldl(true, (a, o) => a and not(better(o, ev.script[i][ev.best[i]]))))
  val selectionSane: bool = orderPermitted and pairsOnce and reportedBest

  run selectionTest = {
    all {
      assert(permitted(2, -1) == [(1, 0), (2, 0), (2, 1)]),
      assert(permitted(3, 1) == [(1, 0), (2, 0), (2, 1), (3, 0), (3, 1)]),
      assert(bestIndex([{ cls: 1, fun: 0 }, { cls: 2, fun: 0 }, { cls: 0, fun: 3 }, { cls: 0, fun: 2 }]) == 3),
    }
  }
}
