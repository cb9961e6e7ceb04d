// -*- mode: Bluespec; -*-
//
// A run with tempered chains: the ladder of temperatures, and what one iteration
// consists of. The order of the moves and exchanges within an iteration is free.
module tempered {
  import fixed.* from "./fixed"
  import gen.* from "./gen"
  import carma.* from "./carma"
  import posterior.* from "./posterior"

  pure val TOP: int = 100 * ONE

  // geometric ladder from 1 to 100; a single chain has temperature one
  pure def ladder(k: int, i: int): int =
    if (i == 0) ONE else exp(rdiv(ln(TOP) * i, k - 1))
  pure def ladderOf(x: List[int]): List[int] = range(0, x[0]).foldl([], (a, i) => a.append(ladder(x[0], i)))

  // settings of a run
  type Run = { post: Post, chains: int, samples: int, burnin: int, thin: int, start: Theta }

  // the deviation bound of a run: ten times the deviation of the values (divided by n)
  pure def runMaxSd(rows: List[Row]): int = {
    val n = rows.length()
    10 * sqrt(rdiv(sampleVar(rows) * (n - 1), n))
  }

  // ------------------------------------------------------------------ monitor
  // op: 0 a move of a chain, 1 an exchange of a chain with the next cooler one
  // adapted: the chain's proposal covariance changed; others: so did that of another chain
  // ids: names of the values of all chains afterwards
  type Ev = { op: int, chain: int, adapted: bool, others: bool, ids: List[int] }
  type Mon = { iters: int, moved: Set[int], offered: Set[int], ids: List[int], top: int, recorded: List[int], why: str }

  pure def isExchange(before: List[int], now: List[int], i: int): bool =
    now == before.replaceAt(i, before[i - 1]).replaceAt(i - 1, before[i])

  pure def wrong(r: Run, m: Mon, e: Ev): str =
    if (e.op == 0 and m.moved.contains(e.chain)) "a second move of a chain before the iteration is complete"
    else if (e.op == 1 and m.offered.contains(e.chain)) "a second exchange of a pair before the iteration is complete"
    else if (e.op == 1 and e.chain < 1) "an exchange without a cooler partner"
    else if (e.op == 0 and not(e.ids == m.ids or
             (e.ids == m.ids.replaceAt(e.chain, e.ids[e.chain]) and e.ids[e.chain] > m.top)))
      "a move that changed another chain"
    else if (e.op == 1 and not(e.ids == m.ids or isExchange(m.ids, e.ids, e.chain)))
      "an exchange that did not swap the two chains"
    else if (e.others or (e.op == 1 and e.adapted)) "adaptation of a chain that did not move"
    else if (e.op == 0 and e.adapted and m.iters >= r.burnin) "adaptation after the burn-in"
    else if (e.op == 0 and not(e.adapted) and m.iters < r.burnin) "no adaptation during the burn-in"
    else ""

  // an iteration is complete when every chain moved and every pair was offered an exchange
  pure def advance(r: Run, m: Mon, e: Ev): Mon =
    if (m.why != "") m
    else {
      val w = wrong(r, m, e)
      val moved = if (e.op == 0) m.moved.union(Set(e.chain)) else m.moved
      val offered = if (e.op == 1) m.offered.union(Set(e.chain)) else m.offered
      val full = moved.size() == r.chains and offered.size() == r.chains - 1
      val iters = if (full) m.iters + 1 else m.iters
      val records = full and iters > r.burnin and (iters - r.burnin) % r.thin == 0
      { iters: iters, moved: if (full) Set() else moved, offered: if (full) Set() else offered, ids: e.ids,
        top: e.ids.foldl(m.top, (a, x) => imax(a, x)),
        recorded: if (records) m.recorded.append(e.ids[0]) else m.recorded, why: w }
    }

  pure def begin(ids: List[int]): Mon =
    { iters: 0, moved: Set(), offered: Set(), ids: ids, top: ids.foldl(0, (a, x) => imax(a, x)), recorded: [], why: "" }

  pure def complete(r: Run, m: Mon): bool =
    m.iters == r.burnin + r.thin * r.samples and m.moved.size() == 0 and m.offered.size() == 0

  type Verdict = { at: int, why: str, done: bool, recorded: List[int] }
  pure def judgeRun(r: Run, start: List[int], evs: List[Ev]): Verdict = {
    val end = evs.foldl((begin(start), 0), (acc, e) => {
      val m = advance(r, acc._1, e)
      (m, if (m.why == "") acc._2 + 1 else acc._2)
    })
    { at: end._2, why: end._1.why, done: complete(r, end._1), recorded: end._1.recorded }
  }

  // ------------------------------------------------- recorded runs, as numbers
  pure val noPost: Post = { kind: "", p: 0, q: 0, rows: [], maxsd: 0, mle: false, klo: 0, khi: 0, temp: 0, units: { t: 0, f: 0 } }
  // chains, samples, burn-in, thinning, events; names at the start; per event op, chain, adapted, others, names
  pure def runVerdictOf(x: List[int]): Verdict = {
    val k = x[0]
    val r = { post: noPost, chains: k, samples: x[1], burnin: x[2], thin: x[3], start: [] }
    judgeRun(r, x.slice(5, 5 + k), range(0, x[4]).foldl([], (a, i) => {
      val o = 5 + k + i * (4 + k)
      a.append({ op: x[o], chain: x[o + 1], adapted: x[o + 2] == 1, others: x[o + 3] == 1, ids: x.slice(o + 4, o + 4 + k) })
    }))
  }

  // a sample of a run: kind, p, q, number of rows; rows; theta
  pure val KINDLIST: List[str] = ["car1", "car", "carma", "zcar"]
  type Sample = { broken: int, lp: int, lik: Lik, roots: List[Cx], ma: List[int], sigsqr: int }
  pure def sampleOf(x: List[int]): Sample = {
    val n = x[3]
    val rows = range(0, n).foldl([], (a, i) => a.append({ t: x[4 + 3 * i], y: x[5 + 3 * i], e: x[6 + 3 * i] }))
    val o = { ...newPost(KINDLIST[x[0]], x[1], x[2], rows, ONE), maxsd: runMaxSd(rows) }
    val th = x.slice(4 + 3 * n, x.length())
    val m = modelOfTheta(o, th)
    { broken: conditions(o, th).select(c => not(c.ok) and c.margin > 10^26).length(),
      lp: logPrior(o, th), lik: likelihood(o, th), roots: m.roots, ma: m.ma, sigsqr: m.sigsqr }
  }

  run ladderTest = all {
    assert(ladder(1, 0) == ONE),
    assert(near(ladder(3, 1), 10 * ONE, 10^10)),
    assert(near(ladder(5, 4), TOP, 10^10)),
  }
}
