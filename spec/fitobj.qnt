// -*- mode: Bluespec; -*-
//
// State machine of one fitted sample object. The table is fixed when the object
// is made; no later operation changes it. Every operation has one correct
// answer, a function of the table and the request.
module fitobj {
  import fixed.* from "./fixed"
  import carma.* from "./carma"
  import gauss.* from "./gauss"
  import gen.* from "./gen"
  import posterior.* from "./posterior"
  import fit.* from "./fit"

  type Event = {
    op: str,              // new, read, scribble, predict, simulate, bands, criterion, addmle, assess, trace, pdf1, pdf2
    how: str,             // choice of parameters
    row: int,             // the row of a random choice, or a number that selects a quantity
    req: List[int],       // requested times
    pct: int, sub: int,   // bands: percentage and number of rows
    theta: Theta,         // addmle: the point estimate
    model: Model, mu: int, r0: int,
    reply: Reply,
    ass: Assessment       // assess
  }

  var tab: Table
  var ev: Event
  var hist: List[str]
  var liks: List[Lik]          // only where asked for
  var est: List[Theta]         // point estimates added, at most one

  pure val noModel: Model = mkModel([], [], [], 0)
  pure val noEvent: Event = { op: "new", how: "", row: 0, req: [], pct: 0, sub: 0, theta: [], model: noModel, mu: 0,
                              r0: 0, reply: noReply, ass: noAssessment }

  // ------------------------------------------------------------- case makers
  // dice 0..9 orders, 10.. data rows (at most 10 rows: 31 dice), 42.. rows of the table, 22 dice each
  pure val NROW: int = 7
  pure val ND: int = 42 + 22 * NROW
  pure def mkTable(d: Dice, alike: bool): Table = mkTableOf(mkRows(3 + d.get(3) % 7, d, 10), 7, d, alike)
  pure def mkTableOf(rows: List[Row], pmax: int, d: Dice, alike: bool): Table = {
    val p = 1 + d.get(0) % pmax
    val q = if (p == 1) 0 else d.get(1) % p
    val kind = if (p == 1) "car1" else if (q == 0) "car" else "carma"
    val o = { ...newPost(kind, p, q, rows, ONE), units: mkUnits(d.get(5), d.get(6)) }
    val n = 1 + d.get(2) % NROW
    // alike: the same number of complex pairs in every row, so that centres of the columns are again roots
    val nc = d.get(4) % (p / 2 + 1)
    val trace = range(0, n).foldl([], (acc, i) => {
      val off = 42 + 22 * i
      if (alike and p > 1)
        acc.append(mkTheta(o, mkFactors(o, nc, d, off), rdiv(o.maxsd * (20 + (d.get(off + 12) * 97) / 100), 1000),
                           frac(510 + (d.get(off + 13) * 148) / 100, 1000), d, off + 14))
      else acc.append(insideTheta(o, d, off))
    })
    { post: o, trace: trace, lps: range(0, n).foldl([], (acc, i) => acc.append((d.get(42 + 22 * i + 21) * 64 - 40000) * DY)) }
  }

  pure def trueTable(t: Table): (Table, List[Lik]) = {
    val ls = t.trace.foldl([], (acc, th) => acc.append(likelihood(t.post, th)))
    ({ ...t, lps: range(0, ls.length()).foldl([], (acc, i) => acc.append(ls[i].ll + logPrior(t.post, t.trace[i]))) }, ls)
  }

  pure def reqTime(rows: List[Row], cls: int, x: int): int = {
    val n = rows.length()
    if (cls == 0) rows[0].t - (1 + x * 3) * DY
    else if (cls == 1) rows[n - 1].t + (1 + x * 3) * DY
    else if (cls == 2) rows[x % n].t
    else {
      val j = x % (n - 1)
      val gap = rows[j + 1].t - rows[j].t
      rows[j].t + (((gap / DY) * (1 + x % 998)) / 1000) * DY
    }
  }
  pure def requests(rows: List[Row], k: int, r: Dice): List[int] =
    range(0, k).foldl([], (acc, i) => acc.append(reqTime(rows, r.get(2 * i) % 6, r.get(2 * i + 1))))

  pure val HOWS: List[str] = ["map", "median", "mean", "row"]

  // Medians of the columns are the roots of a real polynomial unless rows that differ
  // tie in the real part of a root; such a table is asked for its best row instead.
  pure def conjugate(rs: List[Cx]): bool = near(rs.foldl(0, (s, r) => s + r._2), 0, 10^6)
  pure def settled(t: Table, how: str, k: int): str =
    if (how == "median" and not(conjugate(choice(t, how, k).model.roots))) "map" else how

  pure def withChoice(e: Event, c: Chosen): Event = { ...e, model: c.model, mu: c.mu, r0: variance(c.model) }

  pure def predictEvent(t: Table, asked: str, k: int, req: List[int]): Event = {
    val how = settled(t, asked, k)
    val c = choice(t, how, k)
    withChoice({ ...noEvent, op: "predict", how: how, row: k, req: req, reply: predictReply(c, t.post.rows, req) }, c)
  }
  pure def simulateEvent(t: Table, asked: str, k: int, req: List[int]): Event = {
    val how = settled(t, asked, k)
    val c = choice(t, how, k)
    withChoice({ ...noEvent, op: "simulate", how: how, row: k, req: req, reply: jointReply(c, t.post.rows, req) }, c)
  }

  // ----------------------------------------------------------------- actions
  action install(t: Table, ls: List[Lik], e: Event): bool = all {
    tab' = t, liks' = ls, ev' = e, hist' = ["new"], est' = []
  }

  action init = {
    nondet d = 0.to(ND).setOfMaps(0.to(999)).oneOf()
    install(mkTable(d, true), [], noEvent)
  }

  // C19, C20: a fresh table whose log-posteriors are the true ones
  action stepTable = {
    nondet d = 0.to(ND).setOfMaps(0.to(999)).oneOf()
    val r = trueTable(mkTable(d, false))
    install(r._1, r._2, noEvent)
  }

  // C27: a fresh table and a point estimate
  action stepEstimate = {
    nondet d = 0.to(ND).setOfMaps(0.to(999)).oneOf()
    nondet e = 0.to(24).setOfMaps(0.to(999)).oneOf()
    val t = mkTable(d, false)
    install(t, [], { ...noEvent, op: "addmle", theta: insideTheta(t.post, e, 0), pct: (e.get(23) * 16 - 8000) * DY })
  }

  // C21: a fresh table and a request
  action stepPredict = {
    nondet d = 0.to(ND).setOfMaps(0.to(999)).oneOf()
    nondet r = 0.to(15).setOfMaps(0.to(999)).oneOf()
    nondet k = oneOf(1.to(6))
    nondet h = oneOf(0.to(3))
    val t = mkTable(d, true)
    install(t, [], predictEvent(t, HOWS[h], r.get(15) % t.trace.length(), requests(t.post.rows, k, r)))
  }
  action stepSimulate = {
    nondet d = 0.to(ND).setOfMaps(0.to(999)).oneOf()
    nondet r = 0.to(15).setOfMaps(0.to(999)).oneOf()
    nondet k = oneOf(1.to(5))
    nondet h = oneOf(0.to(2))
    val t = mkTable(d, true)
    install(t, [], simulateEvent(t, HOWS[h], 0, requests(t.post.rows, k, r)))
  }

  // C29: a fresh table and a figure of the quality of the fit
  pure def assessEvent(t: Table, asked: str, n: int): Event = {
    val how = settled(t, asked, 0)
    val c = choice(t, how, 0)
    val a = assessment(c, t.post.rows, n)
    withChoice({ ...noEvent, op: "assess", how: how, sub: n, reply: a.law, ass: a }, c)
  }
  action stepAssess = {
    nondet d = 0.to(ND).setOfMaps(0.to(999)).oneOf()
    nondet h = oneOf(0.to(2))
    nondet k = oneOf(2.to(24))
    val t = mkTable(d, true)
    install(t, [], assessEvent(t, HOWS[h], k))
  }
  // more measurements than lags that are shown
  action stepAssessLong = {
    nondet d = 0.to(ND + 180).setOfMaps(0.to(999)).oneOf()
    nondet h = oneOf(0.to(2))
    val t = mkTableOf(mkRows(50 + d.get(3) % 9, d, ND), 3, d, true)
    install(t, [], assessEvent(t, HOWS[h], 5))
  }

  // C24: a fresh table and a band request
  pure val PCTS: List[int] = [68, 68, 95, 50, 99, 0, 100]
  action stepBands = {
    nondet d = 0.to(ND).setOfMaps(0.to(999)).oneOf()
    nondet i = oneOf(0.to(6))
    nondet s = oneOf(0.to(999))
    val t = mkTable(d, false)
    install(t, [], { ...noEvent, op: "bands", pct: PCTS[i] * ONE, sub: if (s % 3 == 0) 0 else 1 + s % t.trace.length() })
  }

  // C26: any history of operations on the object
  action happen(e: Event): bool = all {
    ev' = e, hist' = hist.append(e.op), tab' = tab, liks' = liks,
    est' = if (e.op == "addmle") [e.theta] else est
  }
  pure val PASSIVE: List[str] = ["read", "scribble", "criterion", "assess", "trace", "pdf1", "pdf2"]
  action doPassive = {
    nondet i = oneOf(0.to(6))
    nondet j = oneOf(0.to(99))
    nondet h = oneOf(0.to(2))
    happen({ ...noEvent, op: PASSIVE[i], row: j, how: HOWS[h] })
  }
  action doPredict = {
    nondet r = 0.to(11).setOfMaps(0.to(999)).oneOf()
    nondet k = oneOf(1.to(5))
    nondet h = oneOf(0.to(2))
    happen(predictEvent(tab, HOWS[h], 0, requests(tab.post.rows, k, r)))
  }
  action doSimulate = {
    nondet r = 0.to(11).setOfMaps(0.to(999)).oneOf()
    nondet k = oneOf(1.to(5))
    nondet h = oneOf(0.to(3))
    happen({ ...noEvent, op: "simulate", how: HOWS[h], req: requests(tab.post.rows, k, r) })
  }
  action doBands = {
    nondet i = oneOf(0.to(6))
    nondet s = oneOf(0.to(999))
    happen({ ...noEvent, op: "bands", pct: PCTS[i] * ONE, sub: if (s % 3 == 0) 0 else 1 + s % tab.trace.length() })
  }
  action doEstimate = {
    nondet e = 0.to(24).setOfMaps(0.to(999)).oneOf()
    happen({ ...noEvent, op: "addmle", theta: insideTheta(tab.post, e, 0), pct: (e.get(23) * 16 - 8000) * DY })
  }
  action step = any { doPassive, doPassive, doPassive, doPredict, doSimulate, doBands, doEstimate }

  // -------------------------------------------------- properties of the model
  // the generator keeps every row inside the support
  val tableInside: bool = tab.trace.foldl(true, (ok, th) =>
    ok and conditions(tab.post, th).foldl(true, (a, c) => a and c.ok))
  // a chosen model is stationary and real: roots on the left, in conjugate pairs
  val choiceStationary: bool = ev.model.roots.foldl(true, (ok, r) => ok and r._1 < 0) and
    conjugate(ev.model.roots)
  pure def slack(r0: int): int = rdiv(ONE + r0, 10^12)
  val repliesBounded: bool = ev.reply.vars.foldl(true, (ok, v) => ok and v >= -(slack(ev.r0)) and v <= ev.r0 + slack(ev.r0))
  // autocorrelations start at one and are bounded by it, every residual is in one bin
  val assessmentSane: bool = ev.ass.resid == [] or and {
    ev.ass.acf[0] == ONE, ev.ass.acf.foldl(true, (ok, x) => ok and iabs(x) <= ONE),
    ev.ass.acf2.foldl(true, (ok, x) => ok and iabs(x) <= ONE),
    sumL(ev.ass.counts) == tab.post.rows.length(), ev.ass.grid[ev.ass.grid.length() - 1] == tab.post.rows[tab.post.rows.length() - 1].t
  }
  val answersSane: bool = tableInside and choiceStationary and repliesBounded and assessmentSane

}
