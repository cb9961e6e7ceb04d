// -*- mode: Bluespec; -*-
//
// State machine of one filter object: a measured series, the parameters of a
// CAR(1) or CARMA(p,q) process, and the queries a user can make. Every query
// has one correct answer, computed here from the current data and parameters
// alone; `ev` records the call and the answer, and the traces are replayed into
// the implementation.
module filterobj {
  import fixed.* from "./fixed"
  import carma.* from "./carma"
  import gauss.* from "./gauss"
  import gen.* from "./gen"

  // what an object holds
  type Obj = { kind: str, quad: List[int], ma: List[int], sigsqr: int, rows: List[Row], units: Units }
  // a call and its specified answer
  type Event = {
    op: str,             // new, filter, update, predict, simulate, setsig, setomega, setma, setorder, sety, sete, settime, setdata
    obj: Obj,            // the object after the call
    roots: List[Cx],     // the roots of its AR polynomial
    r0: int,             // its stationary variance
    req: List[int],      // requested times (predict, simulate) or number of updates
    pos: List[str],      // position of each requested time relative to the data
    mean: List[int],
    vars: List[int],
    vmin: int,           // smallest variance met on the way, a measure of the conditioning of the case
    resid: List[int],    // simulate: innovations of the data,
    lrows: List[List[int]]  // and the regression of each requested value on all innovations before it
  }

  var obj: Obj
  var ev: Event
  var hist: List[str]

  pure def modelOf(o: Obj): Model =
    if (o.kind == "kf1") car1Model(o.quad[0], o.sigsqr)
    else modelOfQuads(o.quad, o.ma, o.sigsqr)

  pure def dataPoints(rows: List[Row]): List[Point] =
    rows.foldl([], (acc, r) => acc.append({ t: r.t, evar: mul(r.e, r.e), y: r.y }))

  // an answer, with the smallest variance of the forecasts and answers involved
  type Answer = { ans: List[Innov], vmin: int, resid: List[int], lrows: List[List[int]] }
  pure def noAnswer(o: Obj): Answer = { ans: [], vmin: 0, resid: [], lrows: [] }

  pure def smallest(xs: List[Innov]): int = xs.foldl(10^6 * ONE, (m, x) => if (x.v > TINY) imin(m, x.v) else m)

  // one-step-ahead forecasts of the first k measurements
  pure def filterAnswer(o: Obj, k: int): Answer = {
    val inn = innovations(acvfTerms(modelOf(o)), dataPoints(o.rows).slice(0, k))
    { ans: inn, vmin: smallest(inn), resid: [], lrows: [] }
  }

  // conditional law of the process at the times ts given all measurements
  pure def predictAnswer(o: Obj, ts: List[int]): Answer = {
    val terms = acvfTerms(modelOf(o))
    val st = conditionAll(terms, dataPoints(o.rows))
    val ans = ts.foldl([], (acc, t) => acc.append(lawAt(terms, st, t)))
    { ans: ans, vmin: imin(smallest(ans), smallest(st.out)), resid: [], lrows: [] }
  }

  // Joint law of the process at the times ts given the data: value i has mean
  // sum_j lrows[i][j] * innovation_j and variance ans[i].v, where the innovations
  // are those of the data followed by those of the values requested before it.
  pure def jointAnswer(o: Obj, ts: List[int]): Answer = {
    val terms = acvfTerms(modelOf(o))
    val data = dataPoints(o.rows)
    val n = data.length()
    val st = conditionAll(terms, data.concat(ts.foldl([], (acc, t) => acc.append({ t: t, evar: 0, y: 0 }))))
    { ans: st.out.slice(n, st.out.length()), vmin: smallest(st.out),
      resid: range(0, n).foldl([], (acc, i) => acc.append(data[i].y - st.out[i].m)),
      lrows: st.L.slice(n, st.L.length()) }
  }

  pure def position(o: Obj, t: int): str = {
    val n = o.rows.length()
    val hits = o.rows.select(r => r.t == t)
    if (hits.length() > 0) {
      if (hits[0].e == 0) "exact" else "at"
    }
    else if (t < o.rows[0].t) "before"
    else if (t > o.rows[n - 1].t) "after"
    else "between"
  }

  pure def event(op: str, o: Obj, req: List[int], pos: List[str], a: Answer): Event = {
    val m = modelOf(o)
    { op: op, obj: o, roots: m.roots, r0: variance(m), req: req, pos: pos,
      mean: a.ans.foldl([], (l, x) => l.append(x.m)),
      vars: a.ans.foldl([], (l, x) => l.append(x.v)),
      vmin: a.vmin, resid: a.resid, lrows: a.lrows }
  }

  // ------------------------------------------------------------- case makers
  // dice: 0 kind/order, 1 nc, 2 base, 3 sigma, 4 q, 5 n, 6..14 quads, 16..23 ma, 24.. rows
  pure def mkObj(d: Dice, nmax: int): Obj = {
    val n = 2 + d.get(5) % (nmax - 1)
    val base = mkBase(d.get(2))
    val rows = mkRows(n, d, 24)
    val sig = frac(50 + d.get(3) * 3, 200)
    val units = mkUnits(d.get(3) / 7, d.get(2) / 9)
    if (d.get(0) % 4 == 0)
      { kind: "kf1", quad: [rdiv(base * (1 + d.get(1) % 40), 20)], ma: [ONE], sigsqr: mul(sig, sig), rows: rows, units: units }
    else {
      val p = 2 + d.get(0) % 6
      val nc = d.get(1) % (p / 2 + 1)
      val q = d.get(4) % p
      val ma = mkMA(q, base, d, 16)
      val quad = mkQuads(p, nc, base, d, 6)
      // driving noise chosen so that the process has a standard deviation of sig
      { kind: "kfp", quad: quad, ma: ma, sigsqr: modelWithSd(quad, ma, sig).sigsqr, rows: rows, units: units }
    }
  }

  // a requested time, from a position class and a random digit
  pure def mkTime(o: Obj, cls: int, x: int): int = {
    val n = o.rows.length()
    val i = x % n
    if (cls == 0) o.rows[0].t - (1 + x * 3) * DY
    else if (cls == 1) o.rows[n - 1].t + (1 + x * 3) * DY
    else if (cls == 2) o.rows[i].t
    else if (cls == 3 and x % 5 == 0) o.rows[n - 1].t + (2000000 + x) * DY
    else if (cls == 3 and x % 5 == 1) o.rows[0].t - (2000000 + x) * DY
    else {
      // between two neighbouring measurements
      val j = if (n == 1) 0 else x % (n - 1)
      val lo = o.rows[j].t
      val gap = o.rows[imin(j + 1, n - 1)].t - lo
      lo + (((gap / DY) * (1 + x % 998)) / 1000) * DY
    }
  }

  pure val NDICE: int = 66
  pure val NMAX: int = 12

  // ----------------------------------------------------------------- actions
  action init = {
    nondet d = 0.to(NDICE).setOfMaps(0.to(999)).oneOf()
    val o = mkObj(d, NMAX)
    all { obj' = o, ev' = event("new", o, [], [], noAnswer(o)), hist' = ["new"] }
  }

  action doNew = {
    nondet d = 0.to(NDICE).setOfMaps(0.to(999)).oneOf()
    val o = mkObj(d, NMAX)
    all { obj' = o, ev' = event("new", o, [], [], noAnswer(o)), hist' = hist.append("new") }
  }

  action doFilter = all {
    ev' = event("filter", obj, [], [], filterAnswer(obj, obj.rows.length())),
    hist' = hist.append("filter"), obj' = obj
  }

  // restart the filter and advance it k measurements
  action doUpdate = {
    nondet k = oneOf(0.to(NMAX - 1))
    val kk = imin(k, obj.rows.length() - 1)
    all { ev' = event("update", obj, [kk], [], filterAnswer(obj, kk + 1)), hist' = hist.append("update"), obj' = obj }
  }

  action doPredict = {
    nondet c = oneOf(0.to(6))
    nondet x = oneOf(0.to(999))
    val t = mkTime(obj, c, x)
    all { ev' = event("predict", obj, [t], [position(obj, t)], predictAnswer(obj, [t])),
          hist' = hist.append("predict"), obj' = obj }
  }

  // the drawn values are random: their joint law is `jointAnswer`, see stepSimulate
  action doSimulate = {
    nondet k = oneOf(Set(1, 2, 3, 4, 5, 12))
    nondet d = 0.to(25).setOfMaps(0.to(999)).oneOf()
    val req = range(0, k).foldl([], (acc, i) => acc.append(mkTime(obj, d.get(2 * i) % 7, d.get(2 * i + 1))))
    all { ev' = event("simulate", obj, req, req.foldl([], (a, t) => a.append(position(obj, t))), noAnswer(obj)),
          hist' = hist.append("simulate"), obj' = obj }
  }

  action change(op: str, o: Obj): bool = all {
    obj' = o, ev' = event(op, o, [], [], noAnswer(o)), hist' = hist.append(op)
  }

  action doSetSig = {
    nondet x = oneOf(1.to(40))
    change("setsig", { ...obj, sigsqr: rdiv(obj.sigsqr * x, 10) })
  }

  action doSetOmega = {
    nondet d = 0.to(9).setOfMaps(0.to(999)).oneOf()
    if (obj.kind == "kf1")
      change("setomega", { ...obj, quad: [rdiv(mkBase(d.get(0)) * (1 + d.get(1) % 40), 20)] })
    else {
      val p = obj.quad.length()
      change("setomega", { ...obj, quad: mkQuads(p, d.get(9) % (p / 2 + 1), mkBase(d.get(3)), d, 0) })
    }
  }

  action doSetMA = all {
    obj.kind == "kfp",
    nondet d = 0.to(9).setOfMaps(0.to(999)).oneOf()
    change("setma", { ...obj, ma: mkMA(d.get(0) % obj.quad.length(), mkBase(d.get(9)), d, 0) })
  }

  action doSetY = {
    nondet d = 0.to(NMAX).setOfMaps(0.to(999)).oneOf()
    change("sety", { ...obj, rows: range(0, obj.rows.length()).foldl([], (acc, i) =>
      acc.append({ ...obj.rows[i], y: (d.get(i) * 7 - 3500) * DY })) })
  }

  action doSetE = {
    nondet d = 0.to(NMAX).setOfMaps(0.to(999)).oneOf()
    change("sete", { ...obj, rows: range(0, obj.rows.length()).foldl([], (acc, i) =>
      acc.append({ ...obj.rows[i], e: ERRS[d.get(i) % ERRS.length()] * DY })) })
  }

  // new roots, a new MA polynomial and a new driving noise, of any order
  action doSetOrder = all {
    obj.kind == "kfp",
    nondet d = 0.to(19).setOfMaps(0.to(999)).oneOf()
    val p = 2 + d.get(19) % 6
    val base = mkBase(d.get(18))
    val quad = mkQuads(p, d.get(17) % (p / 2 + 1), base, d, 0)
    val ma = mkMA(d.get(9) % p, base, d, 9)
    change("setorder", { ...obj, quad: quad, ma: ma, sigsqr: modelWithSd(quad, ma, frac(50 + d.get(16) * 3, 200)).sigsqr })
  }

  // other times for the same values
  action doSetTime = {
    nondet d = 0.to(24 + 3 * NMAX).setOfMaps(0.to(999)).oneOf()
    val rows = mkRows(obj.rows.length(), d, 24)
    change("settime", { ...obj, rows: range(0, obj.rows.length()).foldl([], (acc, i) => acc.append({ ...obj.rows[i], t: rows[i].t })) })
  }
  // another series, longer or shorter
  action doSetData = {
    nondet d = 0.to(24 + 3 * NMAX).setOfMaps(0.to(999)).oneOf()
    change("setdata", { ...obj, rows: mkRows(2 + d.get(0) % (NMAX - 1), d, 24) })
  }

  // C04: any history of calls
  action step = any {
    doFilter, doPredict, doPredict, doSimulate, doUpdate, doSetSig, doSetOmega, doSetMA, doSetOrder, doSetY, doSetE, doSetTime, doSetData
  }

  // C31: the filter written in Python. Its parameters and data are fixed; times are
  // requested after the first measurement and not where one was made without error.
  pure def allowed(o: Obj, t: int): bool = {
    val p = position(o, t)
    p != "before" and p != "exact" and t > o.rows[0].t
  }
  action doPredictLater = {
    nondet d = 0.to(5).setOfMaps(0.to(999)).oneOf()
    val req = range(0, 3).foldl([], (acc, i) => acc.append(mkTime(obj, d.get(2 * i) % 7, d.get(2 * i + 1)))).select(t => allowed(obj, t))
    all { ev' = event("predict", obj, req, req.foldl([], (a, t) => a.append(position(obj, t))), predictAnswer(obj, req)),
          hist' = hist.append("predict"), obj' = obj }
  }
  // increasing and distinct times
  action doSimulateLater = {
    nondet k = oneOf(Set(1, 2, 3, 4, 5, 14))
    nondet d = 0.to(27).setOfMaps(0.to(999)).oneOf()
    val ts = range(0, k).foldl([], (acc, i) => {
      val t = mkTime(obj, d.get(2 * i) % 7, d.get(2 * i + 1))
      if (not(allowed(obj, t)) or acc.select(x => x == t).length() > 0) acc
      else acc.select(x => x < t).append(t).concat(acc.select(x => x > t))
    })
    val req = if (ts.length() > 0) ts else [obj.rows[obj.rows.length() - 1].t + ONE]
    all { ev' = event("simulate", obj, req, req.foldl([], (a, t) => a.append(position(obj, t))), jointAnswer(obj, req)),
          hist' = hist.append("simulate"), obj' = obj }
  }
  action stepPython = any { doFilter, doPredictLater, doPredictLater, doSimulateLater }

  // C01: a fresh object, filtered
  action stepFilter = {
    nondet d = 0.to(NDICE).setOfMaps(0.to(999)).oneOf()
    val o = mkObj(d, NMAX)
    all { obj' = o, ev' = event("filter", o, [], [], filterAnswer(o, o.rows.length())), hist' = ["filter"] }
  }

  // C02: a fresh object and one requested time in each position
  action stepPredict = {
    nondet d = 0.to(NDICE).setOfMaps(0.to(999)).oneOf()
    nondet r = 0.to(9).setOfMaps(0.to(999)).oneOf()
    val o = mkObj(d, NMAX)
    val req = [mkTime(o, 0, r.get(0)), mkTime(o, 1, r.get(1)), mkTime(o, 2, r.get(2)), mkTime(o, 2, r.get(3)),
               mkTime(o, 3, r.get(4)), mkTime(o, 4, r.get(5)), mkTime(o, 4, r.get(6)), mkTime(o, 4, r.get(7))]
    all { obj' = o, hist' = ["predict"],
          ev' = event("predict", o, req, req.foldl([], (a, t) => a.append(position(o, t))),
                      predictAnswer(o, req)) }
  }

  // C01, C02: long series, half of them evenly spaced with equal errors
  pure val NLONG: int = 45
  pure def longObj(d: Dice): Obj =
    mkObj(if (d.get(25) % 2 == 0) d.set(24, 300 + (d.get(24) % 50) * 3).set(5, NLONG - 2 - d.get(5) % 10) else d, NLONG)
  action stepLongFilter = {
    nondet d = 0.to(24 + 3 * NLONG).setOfMaps(0.to(999)).oneOf()
    val o = longObj(d)
    all { obj' = o, ev' = event("filter", o, [], [], filterAnswer(o, o.rows.length())), hist' = ["filter"] }
  }
  action stepLongPredict = {
    nondet d = 0.to(24 + 3 * NLONG).setOfMaps(0.to(999)).oneOf()
    nondet r = 0.to(4).setOfMaps(0.to(999)).oneOf()
    val o = longObj(d)
    val req = [mkTime(o, 0, r.get(0)), mkTime(o, 1, r.get(1)), mkTime(o, 2, r.get(2)), mkTime(o, 4, r.get(3)), mkTime(o, 4, r.get(4))]
    all { obj' = o, hist' = ["predict"],
          ev' = event("predict", o, req, req.foldl([], (a, t) => a.append(position(o, t))), predictAnswer(o, req)) }
  }

  // C03: a fresh object and a request vector
  action stepSimulate = {
    nondet d = 0.to(NDICE).setOfMaps(0.to(999)).oneOf()
    nondet r = 0.to(15).setOfMaps(0.to(999)).oneOf()
    nondet k = oneOf(1.to(6))
    val o = mkObj(d, 8)
    val req = range(0, k).foldl([], (acc, i) => acc.append(mkTime(o, r.get(2 * i) % 7, r.get(2 * i + 1))))
    all { obj' = o, hist' = ["simulate"],
          ev' = event("simulate", o, req, req.foldl([], (a, t) => a.append(position(o, t))), jointAnswer(o, req)) }
  }

  // requests of many times, and long series
  action stepLongSimulate = {
    nondet d = 0.to(24 + 3 * 30).setOfMaps(0.to(999)).oneOf()
    nondet r = 0.to(49).setOfMaps(0.to(999)).oneOf()
    nondet k = oneOf(7.to(24))
    val o = mkObj(d, if (d.get(25) % 3 == 0) 30 else 8)
    val req = range(0, k).foldl([], (acc, i) => acc.append(mkTime(o, r.get(2 * i) % 7, r.get(2 * i + 1))))
    all { obj' = o, hist' = ["simulate"],
          ev' = event("simulate", o, req, req.foldl([], (a, t) => a.append(position(o, t))), jointAnswer(o, req)) }
  }

  // A series that repeats n measurements k times, so far apart that the process forgets
  // everything in between: each repeat has the forecasts of the first. The values
  // change sign from one repeat to the next, and the means with them.
  pure def slowest(o: Obj): int = modelOf(o).roots.foldl(10^6 * ONE, (m, r) => imin(m, iabs(r._1)))
  pure def repeated(o: Obj, k: int): Obj = {
    val n = o.rows.length()
    // 100 e-folding times, a multiple of 1/1024
    val shift = o.rows[n - 1].t - o.rows[0].t + (1 + div(100 * ONE, slowest(o)) / DY) * DY
    { ...o, rows: range(0, k).foldl([], (acc, b) =>
        acc.concat(o.rows.foldl([], (rs, r) => rs.append({ t: r.t + b * shift, y: if (b % 2 == 0) r.y else -(r.y), e: r.e })))) }
  }
  pure def repeatedAnswer(o: Obj, k: int): Answer = {
    val a = filterAnswer(o, o.rows.length())
    { ...a, ans: range(0, k).foldl([], (acc, b) =>
        acc.concat(a.ans.foldl([], (xs, x) => xs.append({ m: if (b % 2 == 0) x.m else -(x.m), v: x.v })))) }
  }
  action stepRepeated = {
    nondet d = 0.to(NDICE).setOfMaps(0.to(999)).oneOf()
    nondet k = oneOf(2.to(40))
    val o = mkObj(d, NMAX)
    val r = repeated(o, k)
    all { obj' = r, ev' = event("filter", r, [], [], repeatedAnswer(o, k)), hist' = ["filter"] }
  }
  // the same answers as from the law of the whole series, where that is cheap
  val repeatsForget: bool = (hist == ["filter"] and ev.obj.rows.length() <= 12) implies {
    val a = filterAnswer(ev.obj, ev.obj.rows.length()).ans
    range(0, a.length()).foldl(true, (ok, i) => ok and near(a[i].m, ev.mean[i], slack(ev.r0)) and near(a[i].v, ev.vars[i], slack(ev.r0)))
  }

  // -------------------------------------------------- properties of the model
  // resolution of an answer: sums of much larger terms may cancel in ill-conditioned cases
  pure def slack(r0: int): int = rdiv(ONE + r0, 10^12)
  // forecast variances lie between the error variance and the unconditional variance
  val varianceBounds: bool = (ev.op == "filter" or ev.op == "update") implies
    range(0, ev.vars.length()).foldl(true, (ok, i) => {
      val e2 = mul(ev.obj.rows[i].e, ev.obj.rows[i].e)
      ok and ev.vars[i] >= e2 - slack(ev.r0) and ev.vars[i] <= ev.r0 + e2 + slack(ev.r0)
    })
  // the first forecast is the unconditional law
  val firstUnconditional: bool = (ev.op == "filter" or ev.op == "update") implies
    (ev.mean[0] == 0 and near(ev.vars[0], ev.r0 + mul(ev.obj.rows[0].e, ev.obj.rows[0].e), slack(ev.r0)))
  // conditioning on more data never increases the variance; a noise-free measurement is reproduced
  val predictConsistent: bool = (ev.op == "predict") implies
    range(0, ev.req.length()).foldl(true, (ok, i) =>
      ok and ev.vars[i] <= ev.r0 + slack(ev.r0) and ev.vars[i] >= -(slack(ev.r0)) and
      (if (ev.pos[i] == "exact") {
        val r = ev.obj.rows.select(x => x.t == ev.req[i])[0]
        near(ev.mean[i], r.y, slack(ev.r0)) and near(ev.vars[i], 0, slack(ev.r0))
      } else true))

  // the object expressed in units 2^t and 2^f times smaller (t, f >= 0)
  pure def inUnits(o: Obj, t: int, f: int): Obj = {
    val p = o.quad.length()
    { ...o,
      quad: range(0, p).foldl([], (acc, i) => acc.append(if (i % 2 == 0 and i + 1 < p) rdiv(o.quad[i], 4^t) else rdiv(o.quad[i], 2^t))),
      ma: range(0, o.ma.length()).foldl([], (acc, k) => acc.append(o.ma[k] * 2^(t * k))),
      sigsqr: rdiv(o.sigsqr * 4^f, 2^(t * (2 * p - 1))),
      rows: o.rows.foldl([], (acc, r) => acc.append({ t: r.t * 2^t, y: r.y * 2^f, e: r.e * 2^f })) }
  }
  // the law does not depend on the units (checked for a change by factors 2 and 8)
  val unitsFree: bool = (ev.op == "filter" and ev.obj.rows.length() <= 6 and ev.obj.quad.length() <= 4) implies {
    val a = filterAnswer(inUnits(ev.obj, 1, 3), ev.obj.rows.length()).ans
    range(0, ev.mean.length()).foldl(true, (ok, i) =>
      ok and near(a[i].m, 8 * ev.mean[i], UTOL) and near(a[i].v, 64 * ev.vars[i], mul(UTOL, ONE + ev.r0)))
  }
  pure val UTOL: int = 10^20
  val answersSane: bool = varianceBounds and firstUnconditional and predictConsistent
}
