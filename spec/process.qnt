// -*- mode: Bluespec; -*-
//
// The functions of a process alone, without data: power spectrum, autocovariance,
// roots from Lorentzian widths and centroids, and the joint law of synthetic
// light curves.
module process {
  import fixed.* from "./fixed"
  import carma.* from "./carma"
  import gauss.* from "./gauss"
  import gen.* from "./gen"
  import posterior.* from "./posterior"
  import fit.* from "./fit"

  type Event = {
    op: str,                              // functions, roots, curve
    model: Model, r0: int,
    freqs: List[int], power: List[int],
    lags: List[int], acov: List[int],
    widths: List[int], cents: List[int], roots: List[Cx],     // roots: both of every conjugate pair
    times: List[int], reply: Reply,
    units: Units
  }

  var ev: Event

  pure val none: Event = { op: "none", model: mkModel([], [], [], 0), r0: 0, freqs: [], power: [], lags: [], acov: [],
                           widths: [], cents: [], roots: [], times: [], reply: noReply, units: { t: 0, f: 0 } }

  // dice 0..5 orders and scales, 6..14 quads, 16..23 ma
  pure def mkProcess(d: Dice): Model = {
    val p = 1 + d.get(0) % 7
    val base = mkBase(d.get(2))
    val sig = frac(50 + d.get(3) * 3, 200)
    if (p == 1) car1Model(rdiv(base * (1 + d.get(1) % 40), 20), mul(sig, sig))
    else {
      val ma = mkMA(d.get(4) % p, base, d, 16)
      modelWithSd(mkQuads(p, d.get(1) % (p / 2 + 1), base, d, 6), ma, sig)
    }
  }

  // a root for every width and centroid; a positive centroid stands for a conjugate pair, and one width
  // more than centroids stands for a root without centroid
  pure def rootsOfShape(widths: List[int], cents: List[int]): List[Cx] =
    range(0, widths.length()).foldl([], (acc, i) => {
      val re = -mul(TWOPI, widths[i])
      if (i >= cents.length() or cents[i] == 0) acc.append((re, 0))
      else acc.append((re, -mul(TWOPI, cents[i]))).append((re, mul(TWOPI, cents[i])))
    })

  action init = ev' = none

  // C23
  action doFunctions = {
    nondet d = 0.to(60).setOfMaps(0.to(999)).oneOf()
    val m = mkProcess(d)
    val terms = acvfTerms(m)
    val freqs = range(0, 1 + d.get(25) % 6).foldl([], (acc, i) =>
      acc.append(if (d.get(26 + i) % 9 == 0) 0 else geo(frac(1, 1000), 8 * ONE, d.get(26 + i))))
    val lags = range(0, 4).foldl([0], (acc, i) => acc.append((if (d.get(40 + i) % 3 == 0) -1 else 1) * (1 + d.get(44 + i) * d.get(40 + i) / 100) * DY))
    ev' = { ...none, op: "functions", units: mkUnits(d.get(50), d.get(51)), model: m, r0: acvf0(terms), freqs: mapL(freqs, dyadic),
            power: mapL(freqs, f => psd(m, dyadic(f))), lags: lags, acov: mapL(lags, t => acvf(terms, t)) }
  }
  action doRoots = {
    nondet d = 0.to(12).setOfMaps(0.to(999)).oneOf()
    nondet n = oneOf(1.to(4))
    nondet extra = oneOf(0.to(1))
    val cents = range(0, n).foldl([], (acc, i) => acc.append(if (d.get(i) % 6 == 0) 0 else if (d.get(i) % 6 == 1) (1 + d.get(i) / 100) * DY else (1 + d.get(i) * 3) * DY))
    val widths = range(0, n + extra).foldl([], (acc, i) => acc.append((1 + d.get(5 + i)) * DY))
    ev' = { ...none, op: "roots", units: mkUnits(d.get(11), 0), widths: widths, cents: cents, roots: rootsOfShape(widths, cents) }
  }
  action stepFunctions = any { doFunctions, doFunctions, doRoots }

  // C25
  action stepCurve = {
    nondet d = 0.to(60).setOfMaps(0.to(999)).oneOf()
    nondet k = oneOf(1.to(7))
    nondet o = oneOf(0.to(3))
    val m = mkProcess(d)
    val rows = mkRows(k, d, 30)
    val inc = rows.foldl([], (acc, r) => acc.append(r.t))
    // increasing, decreasing, rotated or interleaved
    val times = if (o == 0) inc else if (o == 1) reversed(inc)
                else if (o == 2) inc.slice(k / 2, k).concat(inc.slice(0, k / 2))
                else range(0, k).foldl([], (acc, i) => acc.append(inc[(i * 3 + d.get(5)) % k])).select(t => k % 3 != 0)
    val ts = if (times.length() == 0) inc else times
    ev' = { ...none, op: "curve", units: mkUnits(d.get(27), d.get(28)), model: m, r0: variance(m), times: ts, reply: jointReply({ mu: 0, model: m }, [], ts) }
  }

  // -------------------------------------------------- properties of the model
  // the autocovariance is largest at lag zero, and the roots carry the widths and centroids asked for
  val acovBounded: bool = ev.acov.foldl(true, (ok, c) => ok and iabs(c) <= ev.acov[0] + TINY)
  val shapeKept: bool = (ev.op == "roots") implies
    ev.roots.foldl(true, (ok, r) => ok and
      ev.widths.foldl(false, (a, w) => a or near(width(r), w, 10^8)) and
      (r._2 == 0 or ev.cents.foldl(false, (a, c) => a or near(centroid(r), c, 10^8))))
  // the first value of a curve has the stationary variance, later ones at most that
  val curveStationary: bool = (ev.op == "curve") implies
    (ev.reply.vars[0] == ev.r0 and ev.reply.vars.foldl(true, (ok, v) => ok and v <= ev.r0 + TINY))
  val timesDistinct: bool = range(0, ev.times.length()).foldl(true, (ok, i) =>
    ok and range(0, i).foldl(true, (a, j) => a and ev.times[i] != ev.times[j]))
  val powerSane: bool = ev.power.foldl(true, (ok, x) => ok and x >= 0)
  val processSane: bool = acovBounded and shapeKept and curveStationary and timesDistinct and powerSane

  // Parseval on a CAR(1): twice the sum of the spectrum over a fine grid is the variance
  run spectrumTest = {
    val m = car1Model(ONE, 2 * ONE)
    val s = range(0, 400).foldl(0, (acc, i) => acc + psd(m, frac(2 * i + 1, 200)))
    assert(near(2 * rdiv(s, 100), ONE, frac(3, 100)))
  }
}
