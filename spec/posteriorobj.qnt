// -*- mode: Bluespec; -*-
//
// State machine of one posterior object: evaluations in any order, interleaved
// with changes of the prior bound, of the range of kappa and of the
// maximum-likelihood mode. Each evaluation has one correct answer.
module posteriorobj {
  import fixed.* from "./fixed"
  import carma.* from "./carma"
  import gauss.* from "./gauss"
  import gen.* from "./gen"
  import posterior.* from "./posterior"

  type Event = {
    op: str,              // new, eval, edge, again, tweak, decode, setprior, setmle, kappa, start
    post: Post,
    theta: Theta,
    tag: str,             // which boundary an edge case aims at
    inside: bool,
    broken: List[str],    // violated conditions
    margin: int,          // smallest relative distance from a boundary
    lp: int,
    lik: Lik,
    roots: List[Cx], ma: List[int], sigsqr: int,
    lags: List[int], acov: List[int]
  }

  var post: Post
  var ev: Event
  // the vector evaluated last, the boundary it aimed at, and the number of repeats of the series
  var last: { theta: Theta, tag: str, reps: int }

  pure val noLik: Lik = { ll: 0, vmin: 0, chi2: 0, r0: 0 }

  pure def mkEvent(op: str, tag: str, o: Post, th: Theta, full: bool, lags: List[int]): Event = {
    val cs = if (th.length() == 0) [] else conditions(o, th)
    val inside = cs.foldl(true, (a, c) => a and c.ok)
    val m = if (full or lags.length() > 0) modelOfTheta(o, th) else mkModel([], [], [], 0)
    val terms = if (lags.length() == 0) [] else acvfTerms(m)
    { op: op, post: o, theta: th, tag: tag, inside: inside,
      broken: cs.foldl([], (a, c) => if (c.ok) a else a.append(c.name)),
      margin: cs.foldl(ONE, (a, c) => imin(a, c.margin)),
      lp: if (th.length() == 0) 0 else logPrior(o, th),
      lik: if (full and inside) likelihood(o, th) else noLik,
      roots: m.roots, ma: m.ma, sigsqr: m.sigsqr,
      lags: lags, acov: mapL(lags, t => acvf(terms, t)) }
  }

  pure val ND: int = 80

  // some series have a mean far from zero
  pure def freshPost(d: Dice): Post = {
    val rows = mkRows(3 + d.get(4) % 8, d, 40)
    val shift = if (d.get(5) % 10 == 7) 300 * ONE else 0
    { ...mkPost(d, 0, rows.foldl([], (acc, r) => acc.append({ ...r, y: r.y + shift }))), units: mkUnits(d.get(5) / 11, d.get(4) / 9) }
  }

  // cases without two equal or nearly equal factors, where the density can be computed
  pure def separate(tag: str): bool = tag != "coincident" and tag != "close-pair"

  action install(o: Post, op: str): bool = all { post' = o, ev' = mkEvent(op, "", o, [], false, []), last' = last }
  action ask(op: str, tag: str, th: Theta, full: bool): bool = all {
    post' = post, ev' = mkEvent(op, tag, post, th, full, []), last' = { ...last, theta: th, tag: tag }
  }

  action init = {
    nondet d = 0.to(ND).setOfMaps(0.to(999)).oneOf()
    val o = freshPost(d)
    all { post' = o, ev' = mkEvent("new", "", o, [], false, []), last' = { theta: insideTheta(o, d, 0), tag: "", reps: 1 } }
  }

  // ---------------------------------------------------------------- C06
  action doEval = {
    nondet d = 0.to(ND).setOfMaps(0.to(999)).oneOf()
    ask("eval", "", insideTheta(post, d, 0), true)
  }
  // the vector evaluated last once more, whatever was changed in between; a
  // constrained model of p in likelihood mode has no density at coinciding roots
  action doAgain = ask("again", last.tag, last.theta, separate(last.tag))

  // a vector that shares some of its entries with the one evaluated last: the
  // deviation, the scale, the mean, the AR terms or the MA terms
  pure def mixed(o: Post, a: Theta, b: Theta, x: int): Theta =
    range(0, a.length()).foldl([], (acc, i) => {
      val g = if (i < 3) i else if (i < 3 + o.p) 3 else 4
      acc.append(if ((x / 2^g) % 2 == 0) a[i] else b[i])
    })
  action doTweak = {
    nondet d = 0.to(ND).setOfMaps(0.to(999)).oneOf()
    // most often one group only is new, the AR terms last
    nondet x = oneOf(Set(1, 2, 4, 8, 16, 3, 5, 6, 24, 7, 30))
    val th = mixed(post, last.theta, insideTheta(post, d, 0), x)
    ask("tweak", last.tag, th, separate(last.tag))
  }

  action doSetPrior = {
    nondet x = oneOf(2.to(40))
    install({ ...post, maxsd: dyadic(rdiv(post.maxsd * x, 20)) }, "setprior")
  }
  action doMle = all {
    post.kind != "car1",
    install({ ...post, mle: not(post.mle) }, "setmle")
  }
  action doKappa = all {
    post.kind == "zcarma",
    nondet x = oneOf(100.to(900))
    nondet y = oneOf(200.to(3000))
    val lo = dyadic(rdiv(maxFreq(post.rows) * x, 1000))
    install({ ...post, klo: lo, khi: dyadic(lo + rdiv(lo * y, 1000)) }, "kappa")
  }

  // ---------------------------------------------------------------- C07
  // relative distances from a boundary, in 1e-6
  pure val OFFSETS: List[int] = [3, 3, 100, 3000, 50000, 300000]
  pure def nudge(x: int, k: int): int = {
    val e = OFFSETS[(k / 2) % OFFSETS.length()]
    rdiv(x * (10^6 + (if (k % 2 == 0) e else -e)), 10^6)
  }
  pure val EDGES: List[str] = ["none", "deviation-high", "deviation-low", "scale-low", "scale-high", "width-low",
                               "width-high", "centroid-high", "order", "coincident", "near-coincident", "close-pair"]

  pure def setWidth(f: Factor, linear: bool, which: int, w: int): Factor =
    if (f.cx or linear or which == 0) { ...f, a: w } else { ...f, b: w }

  pure def edgeFactors(o: Post, fs: List[Factor], tag: str, k: int, j: int): List[Factor] = {
    val i = j % fs.length()
    val linear = 2 * i + 1 == o.p
    val lo = if (o.kind == "car1") minFreq(o.rows) else mul(TWOPI, minFreq(o.rows))
    val hi = if (o.kind == "car1") maxFreq(o.rows) else mul(TWOPI, maxFreq(o.rows))
    if (tag == "width-low") fs.replaceAt(i, setWidth(fs[i], linear, k / 16, nudge(lo, k)))
    else if (tag == "width-high") fs.replaceAt(i, setWidth(fs[i], linear, k / 16, nudge(hi, k)))
    else if (o.kind == "car1") fs
    else if (tag == "centroid-high") fs.replaceAt(0, if (fs[0].cx) { ...fs[0], b: nudge(hi, k) } else fs[0])
    else if (tag == "order" and o.p >= 4) {
      // exchange two factors, or bring two centroids close together
      val a = j % (o.p / 2 - 1)
      if (k % 3 == 0 and fs[a].cx and fs[a + 1].cx) fs.replaceAt(a + 1, { ...fs[a + 1], b: nudge(fs[a].b, k) })
      else fs.replaceAt(a, fs[a + 1]).replaceAt(a + 1, fs[a])
    }
    else if (tag == "coincident" and o.p >= 4) {
      val a = j % (o.p / 2 - 1)
      fs.replaceAt(a + 1, fs[a])
    }
    else if (tag == "close-pair" and o.p >= 4) {
      // two factors that differ by a common scale: |a - b| / |a + b| well below or well above the limit
      val a = j % (o.p / 2 - 1)
      val s = [20, 50, 90, 3000][k % 4]
      // narrow or wide
      val f = if (k % 8 < 4) fs[a] else { ...fs[a], a: geo(lo, hi, 100) }
      fs.replaceAt(a, f).replaceAt(a + 1, { ...f, a: rdiv(f.a * (10^6 - 2 * s), 10^6), b: rdiv(f.b * (10^6 - 2 * s), 10^6) })
    }
    else if (tag == "near-coincident" and o.p == 2) {
      // separation of 0.5e-4, 0.9e-4, 1.2e-4, 3e-4 around the limit |a - b| = 1e-4 |a + b|
      val s = [50, 90, 120, 300][k % 4]
      val c = fs[0].a
      if (j % 2 == 0) [{ cx: true, a: c, b: rdiv(c * s, 10^6) }]
      else [{ cx: false, a: c + rdiv(c * s, 10^6), b: c - rdiv(c * s, 10^6) }]
    }
    else fs
  }

  pure def edgeTheta(o: Post, tag: str, k: int, j: int, d: Dice): Theta = {
    val sd = if (tag == "deviation-high") nudge(o.maxsd, k)
             else if (tag == "deviation-low") (if (k % 2 == 0) -1 else 1) * (1 + k) * ONE / 2^16
             else rdiv(o.maxsd * (20 + d.get(12) % 960), 1000)
    val scale = if (tag == "scale-low") nudge(HALF, k)
                else if (tag == "scale-high") nudge(2 * ONE, k)
                else mkScale(d.get(13))
    mkTheta(o, edgeFactors(o, insideFactors(o, d, 0), tag, k, j), sd, scale, d, 14)
  }

  action doEdge = {
    nondet d = 0.to(ND).setOfMaps(0.to(999)).oneOf()
    nondet k = oneOf(0.to(31))
    nondet j = oneOf(0.to(5))
    nondet i = oneOf(0.to(EDGES.length() - 1))
    // the value itself is needed only where the bounds are not enforced
    ask("edge", EDGES[i], edgeTheta(post, EDGES[i], k, j, d), post.mle and separate(EDGES[i]))
  }

  // ---------------------------------------------------------------- C08
  // factors far outside of the prior, with very different time scales
  pure def wideFactors(o: Post, d: Dice): List[Factor] = {
    // decades on either side of one, in 1/100; higher orders leave less room for a variance above the resolution
    val dec = if (o.p == 2) 400 else if (o.p == 3) 250 else 130
    pure def slot(k: int): int =
      exp(rdiv(mul(ln(10 * ONE), frac(-dec, 100)) * 1000 + mul(ln(10 * ONE), frac(2 * dec, 100)) * (k * 1000 + d.get(k)) / (o.p + 1), 1000))
    range(0, (o.p + 1) / 2).foldl([], (acc, i) =>
      if (2 * i + 1 == o.p) acc.append({ cx: false, a: slot(o.p - 1), b: 0 })
      // neighbouring scales, or a small and a large one
      else if (d.get(20 + i) % 3 == 0) acc.append({ cx: true, a: slot(2 * i), b: slot(2 * i + 1) })
      else if (d.get(20 + i) % 3 == 1) acc.append({ cx: false, a: slot(2 * i + 1), b: slot(2 * i) })
      else acc.append({ cx: true, a: slot(2 * i + 1), b: slot(2 * i) }))
  }

  action doDecode = {
    nondet d = 0.to(ND).setOfMaps(0.to(999)).oneOf()
    nondet a = oneOf(0.to(3000))
    val lags = [0, (1 + a) * DY, (a * 37 + 5) * DY]
    nondet w = oneOf(0.to(2))
    val th = if (w == 0 and post.kind != "car1") mkTheta(post, wideFactors(post, d), ONE, ONE, d, 14) else insideTheta(post, d, 0)
    all { post' = post, ev' = mkEvent("decode", if (w == 0) "wide" else "", post, th, false, lags), last' = last }
  }

  action doNew = {
    nondet d = 0.to(ND).setOfMaps(0.to(999)).oneOf()
    install(freshPost(d), "new")
  }

  // ---------------------------------------------------------------- C09
  // Sampling patterns that leave a narrow or a very wide range of frequencies,
  // and series with a large offset, without errors or with large ones.
  pure val PATTERNS: List[str] = ["regular", "cluster", "tiny-gap", "irregular", "offset", "exact", "noisy"]
  pure def hardRows(pat: str, n: int, d: Dice, off: int): List[Row] =
    range(0, n).foldl({ t: 0, rows: [] }, (acc, i) => {
      val x = d.get(off + 2 * i)
      val gap = if (i == 0) 0
                else if (pat == "regular") 1024
                else if (pat == "cluster") (if (i == n / 2) 4000000 else 20 + x % 30)
                else if (pat == "tiny-gap") (if (i == 1) 1 else 1000 + x)
                else 100 + 3 * x
      val t = acc.t + gap * DY
      val y = ((d.get(off + 2 * i + 1) - 500) * 3 + 7 * i) * DY + (if (pat == "offset") 4000 * ONE else 0)
      val e = if (pat == "exact") 0 else if (pat == "noisy") (4000 + x) * DY else (30 + x % 200) * DY
      { t: t, rows: acc.rows.append({ t: t, y: y, e: e }) }
    }).rows

  pure val STARTEDGES: List[str] = ["deviation-high", "scale-low", "scale-high", "width-low", "width-high", "centroid-high"]
  action stepStart = {
    nondet d = 0.to(ND).setOfMaps(0.to(999)).oneOf()
    nondet i = oneOf(0.to(PATTERNS.length() - 1))
    val o = { ...mkPost(d, 0, hardRows(PATTERNS[i], 3 + d.get(4) % 9, d, 40)), units: mkUnits(d.get(5) / 11, d.get(4) / 9) }
    // a moving average polynomial of order zero is the kind "car"
    val o1 = if (o.kind == "carma" and o.q == 0) { ...o, q: 1 } else o
    nondet k = oneOf(0.to(31))
    nondet j = oneOf(0.to(5))
    nondet g = oneOf(0.to(15))
    // a starting vector of the user: well inside, or close to a boundary on either side
    val th = if (g < 6) edgeTheta(o1, STARTEDGES[g], k, j, d) else insideTheta(o1, d, 0)
    all { post' = o1, ev' = mkEvent("start", PATTERNS[i], o1, th, false, []), last' = last }
  }

  // Long series: n measurements repeated k times, so far apart that the process forgets
  // everything in between; the likelihood is that of n measurements to the power k.
  pure def block(o: Post, k: int): Post = { ...o, rows: o.rows.slice(0, o.rows.length() / k) }
  pure def blockLik(o: Post, k: int, th: Theta): Lik = {
    val l = likelihood(block(o, k), th)
    { ...l, ll: k * l.ll, chi2: k * l.chi2 }
  }
  action initLong = {
    nondet d = 0.to(ND).setOfMaps(0.to(999)).oneOf()
    val o = freshPost(d)
    val k = 2 + d.get(6) % 29
    val shift = 128 * span(o.rows)
    val rows = range(0, k).foldl([], (acc, b) => acc.concat(o.rows.foldl([], (rs, r) => rs.append({ ...r, t: r.t + b * shift }))))
    val long = { ...newPost(o.kind, o.p, o.q, rows, o.temp), units: o.units }
    all { post' = long, ev' = mkEvent("new", "", long, [], false, []), last' = { theta: insideTheta(block(long, k), d, 0), tag: "", reps: k } }
  }
  action doEvalLong = {
    nondet d = 0.to(ND).setOfMaps(0.to(999)).oneOf()
    val th = insideTheta(block(post, last.reps), d, 0)
    val e = mkEvent("eval", "", post, th, false, [])
    val m = modelOfTheta(post, th)
    all { post' = post, last' = { ...last, theta: th }, 
          ev' = { ...e, lik: if (e.inside) blockLik(post, last.reps, th) else noLik, roots: m.roots, ma: m.ma, sigsqr: m.sigsqr } }
  }
  action stepLong = any { doEvalLong, doEvalLong, doEvalLong, doMle }
  // the same likelihood as from the law of the whole series, where that is cheap
  val repeatsForget: bool = (ev.op == "eval" and ev.post.rows.length() <= 12) implies
    near(likelihood(ev.post, ev.theta).ll, ev.lik.ll, (1 + iabs(ev.lik.ll)) / 10^9)

  action step = any { doEval, doEval, doEval, doEval, doTweak, doTweak, doEdge, doAgain, doAgain, doSetPrior, doMle, doKappa }
  action stepEdge = any { doEdge, doEdge, doEdge, doEdge, doEdge, doEdge, doTweak, doTweak, doAgain, doAgain, doSetPrior, doMle, doKappa }
  action stepDecode = any { doDecode, doDecode, doDecode, doKappa, doNew }

  // -------------------------------------------------- properties of the model
  // vectors made inside the support are inside; every broken condition is named
  val generatorInside: bool = ev.op == "eval" implies ev.inside
  val brokenNamed: bool = ev.inside == (ev.broken.length() == 0)
  // the decoded model has the requested stationary deviation, to the resolution of its driving noise
  val deviationKept: bool = (ev.op == "decode" and ev.sigsqr > 0) implies {
    val v = mul(ev.theta[0], ev.theta[0])
    near(ev.acov[0], v, mul(v, ONE / 10^15) + 4 * (v / ev.sigsqr) + TINY)
  }
  val acovBounded: bool = ev.acov.foldl(true, (ok, c) => ok and iabs(c) <= iabs(ev.acov[0]) + TINY)
  val kappaInRange: bool = (ev.post.kind == "zcarma" and ev.theta.length() > 0) implies
    (kappaOf(ev.post, ev.theta) >= ev.post.klo and kappaOf(ev.post, ev.theta) <= ev.post.khi)
  val answersSane: bool = generatorInside and brokenNamed and deviationKept and acovBounded and kappaInRange
}
