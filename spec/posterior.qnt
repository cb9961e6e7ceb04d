// -*- mode: Bluespec; -*-
//
// The posterior distributions: what a parameter vector stands for, where the
// prior is not zero, and the value of the log-density there.
//
// theta = (process standard deviation, error scale, mean,
//          ln of the AR quadratic terms [p], then
//          carma: ln of the MA quadratic terms [q]; zcarma: logit of kappa)
// For a CAR(1) process theta = (standard deviation, error scale, mean, ln omega).
module posterior {
  import fixed.* from "./fixed"
  import carma.* from "./carma"
  import gauss.* from "./gauss"
  import gen.* from "./gen"

  type Theta = List[int]

  // kind: car1, car, carma, zcar, zcarma. klo, khi: range of kappa (zcarma)
  type Post = { kind: str, p: int, q: int, rows: List[Row], maxsd: int, mle: bool, klo: int, khi: int, temp: int, units: Units }

  // ------------------------------------------------------------ data summary
  pure def gaps(rows: List[Row]): List[int] =
    range(1, rows.length()).foldl([], (acc, i) => acc.append(rows[i].t - rows[i - 1].t))
  pure def minL(xs: List[int]): int = xs.foldl(xs[0], (a, x) => imin(a, x))
  pure def insert(xs: List[int], x: int): List[int] =
    xs.select(y => y <= x).append(x).concat(xs.select(y => y > x))
  pure def sorted(xs: List[int]): List[int] = xs.foldl([], (acc, x) => insert(acc, x))
  pure def median(xs: List[int]): int = {
    val s = sorted(xs)
    val n = s.length()
    if (n % 2 == 1) s[n / 2] else rdiv(s[n / 2 - 1] + s[n / 2], 2)
  }
  pure def span(rows: List[Row]): int = rows[rows.length() - 1].t - rows[0].t
  // highest and lowest frequency resolved by the sampling
  pure def maxFreq(rows: List[Row]): int = div(ONE, minL(gaps(rows)))
  pure def minFreq(rows: List[Row]): int = div(ONE, span(rows))
  // sample variance (n - 1)
  pure def sampleVar(rows: List[Row]): int = {
    val n = rows.length()
    val m = rdiv(rows.foldl(0, (s, r) => s + r.y), n)
    rdiv(rows.foldl(0, (s, r) => s + mul(r.y - m, r.y - m)), n - 1)
  }
  pure def defaultMaxSd(rows: List[Row]): int = 10 * sqrt(sampleVar(rows))
  pure def kappaHigh(rows: List[Row]): int = maxFreq(rows)
  pure def kappaLow(rows: List[Row]): int = imax(minFreq(rows), div(ONE, 10 * median(gaps(rows))))

  pure def newPost(kind: str, p: int, q: int, rows: List[Row], temp: int): Post =
    { kind: kind, p: p, q: q, rows: rows, maxsd: defaultMaxSd(rows), mle: false,
      klo: kappaLow(rows), khi: kappaHigh(rows), temp: temp, units: { t: 0, f: 0 } }

  pure def dim(o: Post): int =
    if (o.kind == "carma") 3 + o.p + o.q else if (o.kind == "zcarma") 4 + o.p else 3 + o.p

  // ---------------------------------------------------------------- decoding
  pure def quadsOf(o: Post, th: Theta): List[int] = mapL(th.slice(3, 3 + o.p), x => exp(x))
  pure def invLogit(x: int): int = div(ONE, ONE + exp(-x))
  pure def kappaOf(o: Post, th: Theta): int = o.klo + mul(o.khi - o.klo, invLogit(th[3 + o.p]))
  pure def maOf(o: Post, th: Theta): List[int] =
    if (o.kind == "carma") maOfQuads(mapL(th.slice(3 + o.p, th.length()), x => exp(x)))
    else if (o.kind == "zcar") maOfKappa(o.p, kappaHigh(o.rows))
    else if (o.kind == "zcarma") maOfKappa(o.p, kappaOf(o, th))
    else [ONE]
  pure def modelOfTheta(o: Post, th: Theta): Model =
    if (o.kind == "car1") {
      val w = exp(th[3])
      car1Model(w, 2 * mul(mul(th[0], th[0]), w))
    } else modelWithSd(quadsOf(o, th), maOf(o, th), th[0])

  // ----------------------------------------------------------------- support
  // One condition of the prior, with the relative distance from its boundary
  type Cond1 = { name: str, ok: bool, margin: int }
  pure def below(name: str, x: int, hi: int): Cond1 = { name: name, ok: x <= hi, margin: div(iabs(x - hi), iabs(hi)) }
  pure def above(name: str, x: int, lo: int): Cond1 =
    { name: name, ok: x >= lo, margin: div(iabs(x - lo), if (lo == 0) ONE else iabs(lo)) }

  pure val SEPARATION: int = ONE / 10^4
  pure val ORDERTOL: int = ONE / 10^7

  pure def scalarConds(o: Post, th: Theta): List[Cond1] = [
    below("deviation", th[0], o.maxsd), above("deviation", th[0], 0),
    below("scale", th[1], 2 * ONE), above("scale", th[1], HALF)]

  pure def freqConds(o: Post, roots: List[Cx]): List[Cond1] = {
    val hi = maxFreq(o.rows)
    val lo = minFreq(o.rows)
    roots.foldl([], (acc, r) =>
      acc.append(below("centroid", centroid(r), hi))
         .append(below("width-high", width(r), hi)).append(above("width-low", width(r), lo)))
  }

  // roots count as coincident when |a - b| <= 1e-4 |a + b|
  pure def sepConds(roots: List[Cx]): List[Cond1] =
    range(0, roots.length()).foldl([], (acc, i) =>
      range(0, i).foldl(acc, (acc2, j) => {
        val dif = cabs2(csub(roots[i], roots[j]))
        val s = cabs2(cadd(roots[i], roots[j]))
        val ratio = sqrt(div(dif, s))
        acc2.append(above("coincident", ratio, SEPARATION))
      }))

  // centroids do not increase; differences below 1e-7 of the highest frequency get no verdict
  pure def orderConds(o: Post, roots: List[Cx]): List[Cond1] =
    range(1, roots.length()).foldl([], (acc, i) => {
      val a = centroid(roots[i - 1])
      val b = centroid(roots[i])
      if (a == b) acc
      else acc.append({ name: "order", ok: b <= a,
                        margin: if (iabs(b - a) <= mul(ORDERTOL, maxFreq(o.rows))) 0 else div(iabs(b - a), imax(a, b)) })
    })

  pure def conditions(o: Post, th: Theta): List[Cond1] =
    if (o.kind == "car1") {
      val w = exp(th[3])
      scalarConds(o, th).append(below("width-high", w, maxFreq(o.rows))).append(above("width-low", w, minFreq(o.rows)))
    } else if (o.mle) []
    else {
      val roots = rootsOfQuads(quadsOf(o, th))
      scalarConds(o, th).concat(freqConds(o, roots)).concat(sepConds(roots)).concat(orderConds(o, roots))
    }

  // ------------------------------------------------------------------ values
  pure val DOF: int = 50
  // scaled inverse chi-square density of the error scale, and for zcarma the
  // density of the logit of a uniform variable; normalising constants omitted
  pure def logPrior(o: Post, th: Theta): int = {
    val s = th[1]
    val base = -rdiv(div(DOF * ONE, s), 2) - rdiv((2 + DOF) * ln(s), 2)
    if (o.kind == "zcarma") base - th[3 + o.p] - 2 * ln(ONE + exp(-(th[3 + o.p]))) else base
  }

  pure def pointsFor(o: Post, th: Theta): List[Point] =
    o.rows.foldl([], (acc, r) => acc.append({ t: r.t, evar: mul(th[1], mul(r.e, r.e)), y: r.y - th[2] }))

  // log-likelihood, with measures of the conditioning of the case
  type Lik = { ll: int, vmin: int, chi2: int, r0: int }
  pure def likelihood(o: Post, th: Theta): Lik = {
    val terms = acvfTerms(modelOfTheta(o, th))
    val pts = pointsFor(o, th)
    val inn = innovations(terms, pts)
    { ll: logLik(inn, pts),
      vmin: inn.foldl(10^6 * ONE, (m, x) => imin(m, x.v)),
      chi2: range(0, pts.length()).foldl(0, (s, i) => {
        val d = pts[i].y - inn[i].m
        s + div(mul(d, d), inn[i].v)
      }),
      r0: acvf0(terms) }
  }

  // ------------------------------------------------------------- case makers
  // round to a multiple of 2^-24, exact in binary floating point
  pure def dyadic(x: int): int = {
    val u = ONE / 2^24
    rdiv(x, u) * u
  }

  // Factors of the AR polynomial: a conjugate pair -a +- i b, or real roots -a, -b
  type Factor = { cx: bool, a: int, b: int }

  // point at fraction u (in 1/1000) of [lo, hi] on a logarithmic scale
  pure def geo(lo: int, hi: int, u: int): int = exp(ln(lo) + rdiv((ln(hi) - ln(lo)) * u, 1000))

  // p / 2 factors inside the support, the first nc complex, and the last real
  // root if p is odd; uses dice off .. off + 11
  pure def mkFactors(o: Post, nc: int, d: Dice, off: int): List[Factor] = {
    val lo = mul(TWOPI, minFreq(o.rows))
    val hi = mul(TWOPI, maxFreq(o.rows))
    val h = o.p / 2
    val nreal = 2 * (h - nc) + o.p % 2
    pure def slot(k: int): int = geo(lo, hi, ((k * 1000 + 200 + (d.get(off + 6) * 6) / 10) * 9) / (10 * nreal) + 50)
    val even = range(0, h).foldl({ fs: [], im: hi }, (acc, i) =>
      if (i < nc) {
        val im = rdiv(acc.im * (400 + (d.get(off + i) * 2) / 5), 1000)
        { fs: acc.fs.append({ cx: true, a: geo(lo, hi, 50 + (d.get(off + 3 + i) * 9) / 10), b: im }), im: im }
      } else {
        val k = 2 * (i - nc)
        { fs: acc.fs.append({ cx: false, a: slot(k + 1), b: slot(k) }), im: acc.im }
      }).fs
    if (o.p % 2 == 1) even.append({ cx: false, a: slot(nreal - 1), b: 0 }) else even
  }

  pure def quadsOfFactors(p: int, fs: List[Factor]): List[int] =
    range(0, fs.length()).foldl([], (acc, i) => {
      val f = fs[i]
      if (2 * i + 1 == p) acc.append(f.a)
      else if (f.cx) acc.append(mul(f.a, f.a) + mul(f.b, f.b)).append(2 * f.a)
      else acc.append(mul(f.a, f.b)).append(f.a + f.b)
    })

  // sd: multiple of maxsd in 1/1000; the remaining entries from dice off .. off + 10
  pure def mkTheta(o: Post, fs: List[Factor], sd: int, scale: int, d: Dice, off: int): Theta = {
    // any mean, or exactly zero
    val mu = if (d.get(off) % 9 == 4) 0 else o.rows[0].y + (d.get(off) - 500) * 4 * DY
    val first3 = [dyadic(sd), dyadic(scale), mu]
    if (o.kind == "car1") first3.append(dyadic(ln(fs[0].a)))
    else {
      val ar = mapL(quadsOfFactors(o.p, fs), x => dyadic(ln(x)))
      val extra = if (o.kind == "carma") range(0, o.q).foldl([], (acc, i) =>
                   acc.append((d.get(off + 1 + i) * 8 - 3000) * DY))
                 else if (o.kind == "zcarma") [if (d.get(off + 1) % 6 == 1) (d.get(off + 1) * 60 - 30000) * DY else (d.get(off + 1) * 8 - 4000) * DY]
                 else []
      first3.concat(ar).concat(extra)
    }
  }

  pure val KINDS: List[str] = ["car1", "car", "car", "carma", "carma", "carma", "zcar", "zcarma"]
  pure val TEMPS: List[int] = [1, 1, 3, 100]
  // dice off .. off + 5 and rows from roff
  pure def mkPost(d: Dice, off: int, rows: List[Row]): Post = {
    val kind = KINDS[d.get(off) % KINDS.length()]
    val p = if (kind == "car1") 1 else 2 + d.get(off + 1) % 6
    val q = if (kind == "carma") d.get(off + 2) % p else 0
    newPost(kind, p, q, rows, TEMPS[d.get(off + 3) % TEMPS.length()] * ONE)
  }

  // CAR(1): the single "factor" holds omega, inside [minFreq, maxFreq]
  pure def insideFactors(o: Post, d: Dice, off: int): List[Factor] =
    if (o.kind == "car1")
      [{ cx: false, a: geo(minFreq(o.rows), maxFreq(o.rows), 10 + (d.get(off) * 98) / 100), b: 0 }]
    else mkFactors(o, d.get(off + 10) % (o.p / 2 + 1), d, off)

  // scale of the errors: any, or exactly one
  pure def mkScale(x: int): int = if (x % 7 == 3) ONE else frac(510 + (x * 148) / 100, 1000)

  pure def insideTheta(o: Post, d: Dice, off: int): Theta =
    mkTheta(o, insideFactors(o, d, off), rdiv(o.maxsd * (20 + (d.get(off + 12) * 97) / 100), 1000),
            mkScale(d.get(off + 13)), d, off + 14)

  run priorTest = {
    val rows = [{ t: 0, y: 0, e: 0 }, { t: ONE, y: 2 * ONE, e: 0 }, { t: 3 * ONE, y: ONE, e: 0 }]
    val o = newPost("zcarma", 3, 0, rows, ONE)
    all {
      assert(maxFreq(rows) == ONE), assert(minFreq(rows) == frac(1, 3)),
      assert(near(o.maxsd, 10 * ONE, 10)),
      assert(o.klo == frac(1, 3)), assert(o.khi == ONE),
      assert(near(kappaOf(o, [0, 0, 0, 0, 0, 0, 0]), frac(2, 3), 10)),
      // a uniform variable has density 1/4 at logit zero
      assert(near(logPrior(o, [ONE, ONE, 0, 0, 0, 0, 0]), -25 * ONE - ln(4 * ONE), 10^6)),
    }
  }
}
