// -*- mode: Bluespec; -*-
//
// A fitted sample: the table of parameter vectors returned by the sampler, with
// everything a user reads off it. Every stored quantity is a function of its own
// row; predictions, simulations, spectra and criteria are functions of the table,
// the data and the request.
module fit {
  import fixed.* from "./fixed"
  import carma.* from "./carma"
  import gauss.* from "./gauss"
  import gen.* from "./gen"
  import posterior.* from "./posterior"

  // post: model and data; trace: one parameter vector per row; lps: log-posterior of each row
  type Table = { post: Post, trace: List[Theta], lps: List[int] }

  // what one row stands for
  type Derived = {
    sd2: int, scale: int, mu: int, quads: List[int], roots: List[Cx],
    arc: List[int],      // AR polynomial, highest power first
    mac: List[int],      // MA polynomial, constant first
    sigma: int, sigsqr: int, widths: List[int], cents: List[int]
  }

  pure def reversed(xs: List[int]): List[int] =
    range(0, xs.length()).foldl([], (acc, i) => acc.append(xs[xs.length() - 1 - i]))

  pure def derived(o: Post, th: Theta): Derived = {
    val m = modelOfTheta(o, th)
    { sd2: mul(th[0], th[0]), scale: th[1], mu: th[2], quads: quadsOf(o, th), roots: m.roots,
      arc: reversed(m.ar), mac: m.ma, sigma: sqrt(m.sigsqr), sigsqr: m.sigsqr,
      widths: m.roots.foldl([], (acc, r) => acc.append(width(r))),
      cents: m.roots.foldl([], (acc, r) => acc.append(centroid(r))) }
  }

  // --------------------------------------------------- choice of parameters
  // a parameter set for prediction: process mean and model
  type Chosen = { mu: int, model: Model }

  pure def argmax(xs: List[int]): int =
    range(0, xs.length()).foldl(0, (b, i) => if (xs[i] > xs[b]) i else b)

  pure def meanL(xs: List[int]): int = rdiv(sumL(xs), xs.length())

  pure def column(rows: List[List[int]], j: int): List[int] =
    rows.foldl([], (acc, r) => acc.append(r[j]))

  pure def columns(rows: List[List[int]], f: (List[int]) => int): List[int] =
    range(0, rows[0].length()).foldl([], (acc, j) => acc.append(f(column(rows, j))))

  // complex numbers are ordered by real part, then by imaginary part
  pure def cless(a: Cx, b: Cx): bool = a._1 < b._1 or (a._1 == b._1 and a._2 <= b._2)
  pure def csorted(zs: List[Cx]): List[Cx] = zs.foldl([], (acc, z) =>
    acc.select(x => cless(x, z)).append(z).concat(acc.select(x => not(cless(x, z)))))
  pure def cmedian(zs: List[Cx]): Cx = {
    val s = csorted(zs)
    val n = s.length()
    if (n % 2 == 1) s[n / 2]
    else (rdiv(s[n / 2 - 1]._1 + s[n / 2]._1, 2), rdiv(s[n / 2 - 1]._2 + s[n / 2]._2, 2))
  }
  pure def cmean(zs: List[Cx]): Cx = {
    val s = zs.foldl(C0, (a, z) => cadd(a, z))
    (rdiv(s._1, zs.length()), rdiv(s._2, zs.length()))
  }

  pure def rowChoice(t: Table, k: int): Chosen =
    { mu: t.trace[k][2], model: modelOfTheta(t.post, t.trace[k]) }

  pure def centre(t: Table, f: (List[int]) => int, g: (List[Cx]) => Cx, sigsqr: int): Chosen = {
    val ds = t.trace.foldl([], (acc, th) => acc.append(derived(t.post, th)))
    val mu = f(ds.foldl([], (acc, d) => acc.append(d.mu)))
    if (t.post.kind == "car1")
      { mu: mu, model: car1Model(exp(f(column(t.trace, 3))), sigsqr) }
    else {
      val roots = range(0, t.post.p).foldl([], (acc, j) =>
        acc.append(g(ds.foldl([], (zs, d) => zs.append(d.roots[j])))))
      val mac = columns(ds.foldl([], (acc, d) => acc.append(d.mac)), f)
      { mu: mu, model: mkModel(roots, polyOfRoots(roots), mac, sigsqr) }
    }
  }

  // how: map, median, mean, or row (the k-th)
  pure def choice(t: Table, how: str, k: int): Chosen =
    if (how == "map") rowChoice(t, argmax(t.lps))
    else if (how == "row") rowChoice(t, k)
    else {
      val ds = t.trace.foldl([], (acc, th) => acc.append(derived(t.post, th)))
      if (how == "median") {
        val s = median(ds.foldl([], (acc, d) => acc.append(d.sigma)))
        centre(t, median, cmedian, mul(s, s))
      }
      else centre(t, meanL, cmean, meanL(ds.foldl([], (acc, d) => acc.append(d.sigsqr))))
    }

  // ------------------------------------------------------------- predictions
  pure def centredPoints(rows: List[Row], mu: int): List[Point] =
    rows.foldl([], (acc, r) => acc.append({ t: r.t, evar: mul(r.e, r.e), y: r.y - mu }))

  type Reply = { mean: List[int], vars: List[int], vmin: int, resid: List[int], lrows: List[List[int]] }
  pure val noReply: Reply = { mean: [], vars: [], vmin: 0, resid: [], lrows: [] }
  pure def smallestVar(xs: List[Innov]): int = xs.foldl(10^6 * ONE, (m, x) => if (x.v > TINY) imin(m, x.v) else m)

  // law of the process, mean included, at each requested time given the data
  pure def predictReply(c: Chosen, rows: List[Row], ts: List[int]): Reply = {
    val terms = acvfTerms(c.model)
    val st = conditionAll(terms, centredPoints(rows, c.mu))
    val ans = ts.foldl([], (acc, t) => acc.append(lawAt(terms, st, t)))
    { mean: ans.foldl([], (l, x) => l.append(x.m + c.mu)), vars: ans.foldl([], (l, x) => l.append(x.v)),
      vmin: imin(smallestVar(ans), smallestVar(st.out)), resid: [], lrows: [] }
  }

  // joint law, see filterobj.jointAnswer; rows may be empty (unconditional law)
  pure def jointReply(c: Chosen, rows: List[Row], ts: List[int]): Reply = {
    val terms = acvfTerms(c.model)
    val data = centredPoints(rows, c.mu)
    val n = data.length()
    val st = conditionAll(terms, data.concat(ts.foldl([], (acc, t) => acc.append({ t: t, evar: 0, y: 0 }))))
    val out = st.out.slice(n, st.out.length())
    { mean: [], vars: out.foldl([], (l, x) => l.append(x.v)), vmin: smallestVar(st.out),
      resid: range(0, n).foldl([], (acc, i) => acc.append(data[i].y - st.out[i].m)),
      lrows: st.L.slice(n, st.L.length()) }
  }

  // -------------------------------------------------------- quality of a fit
  // n evenly spaced times from the first measurement to the last
  pure def gridOver(rows: List[Row], n: int): List[int] = {
    val t0 = rows[0].t
    val span = rows[rows.length() - 1].t - t0
    range(0, n).foldl([], (acc, i) => acc.append(if (n == 1) t0 else t0 + rdiv(span * i, n - 1)))
  }

  // deviations of the measurements from their forecasts, in standard deviations
  pure def standardized(c: Chosen, rows: List[Row]): List[int] = {
    val pts = centredPoints(rows, c.mu)
    val inn = innovations(acvfTerms(c.model), pts)
    range(0, pts.length()).foldl([], (acc, i) => acc.append(div(pts[i].y - inn[i].m, sqrt(inn[i].v))))
  }

  // autocorrelation at the lags 0 .. maxlag, by products of the values as they are
  pure def correlogram(xs: List[int], maxlag: int): List[int] = {
    val total = xs.foldl(0, (s, x) => s + x * x)
    range(0, maxlag + 1).foldl([], (acc, k) => {
      val s = range(0, xs.length() - k).foldl(0, (a, i) => a + xs[i] * xs[i + k])
      acc.append(if (total == 0) 0 else rdiv(s * ONE, total))
    })
  }
  pure def centredL(xs: List[int]): List[int] = {
    val m = meanL(xs)
    mapL(xs, x => x - m)
  }

  // numbers of values in nb bins of equal width between the smallest and the largest value; the last one is closed
  pure def histogram(xs: List[int], nb: int): List[int] = {
    val lo = xs.foldl(xs[0], (m, x) => imin(m, x))
    val w = xs.foldl(xs[0], (m, x) => imax(m, x)) - lo
    range(0, nb).foldl([], (acc, b) =>
      acc.append(xs.select(x => (if (w == 0) nb / 2 else imin((x - lo) * nb / w, nb - 1)) == b).length()))
  }

  type Assessment = { grid: List[int], law: Reply, resid: List[int], acf: List[int], acf2: List[int],
                      limit: int, counts: List[int] }
  pure val noAssessment: Assessment = { grid: [], law: noReply, resid: [], acf: [], acf2: [], limit: 0, counts: [] }
  pure def assessment(c: Chosen, rows: List[Row], n: int): Assessment = {
    val grid = gridOver(rows, n)
    val r = standardized(c, rows)
    val lag = imin(50, rows.length() - 1)
    { grid: grid, law: predictReply(c, rows, grid), resid: r, acf: correlogram(r, lag),
      acf2: correlogram(centredL(mapL(r, x => mul(x, x))), lag),
      limit: div(frac(196, 100), sqrt(rows.length() * ONE)), counts: histogram(r, 10) }
  }

  // ---------------------------------------------------------------- criteria
  // mean deviance plus half its (population) variance
  pure def criterion(liks: List[int]): int = {
    val dev = mapL(liks, x => -2 * x)
    val m = meanL(dev)
    m + rdiv(meanL(mapL(dev, x => mul(x - m, x - m))), 2)
  }

  // Akaike criterion with the small-sample correction; k free parameters besides the error scale
  pure def correctedAkaike(fun: int, p: int, q: int, n: int): int = {
    val k = 2 + p + q
    2 * k * ONE + 2 * fun + frac(2 * k * (k + 1), n - k - 1)
  }

  // percentile by linear interpolation between order statistics; pc in percent, fixed point
  pure def percentile(xs: List[int], pc: int): int = {
    val s = sorted(xs)
    val h = rdiv((s.length() - 1) * pc, 100)
    val i = imin(h / ONE, s.length() - 1)
    if (i + 1 >= s.length()) s[i] else s[i] + mul(h - i * ONE, s[i + 1] - s[i])
  }

  // lower, middle and upper value of a band holding pct percent of the rows
  pure def band(spectra: List[int], pct: int): List[int] = {
    val lo = rdiv(100 * ONE - pct, 2)
    [percentile(spectra, lo), percentile(spectra, 50 * ONE), percentile(spectra, 100 * ONE - lo)]
  }
  pure def spectrumRange(rows: List[Row]): (int, int) = (minFreq(rows), rdiv(maxFreq(rows), 2))

  // ---------------------------------------------------------- flat interface
  // Functions of recorded numbers, for values that come from the implementation.
  pure val TABLEKINDS: List[str] = ["car1", "car", "carma"]

  // x = kind, p, q, theta...
  pure def flatPost(x: List[int]): Post =
    { kind: TABLEKINDS[x[0]], p: x[1], q: x[2], rows: [], maxsd: 0, mle: true, klo: 0, khi: 0, temp: ONE, units: { t: 0, f: 0 } }
  pure def derivedOf(x: List[int]): Derived = derived(flatPost(x), x.slice(3, x.length()))

  pure def rowsFrom(x: List[int], off: int, n: int): List[Row] =
    range(0, n).foldl([], (acc, i) => acc.append({ t: x[off + 3 * i], y: x[off + 3 * i + 1], e: x[off + 3 * i + 2] }))

  // x = kind, p, q, n, rows (t y e)*, theta: log-likelihood, log-prior and conditioning
  type Value = { ll: int, lp: int, vmin: int, r0: int, chi2: int }
  pure def valueOf(x: List[int]): Value = {
    val o = { ...flatPost(x), rows: rowsFrom(x, 4, x[3]) }
    val th = x.slice(4 + 3 * x[3], x.length())
    val l = likelihood(o, th)
    { ll: l.ll, lp: logPrior(o, th), vmin: l.vmin, r0: l.r0, chi2: l.chi2 }
  }

  // x = n, t...: first and last frequency of a band plot
  pure def rangeOf(x: List[int]): List[int] = {
    val r = spectrumRange(range(0, x[0]).foldl([], (acc, i) => acc.append({ t: x[1 + i], y: 0, e: 0 })))
    [r._1, r._2]
  }

  // x = kind, p, q, number of rows, number of frequencies, frequencies, theta of every row: spectra, row by row
  pure def spectraOf(x: List[int]): List[List[int]] = {
    val o = flatPost(x)
    val d = 3 + x[1] + x[2]
    range(0, x[3]).foldl([], (acc, i) => {
      val m = modelOfTheta(o, x.slice(5 + x[4] + i * d, 5 + x[4] + (i + 1) * d))
      acc.append(range(0, x[4]).foldl([], (fs, j) => fs.append(psd(m, x[5 + j]))))
    })
  }

  // x = percentage, spectra: band
  pure def bandOf(x: List[int]): List[int] = band(x.slice(1, x.length()), x[0])

  // x = log-likelihoods
  pure def criterionOf(x: List[int]): int = criterion(x)
  // x = objective, p, q, n
  pure def akaikeOf(x: List[int]): int = correctedAkaike(x[0], x[1], x[2], x[3])

  run fitTest = {
    all {
      assert(percentile([4 * ONE, ONE, 3 * ONE, 2 * ONE], 50 * ONE) == frac(5, 2)),
      assert(percentile([4 * ONE, ONE, 3 * ONE, 2 * ONE], 100 * ONE) == 4 * ONE),
      assert(band([ONE, 2 * ONE, 3 * ONE, 4 * ONE, 5 * ONE], 50 * ONE) == [2 * ONE, 3 * ONE, 4 * ONE]),
      assert(criterion([ONE, 3 * ONE]) == -4 * ONE + 2 * ONE),
      assert(correctedAkaike(0, 1, 0, 8) == 6 * ONE + 6 * ONE),
      assert(cmedian([(3, 1), (1, 5), (2, 9)]) == (2, 9)),
      assert(cmedian([(2, 4), (2, -4)]) == (2, 0)),
      assert(argmax([1, 5, 5, 2]) == 1),
      assert(correlogram([ONE, -ONE, ONE, -ONE], 2) == [ONE, frac(-3, 4), HALF]),
      assert(histogram([0, ONE, 2 * ONE, 4 * ONE, ONE], 4) == [1, 2, 1, 1]),
      assert(gridOver([{ t: ONE, y: 0, e: 0 }, { t: 3 * ONE, y: 0, e: 0 }], 5)[1] == frac(3, 2)),
    }
  }
}
