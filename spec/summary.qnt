// -*- mode: Bluespec; -*-
//
// What is reported about the samples of one parameter: numbers printed, and the
// content of the diagnostic plots. Everything is a function of the stored
// values; the autocorrelation time comes from outside and is represented by a
// function of the column it is asked for.
module summary {
  import fixed.* from "./fixed"
  import posterior.* from "./posterior"
  import fit.* from "./fit"

  // what is reported about one element of a parameter
  type Column = {
    xs: List[int], neff: int, tau: int, med: int, sd: int,
    ends: List[int],               // 68, 95 and 99 percent intervals: lower and upper end of each
    acf: List[int],                // all lags, about the mean
    bins: List[List[int]]          // histograms with 25, 50 and 100 bins
  }

  pure def smallestL(xs: List[int]): int = xs.foldl(xs[0], (m, x) => imin(m, x))
  pure def largestL(xs: List[int]): int = xs.foldl(xs[0], (m, x) => imax(m, x))

  // stands for the autocorrelation time of a column; does not depend on its units
  pure def timescale(xs: List[int]): int = {
    val big = xs.foldl(0, (m, x) => imax(m, iabs(x)))
    if (big == 0) ONE else ONE + div(iabs(xs[0]) + 2 * iabs(xs[xs.length() - 1]), big)
  }

  pure def spread(xs: List[int]): int = sqrt(meanL(mapL(centredL(xs), x => mul(x, x))))

  // histogram: bin b of a value is the number of inner edges at or below it
  pure def summaryOf(xs: List[int]): Column = {
    val n = xs.length()
    val tau = timescale(xs)
    { xs: xs, neff: div(n * ONE, tau), tau: tau, med: percentile(xs, 50 * ONE), sd: spread(xs),
      ends: [16 * ONE, 84 * ONE, frac(5, 2), frac(195, 2), HALF, frac(199, 2)].foldl([], (acc, pc) => acc.append(percentile(xs, pc))),
      acf: correlogram(centredL(xs), n - 1),
      bins: [histogram(xs, 25), histogram(xs, 50), histogram(xs, 100)] }
  }

  // ------------------------------------------------- kernel density estimate
  // Gaussian kernels with the covariance of the sample times n^(-1/3), on a grid
  // over the range of the values; entry j * nb + i belongs to node i of a and j of b
  type Kde = { levels: List[int], margins: List[int], rho: int }
  pure def nodes(xs: List[int], nb: int): List[int] = {
    val lo = smallestL(xs)
    val w = largestL(xs) - lo
    range(0, nb).foldl([], (acc, i) => acc.append(lo + rdiv(w * i, nb - 1)))
  }
  pure def products(a: List[int], b: List[int]): int =
    range(0, a.length()).foldl(0, (s, i) => s + mul(a[i], b[i]))

  pure def densityGrid(a: List[int], b: List[int], nb: int): List[int] = {
    val n = a.length()
    val ca = centredL(a)
    val cb = centredL(b)
    val f = exp(rdiv(-ln(n * ONE), 3))
    val vaa = mul(f, rdiv(products(ca, ca), n - 1))
    val vbb = mul(f, rdiv(products(cb, cb), n - 1))
    val vab = mul(f, rdiv(products(ca, cb), n - 1))
    val det = mul(vaa, vbb) - mul(vab, vab)
    val norm = div(ONE, n * mul(TWOPI, sqrt(det)))
    nodes(b, nb).foldl([], (rows, y) => nodes(a, nb).foldl(rows, (acc, x) =>
      acc.append(mul(norm, range(0, n).foldl(0, (s, k) => {
        val dx = x - a[k]
        val dy = y - b[k]
        val quad = div(mul(vbb, mul(dx, dx)) - 2 * mul(vab, mul(dx, dy)) + mul(vaa, mul(dy, dy)), det)
        s + exp(rdiv(-quad, 2))
      })))))
  }

  // the largest value for which the nodes at or above it hold the fraction f of the total, and
  // how far the held fraction is from f on either side
  pure def levelFor(grid: List[int], f: int): (int, int) = {
    val total = sumL(grid)
    val desc = reversed(sorted(grid))
    val r = desc.foldl((0, 0, 10 * ONE), (acc, g) =>
      if (acc._2 > 0) acc
      else {
        val held = acc._1 + g
        val share = div(held, total)
        (held, if (share >= f) g else 0, imin(acc._3, iabs(share - f)))
      })
    (r._2, r._3)
  }
  pure def kdeOf(a: List[int], b: List[int], nb: int): Kde = {
    val grid = densityGrid(a, b, nb)
    val ls = [9973, 9545, 6827].foldl([], (acc, k) => acc.append(levelFor(grid, frac(k, 10000))))
    val ca = centredL(a)
    val cb = centredL(b)
    { levels: ls.foldl([], (acc, l) => acc.append(l._1)), margins: ls.foldl([], (acc, l) => acc.append(l._2)),
      rho: div(products(ca, cb), sqrt(mul(products(ca, ca), products(cb, cb)))) }
  }

  run summaryTest = {
    val s = summaryOf([ONE, 2 * ONE, 3 * ONE, 4 * ONE, 5 * ONE])
    all {
      assert(s.med == 3 * ONE),
      assert(near(s.sd, sqrt(2 * ONE), EPS)),
      assert(s.ends == [frac(164, 100), frac(436, 100), frac(11, 10), frac(49, 10), frac(102, 100), frac(498, 100)]),
      assert(s.tau == ONE + frac(11, 5)),
      assert(s.acf[1] == frac(4, 10)),
      assert(sumL(s.bins[0]) == 5),
      assert(levelFor([ONE, 5 * ONE, 2 * ONE, 2 * ONE], frac(6, 10)) == (2 * ONE, frac(1, 10))),
    }
  }
}
