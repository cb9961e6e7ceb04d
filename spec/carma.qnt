// -*- mode: Bluespec; -*-
//
// The CARMA(p,q) process: what a parameter vector means.
//
// The process is defined by its characteristic polynomials
//     alpha(s) = s^p + alpha_{p-1} s^{p-1} + ... + alpha_0 = prod_k (s - r_k)
//     beta(s)  = 1 + beta_1 s + ... + beta_q s^q
// and the driving noise variance sigma^2. Its autocovariance is obtained from
// the residues of the spectral density,
//     R(tau) = sigma^2 sum_k beta(r_k) beta(-r_k) exp(r_k |tau|) / (alpha'(r_k) alpha(-r_k)),
// which uses neither the state-space form nor the product formula of the code.
module carma {
  import fixed.* from "./fixed"

  type Model = { roots: List[Cx], ar: List[int], ma: List[int], sigsqr: int }
  // one term of the autocovariance: Re(coef * exp(root * tau))
  type Term = { root: Cx, coef: Cx }

  // ------------------------------------------------------------- polynomials
  // real polynomials, coefficients in ascending order of the power of s
  pure def polyMul(a: List[int], b: List[int]): List[int] =
    range(0, a.length() + b.length() - 1).foldl([], (acc, k) =>
      acc.append(rdiv(range(0, a.length()).foldl(0, (s, i) =>
        if (k - i >= 0 and k - i < b.length()) s + a[i] * b[k - i] else s), ONE)))

  pure def polyEval(a: List[int], s: Cx): Cx =
    range(0, a.length()).foldl(C0, (acc, i) =>
      cadd(cmul(acc, s), (a[a.length() - 1 - i], 0)))

  // quad: the terms (a0, a1, a2, a3, ...) of the factors (s^2 + a1 s + a0)(s^2 + a3 s + a2)...,
  // with a final linear factor (s + a_last) if their number is odd
  pure def polyOfQuads(quad: List[int]): List[int] = {
    val even = range(0, quad.length() / 2).foldl([ONE], (acc, i) =>
      polyMul(acc, [quad[2 * i], quad[2 * i + 1], ONE]))
    if (quad.length() % 2 == 1) polyMul(even, [quad[quad.length() - 1], ONE]) else even
  }

  pure def rootsOfQuad(a0: int, a1: int): List[Cx] = {
    val disc = mul(a1, a1) - 4 * a0
    if (disc > 0) {
      val r = sqrt(disc)
      [(-rdiv(a1 + r, 2), 0), (-rdiv(a1 - r, 2), 0)]
    } else {
      val r = sqrt(-disc)
      [(-rdiv(a1, 2), -rdiv(r, 2)), (-rdiv(a1, 2), rdiv(r, 2))]
    }
  }

  pure def rootsOfQuads(quad: List[int]): List[Cx] = {
    val even = range(0, quad.length() / 2).foldl([], (acc, i) =>
      acc.concat(rootsOfQuad(quad[2 * i], quad[2 * i + 1])))
    if (quad.length() % 2 == 1) even.append((-(quad[quad.length() - 1]), 0)) else even
  }

  // MA polynomial of the quadratic terms, normalised to beta_0 = 1
  pure def maOfQuads(quad: List[int]): List[int] = {
    val c = polyOfQuads(quad)
    mapL(c, x => div(x, c[0]))
  }

  pure def binom(n: int, k: int): int =
    range(1, k + 1).foldl(1, (acc, i) => (acc * (n - k + i)) / i)

  // MA polynomial (1 + s / kappa)^(p-1)
  pure def maOfKappa(p: int, kappa: int): List[int] =
    range(0, p).foldl(([], ONE), (acc, i) =>
      (acc._1.append(binom(p - 1, i) * acc._2), div(acc._2, kappa)))._1

  pure def polyOfRoots(roots: List[Cx]): List[int] = {
    val c = roots.foldl([C1], (acc, r) =>
      range(0, acc.length() + 1).foldl([], (out, k) => {
        val hi = if (k > 0) acc[k - 1] else C0
        val lo = if (k < acc.length()) cmul(r, acc[k]) else C0
        out.append(csub(hi, lo))
      }))
    c.foldl([], (acc, z) => acc.append(z._1))
  }

  // -------------------------------------------------------- autocovariance
  pure def acvfTerms(m: Model): List[Term] =
    range(0, m.roots.length()).foldl([], (acc, k) => {
      val r = m.roots[k]
      if (r._2 < 0) acc else {
        val dalpha = range(0, m.roots.length()).foldl(C1, (d, l) =>
          if (l == k) d else cmul(d, csub(r, m.roots[l])))
        val num = cmul(polyEval(m.ma, r), polyEval(m.ma, cneg(r)))
        val den = cmul(dalpha, polyEval(m.ar, cneg(r)))
        // conjugate roots contribute conjugate terms: count the pair once
        val w = if (r._2 > 0) 2 * m.sigsqr else m.sigsqr
        acc.append({ root: r, coef: cdiv(cscale(w, num), den) })
      }
    })

  pure def acvf(terms: List[Term], tau: int): int =
    terms.foldl(0, (s, t) => s + cmul(t.coef, cexp(cscale(iabs(tau), t.root)))._1)

  pure def acvf0(terms: List[Term]): int = terms.foldl(0, (s, t) => s + t.coef._1)

  // stationary variance
  pure def variance(m: Model): int = acvf0(acvfTerms(m))

  pure def mkModel(roots: List[Cx], ar: List[int], ma: List[int], sigsqr: int): Model =
    { roots: roots, ar: ar, ma: ma, sigsqr: sigsqr }

  pure def modelOfQuads(quad: List[int], ma: List[int], sigsqr: int): Model =
    mkModel(rootsOfQuads(quad), polyOfQuads(quad), ma, sigsqr)

  // the model whose stationary standard deviation is sd
  pure def modelWithSd(quad: List[int], ma: List[int], sd: int): Model = {
    val ar = polyOfQuads(quad)
    // a driving noise for which the variance is not small, whatever the unit of time
    val m1 = modelOfQuads(quad, ma, imax(ONE, mul(ar[0], ar[0])))
    { ...m1, sigsqr: div(mul(m1.sigsqr, mul(sd, sd)), variance(m1)) }
  }

  pure def car1Model(omega: int, sigsqr: int): Model =
    mkModel([(-omega, 0)], [omega, ONE], [ONE], sigsqr)

  // ---------------------------------------------------------- power spectrum
  // sigma^2 |beta(2 pi i f)|^2 / |alpha(2 pi i f)|^2
  pure def psd(m: Model, f: int): int = {
    val s = (0, mul(TWOPI, f))
    div(mul(m.sigsqr, cabs2(polyEval(m.ma, s))), cabs2(polyEval(m.ar, s)))
  }

  // Lorentzian width and centroid of a root
  pure def width(r: Cx): int = div(-(r._1), TWOPI)
  pure def centroid(r: Cx): int = div(iabs(r._2), TWOPI)

  // ------------------------------------------------------------------ sanity
  run acvfTest = {
    // CAR(1): sigma^2 / (2 omega) exp(-omega tau)
    val t1 = acvfTerms(car1Model(frac(3, 2), 2 * ONE))
    // CAR(2) with (s^2 + 2 s + 5): variance = sigma^2 / (2 a0 a1)
    val m2 = modelOfQuads([5 * ONE, 2 * ONE], [ONE], ONE)
    // CARMA(2,1): variance = sigma^2 (1 + beta_1^2 a0) / (2 a0 a1)
    val m21 = modelOfQuads([5 * ONE, 2 * ONE], [ONE, frac(3, 10)], ONE)
    all {
      assert(near(acvf(t1, ONE), mul(frac(2, 3), exp(-frac(3, 2))), 10^10)),
      assert(near(variance(m2), frac(1, 20), 10^10)),
      assert(near(variance(m21), frac(145, 2000), 10^10)),
      assert(near(variance(modelWithSd([5 * ONE, 2 * ONE, 7 * ONE], [ONE, ONE], 3 * ONE)), 9 * ONE, 10^12)),
      assert(maOfKappa(4, 2 * ONE) == [ONE, frac(3, 2), frac(3, 4), frac(1, 8)]),
      assert(near(polyOfRoots(rootsOfQuads([5 * ONE, 2 * ONE, 7 * ONE]))[0], 35 * ONE, 10^4)),
    }
  }
}
