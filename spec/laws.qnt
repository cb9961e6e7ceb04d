// -*- mode: Bluespec; -*-
//
// Distribution functions of the random variates, computed in fixed point from
// the convergent series of the normal, incomplete gamma and incomplete beta
// integrals.
module laws {
  import fixed.* from "./fixed"

  // ln Gamma(x), x > 0: recurrence up to x >= 24, then Stirling's series
  pure def lnGamma(x: int): int = {
    val k = if (x >= 24 * ONE) 0 else 24 - x / ONE
    val shift = range(0, k).foldl(ONE, (a, i) => mul(a, x + i * ONE))
    val z = x + k * ONE
    val z2 = mul(z, z)
    // B_2n / (2n (2n - 1) z^(2n - 1))
    val coef = [frac(1, 12), -frac(1, 360), frac(1, 1260), -frac(1, 1680), frac(1, 1188), -frac(691, 360360),
                frac(1, 156), -frac(3617, 122400), frac(43867, 244188), -frac(174611, 125400), frac(77683, 5796)]
    val tl = coef.foldl((0, div(ONE, z)), (a, c) => (a._1 + mul(c, a._2), div(a._2, z2)))._1
    mul(z - HALF, ln(z)) - z + rdiv(ln(TWOPI), 2) + tl - ln(shift)
  }

  // standard normal
  pure def normalCdf(x: int): int =
    if (x < -8 * ONE) 0 else if (x > 8 * ONE) ONE
    else {
      val x2 = mul(x, x)
      val s = range(1, 140).foldl((x, x), (a, k) => {
        val t = rdiv(mul(a._1, x2), 2 * k + 1)
        (t, a._2 + t)
      })._2
      HALF + mul(s, div(exp(-(x2 / 2)), sqrt(TWOPI)))
    }

  // regularised incomplete gamma P(a, x)
  pure def gammaP(a: int, x: int): int =
    if (x <= 0) 0
    else if (x > 3 * a + 60 * ONE) ONE
    else {
      val s = range(1, 260).foldl((ONE, ONE), (acc, k) => {
        val t = div(mul(acc._1, x), a + k * ONE)
        (t, acc._2 + t)
      })._2
      exp(mul(a, ln(x)) - x - lnGamma(a + ONE) + ln(s))
    }

  // regularised incomplete beta I_z(a, b), the series for z below the mean
  pure def betaSeries(a: int, b: int, z: int): int = {
    val s = range(0, 200).foldl((ONE, ONE), (acc, k) => {
      // terms of 2F1(a + b, 1; a + 1; z)
      val t = mul(div(mul(acc._1, a + b + k * ONE), a + ONE + k * ONE), z)
      (t, acc._2 + t)
    })._2
    mul(s, exp(mul(a, ln(z)) + mul(b, ln(ONE - z)) + lnGamma(a + b) - lnGamma(a + ONE) - lnGamma(b)))
  }
  pure def betaI(a: int, b: int, z: int): int =
    if (z <= 0) 0 else if (z >= ONE) ONE
    else if (z <= div(a + ONE, a + b + 2 * ONE)) betaSeries(a, b, z)
    else ONE - betaSeries(b, a, ONE - z)

  pure def studentCdf(dof: int, x: int): int =
    if (x == 0) HALF else {
      val tl = rdiv(betaI(rdiv(dof, 2), HALF, div(dof, dof + mul(x, x))), 2)
      if (x > 0) ONE - tl else tl
    }

  // A law: name and up to three parameters
  type Law = { name: str, a: int, b: int, c: int }

  // P(X <= x) for the documented meaning of the parameters
  pure def cdf(l: Law, x: int): int =
    if (l.name == "exp") (if (x <= 0) 0 else ONE - exp(-mul(l.a, x)))                 // rate a
    else if (l.name == "normal") normalCdf(div(x - l.a, l.b))                         // mean a, deviation b
    else if (l.name == "lognormal") (if (x <= 0) 0 else normalCdf(div(ln(x) - l.a, l.b)))
    else if (l.name == "uniform") imax(0, imin(ONE, div(x - l.a, l.b - l.a)))
    else if (l.name == "uniformint")                                                 // integers a .. b
      imax(0, imin(ONE, div((fdivn(x, ONE) + 1) * ONE - l.a, l.b - l.a + ONE)))
    else if (l.name == "powerlaw") {                                                 // density x^c on [a, b]
      val s = l.c + ONE
      if (x <= l.a) 0 else if (x >= l.b) ONE
      else if (s == 0) div(ln(x) - ln(l.a), ln(l.b) - ln(l.a))
      else div(powr(x, s) - powr(l.a, s), powr(l.b, s) - powr(l.a, s))
    }
    else if (l.name == "student") studentCdf(l.a, div(x - l.b, l.c))                  // dof a, centre b, scale c
    else if (l.name == "chisqr") gammaP(rdiv(l.a, 2), rdiv(x, 2))
    else if (l.name == "invchisqr") (if (x <= 0) 0 else ONE - gammaP(rdiv(l.a, 2), div(mul(l.a, l.b), 2 * x)))
    else if (l.name == "gamma") gammaP(l.a, div(x, l.b))                              // shape a, scale b
    else if (l.name == "invgamma") (if (x <= 0) 0 else ONE - gammaP(l.a, div(l.b, x)))// shape a, scale b
    else 0

  // log density, up to a constant that does not depend on x
  pure def logShape(l: Law, x: int): int =
    if (l.name == "normal") -rdiv(mul(div(x - l.a, l.b), div(x - l.a, l.b)), 2)
    else if (l.name == "lognormal") -ln(x) - rdiv(mul(div(ln(x) - l.a, l.b), div(ln(x) - l.a, l.b)), 2)
    else if (l.name == "student") {
      val z = div(x - l.b, l.c)
      mul(rdiv(-(l.a + ONE), 2), ln(ONE + div(mul(z, z), l.a)))
    }
    else 0

  // smallest of the dyadic candidates lo + k (hi - lo) / 2^n with cdf >= u, by bisection
  pure def quantile(l: Law, u: int, lo: int, hi: int): int =
    range(0, 40).foldl((lo, hi), (acc, i) => {
      val m = (acc._1 + acc._2) / 2
      if (cdf(l, m) < u) (m, acc._2) else (acc._1, m)
    })._2

  // ------------------------------------------------------------ proposals
  pure val PROPOSALS: List[str] = ["normal", "student", "lognormal", "multinormal", "stretch"]

  // law of the value proposed from x by a proposal with the tuning parameters a, b
  pure def proposalLaw(name: str, a: int, b: int, x: int): Law =
    if (name == "normal") { name: name, a: x, b: a, c: 0 }
    else if (name == "student") { name: name, a: a, b: x, c: b }
    else { name: "lognormal", a: ln(x), b: a, c: 0 }
  // log q(old | new) - log q(new | old)
  pure def correction(name: str, a: int, b: int, old: int, new: int): int =
    logShape(proposalLaw(name, a, b, new), old) - logShape(proposalLaw(name, a, b, old), new)

  // ------------------------------------------------ recorded moves, as numbers
  // kind, a, b, old, new
  pure def correctionOf(x: List[int]): int = correction(PROPOSALS[x[0]], x[1], x[2], x[3], x[4])
  // stretch: dimension, scale z -> (n - 1) ln z
  pure def stretchCorrection(x: List[int]): int = (x[0] - 1) * ln(x[1])

  run lawsTest = all {
    assert(near(lnGamma(5 * ONE), ln(24 * ONE), 10^17)),
    assert(near(2 * lnGamma(HALF), ln(PI), 10^17)),
    // Phi(1), Phi(-2.5)
    assert(near(normalCdf(ONE), 841344746068542948585232545632037922, 10^18)),
    assert(near(normalCdf(-frac(5, 2)), 6209665325776135166978104574192221, 10^18)),
    assert(near(gammaP(ONE, 2 * ONE), ONE - exp(-2 * ONE), 10^18)),
    assert(near(gammaP(HALF, HALF), 2 * normalCdf(ONE) - ONE, 10^18)),
    assert(near(gammaP(frac(5, 2), 40 * ONE), ONE, 10^24)),
    // Cauchy and the closed form for two degrees of freedom
    assert(near(studentCdf(ONE, ONE), frac(3, 4), 10^18)),
    assert(near(studentCdf(2 * ONE, ONE), HALF + div(ONE, 2 * sqrt(3 * ONE)), 10^18)),
    assert(near(studentCdf(2 * ONE, -3 * ONE), HALF - div(3 * ONE, 2 * sqrt(11 * ONE)), 10^18)),
    assert(cdf({ name: "uniformint", a: 2 * ONE, b: 5 * ONE, c: 0 }, 3 * ONE) == HALF),
    assert(near(cdf({ name: "powerlaw", a: HALF, b: 2 * ONE, c: -HALF }, ONE),
                div(ONE - sqrt(HALF), sqrt(2 * ONE) - sqrt(HALF)), 10^10)),
    // slope -1 is the limit of the neighbouring slopes
    assert(near(cdf({ name: "powerlaw", a: HALF, b: 2 * ONE, c: -ONE }, ONE), HALF, 10^10)),
    assert(near(cdf({ name: "powerlaw", a: HALF, b: 2 * ONE, c: -ONE }, frac(3, 4)),
                cdf({ name: "powerlaw", a: HALF, b: 2 * ONE, c: -ONE + frac(1, 1000000) }, frac(3, 4)), 10^31)),
  }
}
