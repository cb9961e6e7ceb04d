// -*- mode: Bluespec; -*-
//
// Fixed-point real and complex arithmetic on unbounded integers.
//
// A real x is represented by the integer closest to x * ONE. Every operator is
// an ordinary definition of the specification, so the reference values used by
// the other modules are computed by the specification itself (36 decimals)
// and not by the floating point code it is compared with.
module fixed {
  pure val ONE: int = 10^36
  pure val HALF: int = ONE / 2
  pure val LN2: int = 693147180559945309417232121458176568
  pure val PI: int = 3141592653589793238462643383279502884
  pure val TWOPI: int = 6283185307179586476925286766559005768

  pure def iabs(a: int): int = if (a < 0) -a else a
  pure def imin(a: int, b: int): int = if (a < b) a else b
  pure def imax(a: int, b: int): int = if (a > b) a else b
  pure def isign(a: int): int = if (a < 0) -1 else if (a > 0) 1 else 0

  // Floor division by a positive divisor; the rounding of / on negative
  // numbers differs between tools, so it is never used on negative operands.
  pure def fdivn(a: int, b: int): int = if (a >= 0) a / b else -((-a + b - 1) / b)

  // Division rounded to nearest, any sign; total, so that degenerate inputs (coinciding roots) can be
  // evaluated and then set aside as ill-conditioned.
  pure def rdiv(a: int, b: int): int = if (b == 0) 0 else {
    val n = iabs(a)
    val d = iabs(b)
    val q = (2 * n + d) / (2 * d)
    if (isign(a) * isign(b) < 0) -q else q
  }

  pure def mul(a: int, b: int): int = rdiv(a * b, ONE)
  pure def div(a: int, b: int): int = rdiv(a * ONE, b)
  pure def fromInt(n: int): int = n * ONE
  // n / d as a fixed-point number
  pure def frac(n: int, d: int): int = rdiv(n * ONE, d)

  // 2^k for any k, as a fixed-point multiplier
  pure def scale2(a: int, k: int): int = if (k >= 0) a * 2^k else rdiv(a, 2^(-k))

  pure def exp(x: int): int = {
    val k = fdivn(x, LN2)
    val r = x - k * LN2
    if (k < -160) 0 else {
      val s = range(1, 34).foldl((ONE, ONE), (acc, i) => {
        val t = rdiv(mul(acc._1, r), i)
        (t, acc._2 + t)
      })
      scale2(s._2, k)
    }
  }

  // Number of bits of a positive integer (up to 2^2047)
  pure def bits(a: int): int =
    [1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1].foldl((a, 0), (acc, k) =>
      if (acc._1 >= 2^k) (acc._1 / 2^k, acc._2 + k) else acc)._2 + 1

  // Natural logarithm of a positive number
  pure def ln(x: int): int = {
    val k = bits(x) - bits(ONE)
    val m = scale2(x, -k)                 // in (1/2, 2)
    val z = div(m - ONE, m + ONE)         // |z| <= 1/3
    val z2 = mul(z, z)
    val s = range(1, 42).foldl((z, z), (acc, i) => {
      val t = mul(acc._1, z2)
      (t, acc._2 + rdiv(t, 2 * i + 1))
    })
    2 * s._2 + k * LN2
  }

  // Square root of a non-negative number
  pure def sqrt(x: int): int = if (x <= 0) 0 else {
    val n = x * ONE
    val start = 2^((bits(n) + 1) / 2)
    range(0, 12).foldl(start, (g, i) => imin(g, (g + n / g) / 2))
  }

  // (cos x, sin x)
  pure def cossin(x: int): (int, int) = {
    val k = fdivn(x + PI, TWOPI)
    val r = (x - k * TWOPI) / 8           // |r| <= pi / 8
    val r2 = mul(r, r)
    val s = range(1, 17).foldl((ONE, ONE, r, r), (acc, i) => {
      val tc = -rdiv(mul(acc._1, r2), (2 * i - 1) * (2 * i))
      val ts = -rdiv(mul(acc._3, r2), (2 * i) * (2 * i + 1))
      (tc, acc._2 + tc, ts, acc._4 + ts)
    })
    range(0, 3).foldl((s._2, s._4), (cs, i) =>
      (mul(cs._1, cs._1) - mul(cs._2, cs._2), 2 * mul(cs._1, cs._2)))
  }

  pure def pow(x: int, n: int): int = range(0, n).foldl(ONE, (acc, i) => mul(acc, x))

  // x^y for positive x and any real y
  pure def powr(x: int, y: int): int = exp(mul(y, ln(x)))

  // ---------------------------------------------------------------- complex
  type Cx = (int, int)
  pure val C0: Cx = (0, 0)
  pure val C1: Cx = (ONE, 0)
  pure def cadd(a: Cx, b: Cx): Cx = (a._1 + b._1, a._2 + b._2)
  pure def csub(a: Cx, b: Cx): Cx = (a._1 - b._1, a._2 - b._2)
  pure def cneg(a: Cx): Cx = (-(a._1), -(a._2))
  pure def cconj(a: Cx): Cx = (a._1, -(a._2))
  pure def cmul(a: Cx, b: Cx): Cx =
    (rdiv(a._1 * b._1 - a._2 * b._2, ONE), rdiv(a._1 * b._2 + a._2 * b._1, ONE))
  pure def cabs2(a: Cx): int = rdiv(a._1 * a._1 + a._2 * a._2, ONE)
  pure def cdiv(a: Cx, b: Cx): Cx = {
    val d = b._1 * b._1 + b._2 * b._2
    (rdiv((a._1 * b._1 + a._2 * b._2) * ONE, d), rdiv((a._2 * b._1 - a._1 * b._2) * ONE, d))
  }
  pure def cscale(s: int, a: Cx): Cx = (mul(s, a._1), mul(s, a._2))
  pure def cexp(a: Cx): Cx = {
    val e = exp(a._1)
    if (a._2 == 0) (e, 0) else {
      val cs = cossin(a._2)
      (mul(e, cs._1), mul(e, cs._2))
    }
  }

  // ---------------------------------------------------------------- vectors
  pure def sumL(xs: List[int]): int = xs.foldl(0, (a, x) => a + x)
  pure def dot(a: List[int], b: List[int]): int =
    rdiv(range(0, a.length()).foldl(0, (s, i) => s + a[i] * b[i]), ONE)
  pure def mapL(xs: List[int], f: (int) => int): List[int] =
    xs.foldl([], (acc, x) => acc.append(f(x)))

  // distance between two fixed-point numbers is at most tol (also fixed point)
  pure def near(a: int, b: int, tol: int): bool = iabs(a - b) <= tol

  // ---------------------------------------------------- self tests of the kernel
  pure val EPS: int = 10^8      // 1e-28
  run expTest = all {
    assert(near(exp(ONE), 2718281828459045235360287471352662498, EPS)),
    assert(near(exp(-3 * ONE), 49787068367863942979342415650061777, EPS)),
    assert(near(ln(exp(frac(7, 3))), frac(7, 3), EPS)),
    assert(near(ln(frac(1, 1000)), -6907755278982137052053974364053092622, EPS)),
    assert(near(mul(sqrt(fromInt(7)), sqrt(fromInt(7))), fromInt(7), EPS)),
    assert(near(sqrt(frac(1, 10^12)), frac(1, 10^6), EPS)),
    assert(near(cossin(rdiv(PI, 6))._2, HALF, EPS)),
    assert(near(cossin(rdiv(-2 * PI, 3))._1, -HALF, EPS)),
    assert(near(cossin(fromInt(100))._2, -506365641109758793656557610459785432, 10^10)),
    assert(near(cossin(fromInt(-100))._2, 506365641109758793656557610459785432, 10^10)),
  }
}
