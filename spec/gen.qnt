// -*- mode: Bluespec; -*-
//
// Case generators shared by the state machines: irregular sampling patterns,
// error bars and well-separated characteristic roots, built from a vector of
// random digits. All times, values and errors are multiples of 1/1024 and
// therefore exact in binary floating point.
module gen {
  import fixed.* from "./fixed"
  import carma.* from "./carma"

  pure val DY: int = ONE / 1024

  // Units of a case. The process law does not depend on the units of time and flux:
  // with times multiplied by 2^t and values by 2^f, means scale with 2^f, variances
  // with 4^f, characteristic roots with 2^-t, MA coefficient k with 2^(k t) and the
  // variance of the driving noise with 4^f 2^(-t (2 p - 1)). Powers of two are
  // exact in binary floating point, so that the same answers are due in any units.
  type Units = { t: int, f: int }
  pure val TUNITS: List[int] = [0, 0, 0, -30, -9, 7, 17, 27]
  pure val FUNITS: List[int] = [0, 0, 0, -90, -40, -12, 10, 40]
  pure def mkUnits(a: int, b: int): Units = { t: TUNITS[a % 8], f: FUNITS[b % 8] }

  type Row = { t: int, y: int, e: int }

  // random digits 0..999 indexed from 0
  type Dice = int -> int

  // gaps between observations, in units of 1/1024
  pure val GAPS: List[int] = [16, 64, 150, 300, 512, 768, 1024, 1024, 1500, 2048, 3072, 5000, 9000, 40960, 500000]
  // 1-sigma errors, in units of 1/1024
  pure val ERRS: List[int] = [0, 1, 20, 100, 100, 300, 300, 600, 1024, 2000, 9000]
  // first observation time
  pure val STARTS: List[int] = [0, 0, 5, 1024, -3000, 51200000]

  // Sampling style from the first die: ordinary gaps, even spacing, close pairs,
  // one tiny gap among long ones, or anything.
  pure def styleOf(x: int): str =
    if (x < 300) "calm" else if (x < 450) "even" else if (x < 550) "pairs" else if (x < 600) "tiny" else "wild"

  // gap before row i of n, in units of 1/1024
  pure def gapOf(x: int, n: int, i: int, a: int, b: int): int = {
    val s = styleOf(x)
    if (s == "even") [64, 512, 1024, 3000][x % 4]
    else if (s == "pairs") (if (i % 2 == 1) 1 + b % 4 else GAPS[a % GAPS.length()])
    else if (s == "tiny") (if (i == 1 + x % (n - 1)) 1 else 50000 + 50 * a)
    else if (s == "wild") GAPS[a % GAPS.length()] + b % 7
    else 200 + 2 * (a % 500) + b % 7
  }

  // n rows sorted in time, using dice off .. off + 3 n
  pure def mkRows(n: int, d: Dice, off: int): List[Row] =
    range(0, n).foldl({ t: STARTS[d.get(off) % STARTS.length()] * DY, rows: [] }, (acc, i) => {
      val x = d.get(off)
      val a = d.get(off + 1 + 3 * i)
      val b = d.get(off + 2 + 3 * i)
      val c = d.get(off + 3 + 3 * i)
      val err = if (styleOf(x) == "wild" or styleOf(x) == "pairs") ERRS[b % ERRS.length()]
                else if (styleOf(x) == "even" and x % 3 == 0) 100
                else 50 + b % 400
      val t = if (i == 0) acc.t else acc.t + gapOf(x, n, i, a, b) * DY
      val y = ((c - 500) * 5 + (a % 10)) * DY
      { t: t, rows: acc.rows.append({ t: t, y: y, e: err * DY }) }
    }).rows

  // Quadratic terms of an AR polynomial of order p. Factors are listed with
  // decreasing frequency; the first nc of them have complex roots.
  // Uses dice off .. off + 8.
  pure val RATIOS: List[int] = [40, 100, 200, 400, 700, 1000, 1600]     // width / centroid * 1000
  pure val WIDE: List[int] = [1, 1, 1, 1, 1, 10, 100, 1000]
  pure def mkQuads(p: int, nc: int, base: int, d: Dice, off: int): List[int] = {
    val h = p / 2
    val even = range(0, h).foldl([], (acc, i) => {
      val lev = rdiv(base * (850 + d.get(off + i) % 300), 1000 * 2^i)
      val x = d.get(off + i + 4)
      if (i < nc) {
        val im = lev
        val re = rdiv(lev * (RATIOS[x % RATIOS.length()] + x % 13), 1000)
        acc.append(mul(re, re) + mul(im, im)).append(2 * re)
      } else {
        // sometimes a pair of very different roots
        val r1 = rdiv(lev * WIDE[d.get(off + 7) % WIDE.length()] * (1200 + x % 200), 1000)
        val r2 = rdiv(lev * (750 + x % 100), 1000)
        acc.append(mul(r1, r2)).append(r1 + r2)
      }
    })
    if (p % 2 == 1) even.append(rdiv(base * (500 + d.get(off + 8) % 150), 1000 * 2^h)) else even
  }

  // characteristic angular frequencies, in 1/1000
  pure val BASES: List[int] = [800, 1500, 2500, 4000, 6000, 100, 30000]
  pure def mkBase(x: int): int = frac(BASES[x % BASES.length()], 1000)

  // MA polynomial given directly by coefficients; uses dice off .. off + q
  pure def mkMA(q: int, base: int, d: Dice, off: int): List[int] =
    range(1, q + 1).foldl(([ONE], ONE), (acc, i) => {
      val s = div(acc._2, base)
      val sgn = if (d.get(off + i) % 5 == 0) -1 else 1
      (acc._1.append(sgn * rdiv(s * (100 + d.get(off + i)), 600)), s)
    })._1
}
