// -*- mode: Bluespec; -*-
//
// Conditioning in a Gaussian vector, by the innovations (LDL') decomposition of
// its covariance matrix. This is the definition of what filtering, prediction
// and simulation have to produce; it does not depend on any recursion in time.
module gauss {
  import fixed.* from "./fixed"
  import carma.* from "./carma"

  // a point of the series: time, error variance (0 for the noise-free process), value
  type Point = { t: int, evar: int, y: int }
  // mean and variance of a point conditional on the points listed before it
  type Innov = { m: int, v: int }

  pure val TINY: int = 10^10     // 1e-26: variances below this are exact zeros

  pure def covariance(terms: List[Term], r0: int, a: Point, b: Point, same: bool): int =
    if (same) r0 + a.evar
    else if (a.t == b.t) r0
    else acvf(terms, a.t - b.t)

  // The points conditioned on so far, with the rows of the unit lower factor
  type Cond = { pts: List[Point], L: List[List[int]], out: List[Innov] }
  pure val noCond: Cond = { pts: [], L: [], out: [] }

  // Condition on one more point; its law given the points before it is the last
  // entry of `out`. Points may come in any order of time: appending requested
  // times behind the data gives predictions and the joint law of simulations.
  pure def condition(terms: List[Term], st: Cond, pt: Point): Cond = {
    val r0 = acvf0(terms)
    val i = st.pts.length()
    // row[j] = L_ij D_j
    val row = range(0, i).foldl([], (w, j) => {
      val c = covariance(terms, r0, pt, st.pts[j], false)
      val lj = st.L[j]
      w.append(c - rdiv(range(0, j).foldl(0, (acc, k) => acc + w[k] * lj[k]), ONE))
    })
    val lrow = range(0, i).foldl([], (l, j) =>
      l.append(if (iabs(st.out[j].v) <= TINY) 0 else div(row[j], st.out[j].v)))
    val mean = rdiv(range(0, i).foldl(0, (acc, j) =>
      acc + lrow[j] * (st.pts[j].y - st.out[j].m)), ONE)
    val v = r0 + pt.evar - rdiv(range(0, i).foldl(0, (acc, j) => acc + lrow[j] * row[j]), ONE)
    { pts: st.pts.append(pt), L: st.L.append(lrow), out: st.out.append({ m: mean, v: v }) }
  }

  pure def conditionAll(terms: List[Term], pts: List[Point]): Cond =
    pts.foldl(noCond, (st, pt) => condition(terms, st, pt))

  pure def innovations(terms: List[Term], pts: List[Point]): List[Innov] =
    conditionAll(terms, pts).out

  // law of the noise-free process at time t
  pure def lawAt(terms: List[Term], st: Cond, t: int): Innov =
    condition(terms, st, { t: t, evar: 0, y: 0 }).out[st.pts.length()]

  // Gaussian log-likelihood without the constant -n/2 log(2 pi)
  pure def logLik(inn: List[Innov], pts: List[Point]): int =
    range(0, pts.length()).foldl(0, (s, i) => {
      val d = pts[i].y - inn[i].m
      s - rdiv(ln(inn[i].v), 2) - rdiv(div(mul(d, d), inn[i].v), 2)
    })

  run conditionalTest = {
    // OU process: one noise-free neighbour on each side, exact bridge formulae
    val terms = acvfTerms(car1Model(ONE, 2 * ONE))       // R(tau) = exp(-|tau|)
    val pts = [{ t: 0, evar: 0, y: ONE }, { t: 2 * ONE, evar: 0, y: 3 * ONE }, { t: ONE, evar: 0, y: 0 }]
    val inn = innovations(terms, pts)
    val e1 = exp(-ONE)
    val e2 = exp(-2 * ONE)
    all {
      assert(near(inn[1].m, e2, 10^10)),
      assert(near(inn[1].v, ONE - mul(e2, e2), 10^10)),
      assert(near(inn[2].m, div(4 * e1, ONE + e2), 10^10)),
      assert(near(inn[2].v, ONE - div(2 * e2, ONE + e2), 10^10)),
    }
  }
}
