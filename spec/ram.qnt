// -*- mode: Bluespec; -*-
//
// Robust adaptive Metropolis: adaptation of the proposal covariance.
//
// A proposal displaces the value by d = root(S) u, where u is a vector of unit
// draws and root(S) any square root of the covariance S, so that
// d' S^-1 d = |u|^2. The rule for S needs d, u and the acceptance probability.
module ram {
  import fixed.* from "./fixed"
  import accept.* from "./accept"

  type Vec = List[int]
  type Mat = List[Vec]

  pure def norm2(v: Vec): int = rdiv(v.foldl(0, (s, x) => s + x * x), ONE)

  // LDL' factor of a symmetric matrix: rows of L and the pivots
  type Fact = { L: Mat, D: Vec }
  pure def factor(s: Mat): Fact =
    range(0, s.length()).foldl({ L: [], D: [] }, (f, i) => {
      val row = range(0, i).foldl([], (w, j) =>
        w.append(s[i][j] - rdiv(range(0, j).foldl(0, (a, k) => a + w[k] * f.L[j][k]), ONE)))
      val l = range(0, i).foldl([], (a, j) => a.append(div(row[j], f.D[j])))
      { L: f.L.append(l), D: f.D.append(s[i][i] - rdiv(range(0, i).foldl(0, (a, j) => a + l[j] * row[j]), ONE)) }
    })
  pure def positive(s: Mat): bool = {
    // leading pivots, stopping at the first that is not positive
    range(0, s.length()).foldl((true, { L: [], D: [] }), (acc, i) =>
      if (not(acc._1)) acc else {
        val f = factor(s.slice(0, i + 1))
        (f.D[i] > 0, f)
      })._1
  }
  // d' S^-1 d
  pure def mahalanobis(s: Mat, d: Vec): int = {
    val f = factor(s)
    val z = range(0, d.length()).foldl([], (a, i) =>
      a.append(d[i] - rdiv(range(0, i).foldl(0, (t, j) => t + f.L[i][j] * a[j]), ONE)))
    range(0, d.length()).foldl(0, (t, i) => t + div(mul(z[i], z[i]), f.D[i]))
  }
  // lower triangular root applied to u
  pure def displace(s: Mat, u: Vec): Vec = {
    val f = factor(s)
    val w = range(0, u.length()).foldl([], (a, i) => a.append(mul(sqrt(f.D[i]), u[i])))
    range(0, u.length()).foldl([], (a, i) =>
      a.append(w[i] + rdiv(range(0, i).foldl(0, (t, j) => t + f.L[i][j] * w[j]), ONE)))
  }

  type Settings = { dim: int, target: int, decay: int, maxiter: int }

  // size of the change at iteration n = 0, 1, ...
  pure def gain(c: Settings, n: int): int =
    if (n == 0) ONE else imin(ONE, c.dim * exp(-mul(c.decay, ln(n * ONE))))

  pure def adapted(c: Settings, s: Mat, n: int, u: Vec, d: Vec, alpha: int): Mat =
    if (n >= c.maxiter) s else {
      val g = div(mul(gain(c, n), alpha - c.target), norm2(u))
      range(0, c.dim).foldl([], (m, i) => m.append(range(0, c.dim).foldl([], (r, j) =>
        r.append(s[i][j] + mul(g, mul(d[i], d[j]))))))
    }

  // A recorded step, judged: how far the new covariance is from the rule, how
  // far the displacement is from a root of the covariance, relative to their sizes
  // cond: how much of a variance the other coordinates explain, at most
  type Verdict = { rule: int, root: int, same: bool, posdef: bool, size: int, cond: int }
  pure def conditioning(s: Mat): int = {
    val f = factor(s)
    range(0, s.length()).foldl(ONE, (a, i) => if (f.D[i] <= 0) 10^20 * ONE else imax(a, div(s[i][i], f.D[i])))
  }
  pure def judge(c: Settings, s: Mat, n: int, u: Vec, d: Vec, alpha: int, s1: Mat): Verdict = {
    val want = adapted(c, s, n, u, d, alpha)
    pure def rel(i: int, j: int): int =
      div(iabs(s1[i][j] - want[i][j]), sqrt(mul(imax(s[i][i], want[i][i]), imax(s[j][j], want[j][j]))))
    { rule: range(0, c.dim).foldl(0, (a, i) => range(0, c.dim).foldl(a, (b, j) => imax(b, rel(i, j)))),
      root: div(iabs(mahalanobis(s, d) - norm2(u)), norm2(u)),
      same: s == s1,
      posdef: positive(s1),
      size: gain(c, n),
      cond: imax(conditioning(s), conditioning(s1)) }
  }

  pure def mkCovar(k: int, dd: Dice): Mat = {
    // A A' with A lower triangular and a dominant diagonal, scales differing by powers of two
    pure def a(i: int, j: int): int =
      if (j > i) 0
      else if (i == j) (300 + dd.get(i)) * DY / 2^(dd.get(10 + i) % 6)
      else (dd.get(20 + 6 * i + j) - 500) * DY / 2^(dd.get(10 + i) % 6)
    range(0, k).foldl([], (m, i) => m.append(range(0, k).foldl([], (r, j) =>
      r.append(range(0, k).foldl(0, (t, l) => t + mul(a(i, l), a(j, l)))))))
  }
  pure val TARGETS: List[int] = [250, 250, 400, 100, 900, 700]
  pure val DECAYS: List[int] = [667, 667, 550, 1000, 800]
}
