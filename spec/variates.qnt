// -*- mode: Bluespec; -*-
//
// Requests for random variates and proposals. Each event gives the law of the
// variate and its distribution function on a grid of points; the law of a
// proposal is the one its acceptance correction has to agree with.
module variates {
  import fixed.* from "./fixed"
  import laws.* from "./laws"

  pure val DY: int = ONE / 1024
  type Dice = int -> int
  type Event = {
    op: str,                      // variate, multinormal, proposal, stretch
    law: Law,
    other: Law,                   // same kind, other parameters, to be drawn in between
    start: List[int],             // where a proposal starts from
    xs: List[int], ps: List[int], // grid and distribution function
    sigma: List[List[int]],       // multinormal: covariance; stretch: the ensemble
    ws: List[List[int]],          // multinormal: weights of linear combinations, with the grid of each
    gs: List[List[int]], qs: List[int],
    index: int, unit: int, powers: List[int]
  }
  var ev: Event

  pure val NAMES: List[str] = ["exp", "normal", "lognormal", "uniform", "uniformint", "powerlaw", "student", "chisqr",
                               "invchisqr", "gamma", "invgamma"]

  // a dyadic number between lo and hi (in thousandths)
  pure def between(lo: int, hi: int, u: int): int = ((lo * 1024 + (hi - lo) * u * 1024 / 1000) / 1000) * DY

  pure def mkLaw(name: str, u: int, v: int, w: int): Law =
    if (name == "exp") { name: name, a: between(50, 8000, u), b: 0, c: 0 }
    else if (name == "normal") { name: name, a: between(0, 9000, u) - 4 * ONE, b: between(100, 5000, v), c: 0 }
    else if (name == "lognormal") { name: name, a: between(0, 4000, u) - 2 * ONE, b: if (w % 4 == 0) between(2000, 6000, v) else between(100, 1500, v), c: 0 }
    else if (name == "uniform") { name: name, a: between(0, 9000, u) - 5 * ONE, b: between(4100, 9000, v), c: 0 }
    else if (name == "uniformint") (
      if (w % 3 == 0) { name: name, a: (u - 600) * ONE, b: (u - 600 + 20 + v) * ONE, c: 0 }
      else { name: name, a: (u % 7 - 3) * ONE, b: (u % 7 - 3 + v % 9) * ONE, c: 0 })
    // one slope in three is -1
    else if (name == "powerlaw")
      { name: name, a: between(100, 2000, u), b: between(2500, 9000, v), c: if (w % 3 == 0) -ONE else between(0, 10000, w) - 6 * ONE }
    else if (name == "student") { name: name, a: if (u % 3 == 0) between(300, 2000, u) else between(1000, 20000, u), b: between(0, 6000, v) - 3 * ONE, c: between(200, 4000, w) }
    else if (name == "chisqr") { name: name, a: (1 + u % (if (w % 3 == 0) 120 else if (w % 3 == 1) 3 else 30)) * ONE, b: 0, c: 0 }
    else if (name == "invchisqr") { name: name, a: (1 + u % (if (w % 3 == 0) 120 else if (w % 3 == 1) 3 else 30)) * ONE, b: between(200, 5000, v), c: 0 }
    else { name: name, a: if (w % 4 == 0) between(40, 300, u) else if (w % 4 == 1) between(9000, 60000, u) else between(300, 9000, u), b: between(200, 5000, v), c: 0 }

  pure val ZS: List[int] = [-2200, -1300, -700, -250, 0, 250, 700, 1300, 2200]
  pure val FS: List[int] = [-100, 50, 150, 300, 450, 600, 750, 900, 1100]
  pure val MS: List[int] = [50, 200, 400, 700, 1000, 1400, 2000, 3000]

  pure def gridOf(l: Law): List[int] =
    if (l.name == "exp") mapL(MS, m => div(frac(m, 1000), l.a))
    else if (l.name == "normal") mapL(ZS, z => l.a + mul(l.b, frac(z, 1000)))
    else if (l.name == "lognormal") mapL(ZS, z => exp(l.a + mul(l.b, frac(z, 1000))))
    else if (l.name == "uniform") mapL(FS, f => l.a + mul(l.b - l.a, frac(f, 1000)))
    else if (l.name == "uniformint" and l.b - l.a > 10 * ONE)
      mapL([l.a - ONE, l.a, l.a + 4 * ONE, fdivn(l.a + l.b, 2 * ONE) * ONE, l.b - 5 * ONE, l.b - ONE, l.b], k => k + ONE / 4)
    else if (l.name == "uniformint") mapL(range(-1, 11), k => l.a + k * ONE + ONE / 4)
    else if (l.name == "powerlaw") mapL(FS, f => mul(l.a, powr(div(l.b, l.a), frac(f, 1000))))
    else if (l.name == "student") mapL([-300000, -30000].concat(ZS).concat([30000, 300000]), z => l.b + mul(l.c, frac(z, 1000)))
    else if (l.name == "chisqr") mapL(MS, m => mul(l.a, frac(m, 1000)))
    else if (l.name == "invchisqr") mapL(MS, m => div(l.b, frac(m, 1000)))
    else if (l.name == "gamma") mapL(MS, m => mul(mul(l.a, l.b), frac(m, 1000)))
    else mapL(MS, m => div(div(l.b, l.a), frac(m, 1000)))

  // Unit of the drawn values: values are multiplied by 2^unit, the parameters of a law
  // by these powers of it. No power: the law has no unit.
  pure def powersOf(name: str): List[int] =
    if (name == "exp") [-1, 0, 0]
    else if (name == "normal" or name == "uniform" or name == "powerlaw") [1, 1, 0]
    else if (name == "student") [0, 1, 1]
    else if (name == "invchisqr" or name == "gamma" or name == "invgamma") [0, 1, 0]
    else []
  pure val SCALES: List[int] = [0, 0, 0, 0, -90, -40, -15, 40]

  // grid points are used as doubles
  pure def rounded(xs: List[int]): List[int] = mapL(xs, x => fdivn(x * 2^30, ONE) * (ONE / 2^30))

  pure val noLaw: Law = { name: "", a: 0, b: 0, c: 0 }
  pure def blank(op: str, l: Law, o: Law): Event = {
    val xs = rounded(gridOf(l))
    { op: op, law: l, other: o, start: [], xs: xs, ps: mapL(xs, x => cdf(l, x)), sigma: [], ws: [], gs: [], qs: [], index: 0, unit: 0, powers: [] }
  }

  action variate = {
    nondet i = oneOf(0.to(NAMES.length() - 1))
    nondet d = 0.to(6).setOfMaps(0.to(999)).oneOf()
    val e = blank("variate", mkLaw(NAMES[i], d.get(0), d.get(1), d.get(2)), mkLaw(NAMES[i], d.get(3), d.get(4), d.get(5)))
    val w = powersOf(NAMES[i])
    ev' = { ...e, powers: w, unit: if (w == []) 0 else SCALES[d.get(6) % 8] }
  }

  // covariance A A' with dyadic A; linear combinations that determine it
  pure def gram(n: int, d: Dice, off: int): List[List[int]] = {
    pure def a(i: int, j: int): int =
      if (j > i) 0 else if (i == j) (200 + d.get(off + i)) * DY * 2 else (d.get(off + 5 + 5 * i + j) - 500) * DY * 3
    range(0, n).foldl([], (m, i) => m.append(range(0, n).foldl([], (r, j) =>
      r.append(range(0, n).foldl(0, (t, l) => t + mul(a(i, l), a(j, l)))))))
  }
  pure def unit(n: int, i: int, j: int, s: int): List[int] =
    range(0, n).foldl([], (r, k) => r.append((if (k == i) ONE else 0) + (if (k == j and j != i) s * ONE else 0)))
  pure def combos(n: int): List[List[int]] =
    range(0, n).foldl([], (w, i) => range(0, i + 1).foldl(w, (x, j) =>
      if (i == j) x.append(unit(n, i, i, 0)) else x.append(unit(n, i, j, 1)).append(unit(n, i, j, -1))))
  pure def quadForm(s: List[List[int]], w: List[int]): int =
    range(0, w.length()).foldl(0, (t, i) => range(0, w.length()).foldl(t, (u, j) => u + mul(s[i][j], mul(w[i], w[j]))))

  pure val NORMALZ: List[int] = [-1600, -600, 0, 600, 1600]
  pure def multi(op: str, n: int, d: Dice): Event = {
    val s = gram(n, d, 0)
    val w = combos(n)
    { op: op, law: { name: "multinormal", a: 0, b: 0, c: 0 }, other: noLaw,
      start: range(0, n).foldl([], (a, i) => a.append((d.get(40 + i) - 500) * DY * 16)),
      xs: [], ps: [], sigma: s, ws: w, index: 0, unit: SCALES[d.get(48) % 8], powers: [],
      gs: range(0, w.length()).foldl([], (g, k) => {
        val sd = sqrt(quadForm(s, w[k]))
        g.append(rounded(mapL(NORMALZ, z => mul(sd, frac(z, 1000)))))
      }),
      qs: mapL(NORMALZ, z => normalCdf(frac(z, 1000))) }
  }

  action multinormal = {
    nondet d = 0.to(50).setOfMaps(0.to(999)).oneOf()
    ev' = multi("multinormal", 1 + d.get(49) % 4, d)
  }

  // ------------------------------------------------------------ proposals
  pure def stretchLaw(a: int): Law = { name: "powerlaw", a: div(ONE, a), b: a, c: -HALF }

  action propose = {
    nondet i = oneOf(0.to(4))
    nondet d = 0.to(60).setOfMaps(0.to(999)).oneOf()
    val name = PROPOSALS[i]
    val a = if (name == "student") between(1000, 12000, d.get(0))
      else if (name == "lognormal" and d.get(1) % 3 == 0) between(2000, 5000, d.get(0))
      else between(100, 2000, d.get(0))
    val b = between(100, 4000, d.get(1))
    val x = if (name == "lognormal") between(50, 9000, d.get(2)) else between(0, 20000, d.get(2)) - 10 * ONE
    if (i == 3) ev' = multi("proposal", 1 + d.get(49) % 4, d)
    else if (i == 4) {
      val n = 1 + d.get(3) % 5
      // one ensemble in four is large; in one out of three all members share their first component
      val k = if (d.get(4) % 4 == 3) 8 + d.get(4) % 19 else 2 + d.get(4) % 6
      val share = n > 2 and d.get(58) % 3 == 0
      val s = if (d.get(5) % 3 == 0) 2 * ONE else between(1100, 6000, d.get(6))
      val e = blank("stretch", stretchLaw(s), noLaw)
      ev' = { ...e, index: d.get(7) % k, start: [s], unit: SCALES[d.get(59) % 8],
              sigma: range(0, k).foldl([], (m, r) => m.append(range(0, n).foldl([], (v, c) =>
                v.append(if (share and c == 0) 3 * ONE / 2 else (d.get(8 + (r * 7 + c * 5 + r * c) % 50) - 500 + 37 * r) * DY * 4)))) }
    }
    else {
      val e = blank("proposal", proposalLaw(name, a, b, x), { name: name, a: a, b: b, c: 0 })
      ev' = { ...e, start: [x], unit: SCALES[d.get(59) % 8] }
    }
  }

  action init = ev' = blank("none", { name: "exp", a: ONE, b: 0, c: 0 }, noLaw)
  action step = any { variate, variate, variate, multinormal }
  action stepPropose = propose

  // ------------------------------------------------------------ properties
  val monotone: bool = range(0, ev.ps.length()).foldl(true, (ok, i) =>
    ok and ev.ps[i] >= -1000 and ev.ps[i] <= ONE + 10^15 and
      (i == 0 or (ev.xs[i] >= ev.xs[i - 1]) == (ev.ps[i] >= ev.ps[i - 1]) or near(ev.ps[i], ev.ps[i - 1], 10^15)))
  // symmetric kinds need no correction
  val symmetric: bool = (ev.op == "proposal" and ev.start.length() == 1 and (ev.other.name == "normal" or ev.other.name == "student")) implies
    near(correction(ev.other.name, ev.other.a, ev.other.b, ev.start[0], ev.xs[0]), 0, 10^8)
  val lognormalJacobian: bool = (ev.op == "proposal" and ev.other.name == "lognormal") implies
    near(correction("lognormal", ev.other.a, 0, ev.start[0], ev.xs[1]), ln(ev.xs[1]) - ln(ev.start[0]), 10^12)
  val sane: bool = monotone and symmetric and lognormalJacobian
}
