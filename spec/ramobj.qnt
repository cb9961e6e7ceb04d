// -*- mode: Bluespec; -*-
//
// State machine of one adaptive Metropolis step object.
module ramobj {
  import fixed.* from "./fixed"
  import accept.* from "./accept"
  import ram.* from "./ram"

  type Step = { u: Vec, ld: Ld, alpha: int, accepted: bool, before: Mat, d: Vec }
  var cfg: Settings
  var covar: Mat
  var iter: int
  var cur: Ld
  var temp: int
  // unit of each coordinate: the values are multiplied by 2^unit; the rule does not depend on it
  var unit: List[int]
  // how many times the steps of a history are gone through; the machine itself goes through them once
  var rounds: int
  var ev: Step

  pure val SCALES: List[int] = [0, 0, 0, 0, -90, -40, -15, 40]

  action init = {
    nondet dd = 0.to(70).setOfMaps(0.to(999)).oneOf()
    val k = 1 + dd.get(60) % 6
    val many = if (dd.get(68) % 8 == 0) 20 + dd.get(69) % 60 else 1
    val c = { dim: k, target: frac(TARGETS[dd.get(61) % 6], 1000), decay: frac(DECAYS[dd.get(62) % 5], 1000),
              maxiter: if (many > 1) 10 * many + dd.get(63) else [0, 1, 3, 6, 8, 50][dd.get(63) % 6] }
    all {
      cfg' = c, covar' = mkCovar(k, dd), iter' = 0, cur' = mkLd(dd.get(64), 2),
      temp' = TEMPS[dd.get(65) % TEMPS.length()],
      unit' = range(0, k).foldl([], (a, i) => a.append(SCALES[(dd.get(66) + i * dd.get(67)) % 8])),
      rounds' = many,
      ev' = { u: [], ld: fin(0), alpha: 0, accepted: false, before: [], d: [] }
    }
  }

  action step = {
    nondet dd = 0.to(20).setOfMaps(0.to(999)).oneOf()
    val u = range(0, cfg.dim).foldl([], (a, i) => a.append((dd.get(i) * 5 - 2498) * DY))
    val x = dd.get(10) % 10
    val new = if (x == 0) { kind: "neg", v: 0 } else if (x == 1) { kind: "nan", v: 0 } else if (x == 2) { kind: "pos", v: 0 }
              else fin(cur.v + (dd.get(11) * 6 - 4000) * DY * (1 + temp / ONE) / 2)
    val alpha = moveProb(cur, new, temp, 0)
    val d = displace(covar, u)
    nondet accepted = oneOf(if (alpha == 0) Set(false) else if (alpha == ONE) Set(true) else Set(true, false))
    all {
      cfg' = cfg, temp' = temp, unit' = unit, rounds' = rounds, iter' = iter + 1,
      covar' = adapted(cfg, covar, iter, u, d, alpha),
      cur' = if (accepted) new else cur,
      ev' = { u: u, ld: new, alpha: alpha, accepted: accepted, before: covar, d: d }
    }
  }

  // -------------------------------------------------------------- properties
  val staysPositive: bool = positive(covar)
  val staysSymmetric: bool = range(0, cfg.dim).foldl(true, (ok, i) =>
    ok and range(0, i).foldl(true, (o, j) => o and near(covar[i][j], covar[j][i], 10)))
  val frozenAfterwards: bool = (iter > cfg.maxiter) implies covar == ev.before
  val displacementIsRoot: bool = (ev.u.length() > 0) implies
    near(mahalanobis(ev.before, ev.d), norm2(ev.u), norm2(ev.u) / 10^15)
  // more probable than the target: the covariance grows along d; less: it shrinks
  val directionRight: bool = (iter > 0 and iter <= cfg.maxiter and norm2(ev.d) > 0) implies
    ((covar[0][0] - ev.before[0][0]) * (ev.alpha - cfg.target) >= 0)
  val sane: bool = staysPositive and staysSymmetric and frozenAfterwards and displacementIsRoot and directionRight
}
