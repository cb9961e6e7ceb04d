// -*- mode: Bluespec; -*-
//
// Configurations of a sampler run, the whole run in closed form, and every
// configuration of a small scope.
module runs {
  // parameter updated by a step and the kind of the step
  type Stp = { par: int, kind: str }
  type Config = { samples: int, burnin: int, thin: int, steps: List[Stp], tracked: List[bool], user: bool }
  // one step call: which step, and the value its parameter had before
  type Call = { stp: int, before: int }

  // values before the first step call
  pure val DRAWN: int = -1
  pure val GIVEN: int = -2
  pure val STEPKINDS: List[str] = ["rec", "gibbs", "metrop"]

  // ------------------------------------------------------------ closed form
  pure def initial(c: Config): int = if (c.user) GIVEN else DRAWN
  // last position before k, in the endless repetition of the steps, that updates parameter i; negative if none
  pure def lastUpdate(c: Config, i: int, k: int): int = {
    val n = c.steps.length()
    range(0, n).foldl(-1, (b, j) => {
      // the largest position congruent to j below k
      val pos = if (k % n > j) k - k % n + j else k - k % n - n + j
      if (c.steps[j].par == i and pos > b) pos else b
    })
  }
  pure def callsOf(c: Config, t0: int): List[Call] = {
    val n = c.steps.length()
    range(0, n * (c.burnin + c.thin * c.samples)).foldl([], (acc, k) => {
      val b = lastUpdate(c, c.steps[k % n].par, k)
      acc.append({ stp: k % n, before: if (b < 0) initial(c) else t0 + b + 1 })
    })
  }
  pure def recordsOf(c: Config, t0: int): List[List[int]] =
    range(0, c.tracked.length()).foldl([], (acc, i) => acc.append(
      if (not(c.tracked[i])) []
      else range(0, c.samples).foldl([], (l, k) =>
        l.append(t0 + lastUpdate(c, i, c.steps.length() * (c.burnin + c.thin * (k + 1))) + 1))))

  pure def mkConfig(d: int -> int, maxpar: int): Config = {
    val np = 1 + d.get(0) % maxpar
    val ns = np + d.get(1) % 3
    { samples: 1 + d.get(2) % 5, burnin: d.get(3) % 5, thin: 1 + d.get(4) % 3, user: d.get(5) % 2 == 0,
      // every parameter has at least one step
      steps: range(0, ns).foldl([], (a, i) =>
        a.append({ par: if (i < np) (i + d.get(6)) % np else d.get(7 + i) % np, kind: STEPKINDS[d.get(14 + i) % 3] })),
      tracked: range(0, np).foldl([], (a, i) => a.append(d.get(22 + i) % 4 != 0)) }
  }

  // ------------------------------------------------------------ every small configuration
  // A configuration for every number below SMALL: up to 2 parameters and 3 steps, every parameter with a step, up to 3
  // samples, thinning up to 3, burn-in up to 3, every choice of tracked parameters, with and without a given start.
  pure val LAYOUTS: List[List[int]] = [[0], [0, 0], [0, 0, 0], [0, 1], [1, 0], [0, 0, 1], [0, 1, 0], [0, 1, 1], [1, 0, 0], [1, 0, 1], [1, 1, 0]]
  pure val SMALL: int = 3 * 4 * 3 * 2 * 4 * 11
  pure def small(i: int): Config = {
    val lay = LAYOUTS[i / 288]
    val np = if (i / 288 < 3) 1 else 2
    { samples: 1 + i % 3, burnin: (i / 3) % 4, thin: 1 + (i / 12) % 3, user: (i / 36) % 2 == 0,
      steps: range(0, lay.length()).foldl([], (a, k) => a.append({ par: lay[k], kind: STEPKINDS[(i + i / 7 + k) % 3] })),
      tracked: range(0, np).foldl([], (a, k) => a.append(if (k == 0) (i / 72) % 2 == 0 else (i / 144) % 2 == 0)) }
  }
  type Whole = { cfg: Config, calls: List[Call], recorded: List[List[int]] }
  // two runs of the same sampler
  pure def wholeSmall(i: int): List[Whole] = {
    val c = small(i)
    val n = callsOf(c, 0).length()
    [{ cfg: c, calls: callsOf(c, 0), recorded: recordsOf(c, 0) }, { cfg: c, calls: callsOf(c, n), recorded: recordsOf(c, n) }]
  }
}
