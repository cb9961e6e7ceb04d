// -*- mode: Bluespec; -*-
//
// The schedule of a sampler run: initialisation of every parameter, burn-in,
// thinned sampling and recording, one step call at a time.
//
// Every step call gives its parameter a new value, the number of step calls made
// so far, so that a recorded value identifies the moment it was recorded at.
module schedule {
  import runs.* from "./runs"

  var cfg: Config
  var phase: str                 // ready, init, burn, sample, done
  var at: int                    // next step of the iteration
  var iters: int                 // iterations completed in this phase (burn-in) or for this sample
  var tick: int
  var vals: List[int]
  var recorded: List[List[int]]  // per parameter
  var calls: List[Call]          // of this run
  var runs: int
  var fresh: bool                // this run uses a new sampler (same parameters and steps)
  var first: int                 // step calls made before this run

  pure def blank(n: int): List[List[int]] = range(0, n).foldl([], (a, i) => a.append([]))

  pure val RUNS: int = 3
  action begin(c: Config): bool = all {
    cfg' = c, phase' = "ready", at' = 0, iters' = 0, tick' = 0,
    vals' = range(0, c.tracked.length()).foldl([], (a, i) => a.append(0)),
    recorded' = blank(c.tracked.length()), calls' = [], runs' = 0, fresh' = true, first' = 0
  }

  action init = {
    nondet d = 0.to(30).setOfMaps(0.to(999)).oneOf()
    begin(mkConfig(d, 3))
  }

  // all parameters get a starting value, records are emptied
  action begins(c: Config, isnew: bool): bool = all {
    cfg' = c,
    vals' = range(0, vals.length()).foldl([], (a, i) => a.append(initial(c))),
    recorded' = blank(vals.length()),
    calls' = [], at' = 0, iters' = 0, tick' = tick, runs' = runs + 1,
    phase' = if (c.burnin == 0) "sample" else "burn",
    fresh' = isnew, first' = tick
  }
  action start = all { phase == "ready", begins(cfg, true) }
  // the same sampler again
  action again = all { phase == "done", runs < RUNS, begins(cfg, false) }
  // another sampler on the same parameters
  action another = all {
    phase == "done", runs < RUNS,
    nondet d = 2.to(5).setOfMaps(0.to(999)).oneOf()
    begins({ ...cfg, samples: 1 + d.get(2) % 5, burnin: d.get(3) % 5, thin: 1 + d.get(4) % 3, user: d.get(5) % 2 == 0 }, true)
  }

  // a complete run at once, for settings too large to be taken step by step
  action jump(c: Config, isnew: bool): bool = {
    val cs = callsOf(c, tick)
    all {
      cfg' = c, phase' = "done", at' = 0, iters' = 0, tick' = tick + cs.length(),
      vals' = range(0, vals.length()).foldl([], (a, i) => a.append(tick + lastUpdate(c, i, cs.length()) + 1)),
      recorded' = recordsOf(c, tick), calls' = cs, runs' = runs + 1, fresh' = isnew, first' = tick
    }
  }
  pure def large(c: Config, d: int -> int): Config =
    { ...c, samples: 1 + d.get(2) % 90, burnin: d.get(3) % 150, thin: 1 + d.get(4) % 15, user: d.get(5) % 2 == 0 }
  action initLarge = {
    nondet d = 0.to(30).setOfMaps(0.to(999)).oneOf()
    begin(large(mkConfig(d, 5), d))
  }
  action stepLarge = {
    nondet d = 2.to(5).setOfMaps(0.to(999)).oneOf()
    any { jump(large(cfg, d), true), all { phase == "done", jump(cfg, false) } }
  }

  action doStep = all {
    phase == "burn" or phase == "sample",
    at < cfg.steps.length(),
    val s = cfg.steps[at]
    all {
      calls' = calls.append({ stp: at, before: vals[s.par] }),
      tick' = tick + 1,
      vals' = vals.replaceAt(s.par, tick + 1),
      at' = at + 1,
      cfg' = cfg, phase' = phase, iters' = iters, recorded' = recorded, runs' = runs, fresh' = fresh, first' = first
    }
  }

  // end of an iteration: go on, leave the burn-in, or record
  action endIteration = all {
    phase == "burn" or phase == "sample",
    at == cfg.steps.length(),
    val n = iters + 1
    val leaves = phase == "burn" and n == cfg.burnin
    val records = phase == "sample" and n == cfg.thin
    val rec = if (records)
      range(0, vals.length()).foldl([], (a, i) =>
        a.append(if (cfg.tracked[i]) recorded[i].append(vals[i]) else recorded[i]))
      else recorded
    all {
      recorded' = rec,
      iters' = if (leaves or records) 0 else n,
      phase' = if (leaves) "sample" else if (records and sampled(rec) == cfg.samples) "done" else phase,
      at' = 0,
      cfg' = cfg, tick' = tick, vals' = vals, calls' = calls, runs' = runs, fresh' = fresh, first' = first
    }
  }
  // number of recording moments so far: step calls after the burn-in over those per sample
  def sampled(rec: List[List[int]]): int =
    (calls.length() - cfg.burnin * cfg.steps.length()) / (cfg.thin * cfg.steps.length())

  action idle = all {
    phase == "done", runs >= RUNS,
    cfg' = cfg, phase' = phase, at' = at, iters' = iters, tick' = tick, vals' = vals, recorded' = recorded,
    calls' = calls, runs' = runs, fresh' = fresh, first' = first
  }

  action step = any { start, again, another, doStep, endIteration, idle }

  // ------------------------------------------------------------ properties
  // at the end: the right number of calls, in order, and of records
  val callsComplete: bool = (phase == "done") implies
    calls.length() == (cfg.burnin + cfg.thin * cfg.samples) * cfg.steps.length()
  val callsInOrder: bool = range(0, calls.length()).foldl(true, (ok, i) => ok and calls[i].stp == i % cfg.steps.length())
  val recordsRight: bool = range(0, vals.length()).foldl(true, (ok, i) =>
    ok and (if (not(cfg.tracked[i])) recorded[i].length() == 0
            else phase == "done" implies recorded[i].length() == cfg.samples))
  // a record is a value given after the burn-in, and records move forward
  val recordsForward: bool = range(0, vals.length()).foldl(true, (ok, i) => ok and
    range(0, recorded[i].length()).foldl(true, (o, k) => o and (k == 0 or recorded[i][k] > recorded[i][k - 1])))
  val noRecordInBurnin: bool = (phase == "burn") implies
    range(0, vals.length()).foldl(true, (ok, i) => ok and recorded[i].length() == 0)
  // the run as a whole is the one of the closed form
  val closedForm: bool = (phase == "done") implies (calls == callsOf(cfg, first) and recorded == recordsOf(cfg, first))
  val sane: bool = closedForm and callsComplete and callsInOrder and recordsRight and recordsForward and noRecordInBurnin
}
