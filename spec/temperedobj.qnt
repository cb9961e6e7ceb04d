// -*- mode: Bluespec; -*-
//
// Behaviours of a run with tempered chains. Moves and exchanges of an iteration
// come in any order; each either changes the names of the values it concerns or
// leaves all as they are.
module temperedobj {
  import fixed.* from "./fixed"
  import gen.* from "./gen"
  import posterior.* from "./posterior"
  import tempered.* from "./tempered"

  var cfg: Run
  var start: List[int]
  var mon: Mon
  var evs: List[Ev]
  // what an observer of the recorded chain sees
  var seen: List[int]

  pure val ND: int = 90
  pure val RUNKINDS: List[str] = ["car1", "car", "car", "carma", "carma", "zcar"]

  // numbers of chains
  pure val COUNTS: List[int] = [1, 1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 18]

  pure def mkRun(d: Dice, chains: int): Run = {
    val kind = RUNKINDS[d.get(0) % RUNKINDS.length()]
    val p = if (kind == "car1") 1 else 2 + d.get(1) % 5
    val q = if (kind == "carma") 1 + d.get(2) % (p - 1) else 0
    val rows = mkRows(5 + d.get(4) % 8, d, 44)
    val o = { ...newPost(kind, p, q, rows, ONE), maxsd: runMaxSd(rows) }
    { post: o, chains: if (kind == "car1") 1 else chains, samples: 1 + d.get(5) % 12, burnin: d.get(6) % 25, thin: 1 + d.get(7) % 3,
      start: if (d.get(8) % 3 == 0) insideTheta(o, d, 9) else [] }
  }

  // longer runs; for two out of three, error bars larger than the scatter, which
  // let the chains reach the bounds of the prior
  pure def mkLongRun(d: Dice, chains: int): Run = {
    val r = mkRun(d, chains)
    val rows = mkRows(5 + d.get(4) % 8, d, 44).foldl([], (a, x) =>
      a.append(if (d.get(3) % 3 == 0) x else { ...x, y: x.y / (if (d.get(3) % 3 == 1) 10 else 100), e: x.e + DY * 50 }))
    val o = { ...newPost(r.post.kind, r.post.p, r.post.q, rows, ONE), maxsd: runMaxSd(rows) }
    { ...r, post: o, samples: 20 + d.get(5) % 30, burnin: d.get(6) % 200, thin: 1 + d.get(7) % 5,
      start: if (r.start.length() == 0) [] else insideTheta(o, d, 9) }
  }

  action initLong = {
    nondet d = 0.to(ND).setOfMaps(0.to(999)).oneOf()
    nondet k = 1.to(10).oneOf()
    val r = mkLongRun(d, k)
    val ids = range(0, r.chains).foldl([], (a, i) => a.append(i))
    all { cfg' = r, start' = ids, mon' = begin(ids), evs' = [], seen' = [] }
  }

  action init = {
    nondet d = 0.to(ND).setOfMaps(0.to(999)).oneOf()
    nondet k = 1.to(11).oneOf()
    val r = mkRun(d, COUNTS[k])
    val ids = range(0, r.chains).foldl([], (a, i) => a.append(i))
    all { cfg' = r, start' = ids, mon' = begin(ids), evs' = [], seen' = [] }
  }

  action happen(e: Ev): bool = {
    val m = advance(cfg, mon, e)
    all { cfg' = cfg, start' = start, mon' = m, evs' = evs.append(e),
          seen' = if (m.recorded.length() > mon.recorded.length()) seen.append(e.ids[0]) else seen }
  }

  pure def pending(r: Run, m: Mon): Set[int] = 0.to(r.chains - 1).exclude(m.moved)
  pure def waiting(r: Run, m: Mon): Set[int] = 1.to(r.chains - 1).exclude(m.offered)

  // outcome of a decision: a fresh value or the old one; swapped or not
  action move = all {
    not(complete(cfg, mon)), pending(cfg, mon).size() > 0,
    nondet i = pending(cfg, mon).oneOf()
    nondet ok = Set(true, false).oneOf()
    happen({ op: 0, chain: i, adapted: mon.iters < cfg.burnin, others: false,
          ids: if (ok) mon.ids.replaceAt(i, mon.top + 1) else mon.ids })
  }
  action exchange = all {
    not(complete(cfg, mon)), waiting(cfg, mon).size() > 0,
    nondet i = waiting(cfg, mon).oneOf()
    nondet ok = Set(true, false).oneOf()
    happen({ op: 1, chain: i, adapted: false, others: false,
          ids: if (ok) mon.ids.replaceAt(i, mon.ids[i - 1]).replaceAt(i - 1, mon.ids[i]) else mon.ids })
  }
  action idle = all { complete(cfg, mon), cfg' = cfg, start' = start, mon' = mon, evs' = evs, seen' = seen }
  action step = any { move, exchange, idle }

  // ------------------------------------------------------------ properties
  val accepted: bool = mon.why == "" and judgeRun(cfg, start, evs).why == ""
  // no value is held by two chains
  val distinct: bool = mon.ids.foldl(Set(), (s, x) => s.union(Set(x))).size() == cfg.chains
  val recordsKept: bool = seen == mon.recorded and seen.length() <= cfg.samples
  val recordsComplete: bool = complete(cfg, mon) implies seen.length() == cfg.samples
  // what is recorded was at some time the value of the coolest chain
  val recordsCool: bool = seen.foldl(true, (ok, x) =>
    ok and (x == start[0] or evs.foldl(false, (f, e) => f or e.ids[0] == x)))
  // an event out of place is refused: the last event again, within the same iteration
  val repeatRefused: bool = (evs.length() > 0 and (mon.moved.size() > 0 or mon.offered.size() > 0)) implies
    advance(cfg, mon, evs[evs.length() - 1]).why != ""
  val ladderRight: bool = and {
    ladder(cfg.chains, 0) == ONE,
    cfg.chains > 1 implies near(ladder(cfg.chains, cfg.chains - 1), TOP, 10^12),
  }
  val startInside: bool = cfg.start.length() == 0 or conditions(cfg.post, cfg.start).foldl(true, (ok, c) => ok and c.ok)
  val sane: bool = accepted and distinct and recordsKept and recordsComplete and repeatRefused
  val saneSlow: bool = sane and recordsCool and ladderRight and startInside
}
