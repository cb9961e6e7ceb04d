// -*- mode: Bluespec; -*-
//
// The random number generator as seen by its users: a state that is determined
// by the seed and the draws made since, that can be saved to and recovered from
// a file. What a draw returns is a function of that state and of the draw.
module stream {
  // seed followed by the draws made since
  type Gen = List[int]
  type Draw = { state: Gen, kind: int }

  var now: Gen
  var files: int -> Gen
  var draws: List[Draw]          // everything drawn so far
  var ev: { op: str, arg: int }

  pure val KINDS: int = 17       // 0..11 variates, 12..14 starting values, 15 simulation, 16 sampler run
  pure val SEEDS: Set[int] = Set(2, 3, 77, 123456)

  action init = all { now' = [2], files' = Map(), draws' = [], ev' = { op: "seed", arg: 2 } }

  action seed = {
    nondet s = SEEDS.oneOf()
    all { now' = [s], files' = files, draws' = draws, ev' = { op: "seed", arg: s } }
  }
  action draw = {
    nondet k = 0.to(KINDS - 1).oneOf()
    all { now' = now.append(k), files' = files, draws' = draws.append({ state: now, kind: k }), ev' = { op: "draw", arg: k } }
  }
  action save = {
    nondet f = 0.to(1).oneOf()
    all { now' = now, files' = files.put(f, now), draws' = draws, ev' = { op: "save", arg: f } }
  }
  action recover = all {
    files.keys().size() > 0,
    nondet f = files.keys().oneOf()
    all { now' = files.get(f), files' = files, draws' = draws, ev' = { op: "recover", arg: f } }
  }
  // the same draws again after reseeding, as in a repeated run
  action again = all {
    draws.length() > 0,
    val d = draws[draws.length() - 1]
    all { now' = [d.state[0]], files' = files, draws' = draws, ev' = { op: "seed", arg: d.state[0] } }
  }

  action step = any { seed, draw, draw, draw, draw, save, recover, again }
  // few kinds of draws, so that equal states are met again
  action drawFew = {
    nondet k = Set(1, 12, 16).oneOf()
    all { now' = now.append(k), files' = files, draws' = draws.append({ state: now, kind: k }), ev' = { op: "draw", arg: k } }
  }
  action stepFew = any { seed, drawFew, drawFew, drawFew, drawFew, save, recover, again }

  val seeded: bool = now.length() > 0 and SEEDS.contains(now[0])
  val filesAreStates: bool = files.keys().forall(f => files.get(f).length() > 0)
  val sane: bool = seeded and filesAreStates
}
