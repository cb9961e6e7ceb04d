// -*- mode: Bluespec; -*-
//
// The dialogue that asks for the options of a run.
//
// Every question is repeated until it gets a valid answer. File answers are
// names of the scratch directory, whose contents are part of the state.
module prompt {
  type Answer = { q: int, text: str, num: int, valid: bool }

  // questions: 0 data file, 1 output file, 2 sample size, 3 thinning, 4 burn-in, 5 seed
  var at: int
  var given: List[Answer]
  var chosen: List[Answer]
  var seedfile: bool            // a saved generator state is present
  var generator: str            // what the generator is seeded from: none, number, file, time

  pure val PRESENT: Set[str] = Set("data.txt", "sub/series.dat", "x")
  pure val ABSENT: Set[str] = Set("missing.txt", "data.tx", "nodir/data.txt", "sub/none")
  pure val WRITABLE: Set[str] = Set("out.txt", "sub/chain.dat", "existing.out")
  pure val UNWRITABLE: Set[str] = Set("nodir/out.txt", "sub", "nodir/deeper/o")

  // smallest valid number of the numerical questions
  pure def least(q: int): int = if (q == 4) 0 else 1

  action init = all {
    at' = 0, given' = [], chosen' = [], generator' = "none",
    nondet s = Set(true, false).oneOf()
    seedfile' = s
  }

  action answer(a: Answer): bool = all {
    at == a.q,
    given' = given.append(a),
    chosen' = if (a.valid) chosen.append(a) else chosen,
    at' = if (a.valid) at + 1 else at,
    seedfile' = seedfile,
    generator' = if (a.q < 5) generator
                 else if (a.num > 1) "number" else if (a.num == 1 and seedfile) "file" else "time"
  }

  action fileQuestion = {
    nondet ok = Set(true, false, true).oneOf()
    nondet good = (if (at == 0) PRESENT else WRITABLE).oneOf()
    nondet bad = (if (at == 0) ABSENT else UNWRITABLE).oneOf()
    all { at < 2, answer({ q: at, text: if (ok) good else bad, num: 0, valid: ok }) }
  }
  action numberQuestion = {
    nondet n = Set(-100, -1, 0, 1, 2, 7, 1000, 2147483647).oneOf()
    all { at > 1, at < 5, answer({ q: at, text: "", num: n, valid: n >= least(at) }) }
  }
  action seedQuestion = {
    nondet n = Set(0, 1, 2, 5, 999, 123456789).oneOf()
    all { at == 5, answer({ q: 5, text: "", num: n, valid: true }) }
  }
  action finished = all {
    at == 6, at' = at, given' = given, chosen' = chosen, seedfile' = seedfile, generator' = generator
  }
  action step = any { fileQuestion, numberQuestion, seedQuestion, finished }

  // ------------------------------------------------------------ properties
  val orderly: bool = chosen.length() == at and
    range(0, chosen.length()).foldl(true, (ok, i) => ok and chosen[i].q == i and chosen[i].valid)
  val firstValid: bool = range(0, given.length()).foldl(true, (ok, i) => ok and
    (given[i].valid implies range(0, i).foldl(true, (o, k) => o and not(given[k].q == given[i].q and given[k].valid))))
  val rangeRight: bool = range(0, chosen.length()).foldl(true, (ok, i) => ok and
    ((chosen[i].q == 2 or chosen[i].q == 3) implies chosen[i].num >= 1) and (chosen[i].q == 4 implies chosen[i].num >= 0))
  val seededAtEnd: bool = (at == 6) == (generator != "none")
  val sane: bool = orderly and firstValid and rangeRight and seededAtEnd
}
