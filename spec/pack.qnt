// -*- mode: Bluespec; -*-
//
// Recorded values come as one number per list, which is read much faster than a
// list literal: digits of base 2^192, biased so that they may be negative, the
// lowest one being the length of the list.
module pack {
  pure val DIGIT: int = 2^192
  pure val BIAS: int = 2^191
  pure def unpack(n: int): List[int] =
    range(0, n % DIGIT - BIAS).foldl((n / DIGIT, []), (a, i) =>
      (a._1 / DIGIT, a._2.append(a._1 % DIGIT - BIAS)))._2

  // long lists come in parts
  pure def unpackAll(ns: List[int]): List[int] = ns.foldl([], (a, n) => a.concat(unpack(n)))

  run packTest = all {
    assert(unpack(BIAS) == []),
    assert(unpack(((BIAS + 7) * DIGIT + (BIAS - 3)) * DIGIT + BIAS + 2) == [-3, 7]),
  }
}
