// -*- mode: Bluespec; -*-
//
// Metropolis moves and exchanges of tempered chains.
//
// The value of a chain is an opaque name; `dens` gives the log-density of every
// value named so far. A move proposes a fresh value, an exchange swaps the
// states of two neighbouring chains. Both are accepted with a probability that
// depends on the log-densities, the temperatures and the proposal densities.
module accept {
  import fixed.* from "./fixed"

  // a log-density: kind is "fin", "neg" (minus infinity), "pos" or "nan"
  type Ld = { kind: str, v: int }
  type Chain = { id: int, ld: Ld, temp: int }
  // back = log q(old | new), forth = log q(new | old)
  type Op = { op: str, chain: int, how: str, ld: Ld, back: int, forth: int }

  pure def fin(x: int): Ld = { kind: "fin", v: x }

  // probability of a change whose log-ratio is r
  pure def prob(r: int): int = if (r >= 0) ONE else exp(r)

  pure def moveProb(cur: Ld, new: Ld, temp: int, correction: int): int =
    if (cur.kind != "fin" or new.kind != "fin") 0
    else prob(div(new.v - cur.v, temp) + correction)

  // detailed balance for the pair of tempered densities
  pure def exchangeProb(hot: Chain, cold: Chain): int =
    if (hot.ld.kind != "fin" or cold.ld.kind != "fin") 0
    else prob(mul(div(ONE, hot.temp) - div(ONE, cold.temp), cold.ld.v - hot.ld.v))

  pure def opProb(cs: List[Chain], o: Op): int =
    if (o.op == "exchange") exchangeProb(cs[o.chain], cs[o.chain - 1])
    else moveProb(cs[o.chain].ld, o.ld, cs[o.chain].temp, o.back - o.forth)

  pure def after(cs: List[Chain], o: Op, fresh: int, accepted: bool): List[Chain] =
    if (not(accepted)) cs
    else if (o.op == "exchange") {
      val a = cs[o.chain]
      val b = cs[o.chain - 1]
      cs.replaceAt(o.chain, { ...a, id: b.id, ld: b.ld }).replaceAt(o.chain - 1, { ...b, id: a.id, ld: a.ld })
    }
    else cs.replaceAt(o.chain, { ...cs[o.chain], id: fresh, ld: o.ld })

  // Is `post` a state that the operation can lead to?
  pure def permits(cs: List[Chain], o: Op, fresh: int, post: List[Chain]): bool = {
    val p = opProb(cs, o)
    or {
      and { p > 0, post == after(cs, o, fresh, true) },
      and { p < ONE, post == cs },
    }
  }

  // A recorded run: the first operation whose result is not permitted, or -1
  pure def firstRejected(start: List[Chain], ops: List[Op], posts: List[List[Chain]]): int =
    range(0, ops.length()).foldl((start, -1), (acc, i) =>
      (posts[i], if (acc._2 >= 0 or permits(acc._1, ops[i], start.length() + i, posts[i])) acc._2 else i))._2

  pure val DY: int = ONE / 1024
  pure val noOp: Op = { op: "start", chain: 0, how: "", ld: fin(0), back: 0, forth: 0 }
  pure val TEMPS: List[int] = [ONE, ONE, ONE, 2 * ONE, 3 * ONE / 2, 8 * ONE, 100 * ONE, ONE / 2]
  pure val SPREAD: List[int] = [1, 1, 4, 20, 300]
  type Dice = int -> int

  pure def mkLd(x: int, y: int): Ld = fin((x - 500) * SPREAD[y % 5] * DY * 4)

  // ------------------------------------------------- recorded runs, as numbers
  pure val LDKINDS: List[str] = ["fin", "neg", "pos", "nan"]
  pure def ldAt(x: List[int], i: int): Ld = { kind: LDKINDS[x[i]], v: x[i + 1] }

  // temperature, correction, current and proposed log-density
  pure def moveProbOf(x: List[int]): int = moveProb(ldAt(x, 2), ldAt(x, 4), x[0], x[1])
  // hot and cold temperature, hot and cold log-density
  pure def exchangeProbOf(x: List[int]): int =
    exchangeProb({ id: 0, temp: x[0], ld: ldAt(x, 2) }, { id: 1, temp: x[1], ld: ldAt(x, 4) })

  // K, n, repetitions; K x (temperature, log-density); n x (exchange?, chain, back, forth, log-density);
  // repetitions x n x K x (name, log-density)
  pure def rejectedOf(x: List[int]): List[int] = {
    val k = x[0]
    val n = x[1]
    val opsAt = 3 + 3 * k
    val postsAt = opsAt + 6 * n
    val start = range(0, k).foldl([], (a, i) => a.append({ id: i, temp: x[3 + 3 * i], ld: ldAt(x, 4 + 3 * i) }))
    val ops = range(0, n).foldl([], (a, i) => {
      val o = opsAt + 6 * i
      a.append({ op: if (x[o] == 1) "exchange" else "move", chain: x[o + 1], how: "", back: x[o + 2], forth: x[o + 3], ld: ldAt(x, o + 4) })
    })
    range(0, x[2]).foldl([], (out, r) => out.append(firstRejected(start, ops, range(0, n).foldl([], (a, i) =>
      a.append(range(0, k).foldl([], (b, c) => {
        val o = postsAt + 3 * ((r * n + i) * k + c)
        b.append({ id: x[o], temp: start[c].temp, ld: ldAt(x, o + 1) })
      }))))))
  }
}
