// -*- mode: Bluespec; -*-
//
// State machine of an ensemble of tempered chains under Metropolis moves and
// exchanges.
module chains {
  import fixed.* from "./fixed"
  import accept.* from "./accept"

  type Event = { op: Op, accepted: bool, p: int, before: List[Chain] }

  var chains: List[Chain]
  var dens: List[Ld]
  var ev: Event

  action start(k: int, d: Dice): bool = {
    val cs = range(0, k).foldl([], (a, i) =>
      a.append({ id: i, ld: mkLd(d.get(3 * i), d.get(3 * i + 1)), temp: TEMPS[d.get(3 * i + 2) % TEMPS.length()] }))
    all {
      chains' = cs,
      dens' = range(0, k).foldl([], (a, i) => a.append(cs[i].ld)),
      ev' = { op: noOp, accepted: false, p: 0, before: cs }
    }
  }
  action init = {
    nondet d = 0.to(20).setOfMaps(0.to(999)).oneOf()
    nondet k = oneOf(1.to(5))
    start(k, d)
  }
  action initOne = {
    nondet d = 0.to(20).setOfMaps(0.to(999)).oneOf()
    start(1, d)
  }

  action perform(o: Op): bool = {
    val p = opProb(chains, o)
    nondet accepted = oneOf(if (p == 0) Set(false) else if (p == ONE) Set(true) else Set(true, false))
    all {
      chains' = after(chains, o, dens.length(), accepted),
      // every operation consumes a name, so that names are known in advance
      dens' = dens.append(o.ld),
      ev' = { op: o, accepted: accepted, p: p, before: chains }
    }
  }

  pure val HOWS: List[str] = ["metrop", "ram"]

  action move = {
    nondet d = 0.to(8).setOfMaps(0.to(999)).oneOf()
    nondet i = oneOf(0.to(chains.length() - 1))
    val how = HOWS[d.get(0) % 2]
    val x = d.get(1) % 12
    // mostly comparable with the current density, so that both outcomes occur
    val new = if (x == 0) { kind: "neg", v: 0 } else if (x == 1) { kind: "nan", v: 0 } else if (x == 2) { kind: "pos", v: 0 }
              else if (x < 9) fin(chains[i].ld.v + (d.get(2) * 6 - 4500) * DY * (1 + chains[i].temp / ONE) / 2)
              else mkLd(d.get(2), d.get(3))
    val asym = how == "metrop" and d.get(4) % 2 == 0
    perform({ op: "move", chain: i, how: how, ld: new,
              back: if (asym) (d.get(5) - 500) * DY * 3 else 0,
              forth: if (asym) (d.get(6) - 500) * DY * 3 else 0 })
  }
  action exchange = {
    nondet i = oneOf(1.to(4))
    all {
      i < chains.length(),
      perform({ op: "exchange", chain: i, how: "", ld: fin(0), back: 0, forth: 0 })
    }
  }

  action step = any { move, exchange, exchange }
  action stepMoves = move

  // ------------------------------------------------------- properties
  // C10, C12: every chain holds the log-density of its own value
  val ownDensity: bool = range(0, chains.length()).foldl(true, (ok, i) => ok and dens[chains[i].id] == chains[i].ld)
  // no chain ever reaches a value of non-finite log-density
  val finiteOnly: bool = range(0, chains.length()).foldl(true, (ok, i) => ok and chains[i].ld.kind == "fin")
  // temperatures belong to the places
  val placesKeepTemp: bool = range(0, chains.length()).foldl(true, (ok, i) => ok and chains[i].temp == ev.before[i].temp)
  // an exchange conserves the states, a move concerns one chain
  pure def valuesOf(cs: List[Chain]): Set[int] = range(0, cs.length()).foldl(Set(), (s, i) => s.union(Set(cs[i].id)))
  val exchangeConserves: bool = (ev.op.op == "exchange") implies valuesOf(chains) == valuesOf(ev.before)
  val distinctValues: bool = valuesOf(chains).size() == chains.length()
  val moveIsLocal: bool = (ev.op.op == "move") implies
    range(0, chains.length()).foldl(true, (ok, i) => ok and (i == ev.op.chain or chains[i] == ev.before[i]))
  // the probability of the reverse change satisfies detailed balance:
  // p(x -> y) pi(x) = p(y -> x) pi(y) for the joint tempered density, compared in logarithms
  val balanced: bool = (ev.op.op == "exchange" and finiteOnly) implies {
    val a = ev.before[ev.op.chain]
    val b = ev.before[ev.op.chain - 1]
    val fwd = exchangeProb(a, b)
    val rev = exchangeProb({ ...a, ld: b.ld }, { ...b, ld: a.ld })
    val gap = div(b.ld.v, a.temp) + div(a.ld.v, b.temp) - div(a.ld.v, a.temp) - div(b.ld.v, b.temp)
    if (gap >= 0) fwd == ONE and near(rev, exp(-gap), 10^12) else rev == ONE and near(fwd, exp(gap), 10^12)
  }
  val sane: bool = ownDensity and finiteOnly and placesKeepTemp and exchangeConserves and distinctValues and moveIsLocal and balanced
}
