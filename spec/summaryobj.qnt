// -*- mode: Bluespec; -*-
//
// State machine of a container of samples read from files: a dictionary from
// names to tables, and the reports made from it. A file whose name is already
// taken changes nothing; a report about a name that is not there is empty.
module summaryobj {
  import fixed.* from "./fixed"
  import gen.* from "./gen"
  import summary.* from "./summary"

  type Cols = List[List[int]]        // one list per element
  type Event = {
    op: str,                         // load, read, summary, effective, trace, autocorr, parameter, pdf1, pdf2, kde
    name: str, other: str, i: int, j: int, nb: int,
    table: Cols,                     // load: content of the file
    cols: List[Column],              // the elements reported on
    names: Set[str],                 // names in the dictionary afterwards
    known: bool, kde: Kde
  }

  var store: str -> Cols
  var units: str -> int              // values are multiplied by 2^unit
  var ev: Event

  pure val NAMES: List[str] = ["theta", "sigma", "log_omega", "mu"]
  pure val SCALES: List[int] = [0, 0, 0, -40, -14, 12, 30]
  pure val noKde: Kde = { levels: [], margins: [], rho: 0 }
  pure val noEvent: Event = { op: "init", name: "", other: "", i: 0, j: 0, nb: 0, table: [], cols: [], names: Set(), known: true, kde: noKde }

  // dice: 0 rows, 1 elements, 2 style, 3.. values
  pure def mkColumn(d: Dice, n: int, k: int): List[int] = {
    val style = (d.get(2) + k) % 5
    range(0, n).foldl([], (acc, r) => {
      val x = d.get(3 + k * 40 + r)
      acc.append(
        if (style == 0) (x % 4) * DY * 512                  // many ties
        else if (style == 1) (x * x - 300000) * DY          // skewed, both signs
        else if (style == 2) (1000000 + x) * DY             // far from zero
        else if (style == 3 and r > 0 and x % 3 > 0) acc[r - 1]   // a chain that often stays
        else (x * 7 - 3000) * DY)
    })
  }
  pure def mkCols(d: Dice): Cols = {
    val n = 4 + d.get(0) % 33
    range(0, 1 + d.get(1) % 3).foldl([], (acc, k) => acc.append(mkColumn(d, n, k)))
  }

  action init = all { store' = Map(), units' = Map(), ev' = noEvent }

  action note(e: Event): bool = all { store' = store, units' = units, ev' = { ...e, names: store.keys() } }

  action load = {
    nondet d = 0.to(122).setOfMaps(0.to(999)).oneOf()
    nondet i = oneOf(0.to(3))
    nondet u = oneOf(0.to(6))
    val name = NAMES[i]
    val c = mkCols(d)
    if (store.keys().contains(name))
      all { store' = store, units' = units,
            ev' = { ...noEvent, op: "load", name: name, table: c, names: store.keys(), known: false } }
    else
      all { store' = store.put(name, c), units' = units.put(name, SCALES[u]),
            ev' = { ...noEvent, op: "load", name: name, table: c, names: store.keys().union(Set(name)) } }
  }

  pure val REPORTS: List[str] = ["read", "summary", "effective", "trace", "autocorr", "parameter", "pdf1"]
  action report = {
    nondet k = oneOf(0.to(6))
    nondet i = oneOf(0.to(3))
    nondet j = oneOf(0.to(2))
    val name = NAMES[i]
    if (store.keys().contains(name)) {
      val cs = store.get(name)
      note({ ...noEvent, op: REPORTS[k], name: name, i: j % cs.length(), cols: cs.foldl([], (acc, xs) => acc.append(summaryOf(xs))) })
    } else {
      // a summary or a copy of nothing is an error of the caller
      note({ ...noEvent, op: if (k < 2) "effective" else REPORTS[k], name: name, known: false })
    }
  }

  action reportKnown = {
    nondet k = oneOf(0.to(6))
    nondet name = store.keys().oneOf()
    nondet j = oneOf(0.to(2))
    val cs = store.get(name)
    note({ ...noEvent, op: REPORTS[k], name: name, i: j % cs.length(), cols: cs.foldl([], (acc, xs) => acc.append(summaryOf(xs))) })
  }

  // two parameters against each other; elements beyond the last are refused
  action pairs = {
    nondet a = oneOf(0.to(3))
    nondet b = oneOf(0.to(3))
    nondet i = oneOf(0.to(3))
    nondet j = oneOf(0.to(3))
    nondet k = oneOf(0.to(1))
    val n1 = NAMES[a]
    val n2 = NAMES[b]
    val op = if (k == 0) "pdf2" else "kde"
    if (store.keys().contains(n1) and store.keys().contains(n2) and i < store.get(n1).length() and j < store.get(n2).length()
        and store.get(n1)[0].length() == store.get(n2)[0].length()) {
      val x = store.get(n1)[i]
      val y = store.get(n2)[j]
      note({ ...noEvent, op: op, name: n1, other: n2, i: i, j: j, nb: 20, cols: [summaryOf(x), summaryOf(y)],
             kde: if (op == "kde" and (n1 != n2 or i != j) and spread(x) > 0 and spread(y) > 0) kdeOf(x, y, 20) else noKde })
    } else if (store.keys().contains(n1) and store.keys().contains(n2) and i < store.get(n1).length() and j < store.get(n2).length())
      note({ ...noEvent, op: "skip" })
    else note({ ...noEvent, op: op, name: n1, other: n2, i: i, j: j, nb: 20, known: false })
  }

  action step = any { load, report, reportKnown, reportKnown, reportKnown, pairs }

  // two equally long parameters, then one pair plot; for kernel densities
  action stepPair = {
    nondet d = 0.to(122).setOfMaps(0.to(999)).oneOf()
    nondet u = oneOf(0.to(6))
    nondet k = oneOf(0.to(3))
    val n = 6 + d.get(0) % 15
    val a = [mkColumn(d, n, 0), mkColumn(d, n, 1)]
    val b = [mkColumn({ d.put(2, d.get(2) + 2) }, n, 2)]
    val x = if (k % 2 == 0) a[1] else a[0]
    val y = if (k < 2) b[0] else a[if (k % 2 == 0) 0 else 1]
    all {
      store' = Map("theta" -> a, "mu" -> b), units' = Map("theta" -> SCALES[u], "mu" -> SCALES[(u + d.get(1)) % 7]),
      ev' = { ...noEvent, op: "kde", name: "theta", other: if (k < 2) "mu" else "theta", i: if (k % 2 == 0) 1 else 0,
              j: if (k < 2) 0 else if (k % 2 == 0) 0 else 1, nb: 20, cols: [summaryOf(x), summaryOf(y)], names: Set("theta", "mu"),
              kde: if (spread(x) > 0 and spread(y) > 0) kdeOf(x, y, 20) else noKde }
    }
  }

  // -------------------------------------------------- properties of the model
  val nested: bool = ev.cols.foldl(true, (ok, c) => ok and and {
    c.ends[4] <= c.ends[2], c.ends[2] <= c.ends[0], c.ends[0] <= c.med,
    c.med <= c.ends[1], c.ends[1] <= c.ends[3], c.ends[3] <= c.ends[5] })
  val counted: bool = ev.cols.foldl(true, (ok, c) => ok and c.bins.foldl(true, (a, b) => a and sumL(b) == c.xs.length()))
  val correlated: bool = ev.cols.foldl(true, (ok, c) => ok and c.acf.foldl(true, (a, r) => a and iabs(r) <= ONE + EPS))
  val levelsOrdered: bool = ev.kde.levels == [] or (ev.kde.levels[0] <= ev.kde.levels[1] and ev.kde.levels[1] <= ev.kde.levels[2])
  val reportsSane: bool = nested and counted and correlated and levelsOrdered
}
