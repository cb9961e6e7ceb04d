// -*- mode: Bluespec; -*-
//
// Several objects of the compiled module alive in one process: posteriors made by
// hand, posteriors returned by sampler runs, and filters, each on its own data.
// Calls on the objects are interleaved in any way; what an object answers is
// determined by its own making and its own settings alone. Arrays handed in or out
// are copies: writing into them later has no effect.
module pool {
  import fixed.* from "./fixed"
  import carma.* from "./carma"
  import gauss.* from "./gauss"
  import gen.* from "./gen"
  import posterior.* from "./posterior"
  import fit.* from "./fit"
  import tempered.* from "./tempered"

  // cls: post, run or filter; the data, order and units are those of post. A filter has
  // the parameters decoded from theta, and the values as they are.
  type Thing = { cls: str, post: Post, theta: Theta, serial: int }
  type Event = {
    op: str,            // make, run, density, prior, mle, filter, predict, simulate, scribble, drop
    slot: int,
    thing: Thing,       // the object concerned
    theta: Theta,       // vector handed over; of a run, the starting vector
    given: int,         // optional arguments given: 0, 1, ...
    nums: List[int],    // run: samples, burn-in, thinning, chains
    inside: bool, margin: int, lp: int, lik: Lik,
    roots: List[Cx], ma: List[int], sigsqr: int, r0: int,
    req: List[int], reply: Reply
  }

  pure val SLOTS: int = 4
  pure val noLik: Lik = { ll: 0, vmin: 0, chi2: 0, r0: 0 }
  pure val none: Thing = { cls: "", post: noPost, theta: [], serial: 0 }

  var pool: List[Thing]
  var made: int
  var ev: Event
  // objects before the last call
  var before: List[Thing]

  pure def call(op: str, slot: int, x: Thing): Event =
    { op: op, slot: slot, thing: x, theta: [], given: 0, nums: [], inside: false, margin: 0, lp: 0, lik: noLik,
      roots: [], ma: [], sigsqr: 0, r0: 0, req: [], reply: noReply }

  pure def modelled(e: Event, m: Model): Event = { ...e, roots: m.roots, ma: m.ma, sigsqr: m.sigsqr, r0: variance(m) }
  pure def chosenOf(x: Thing): Chosen = { mu: 0, model: modelOfTheta(x.post, x.theta) }

  // ------------------------------------------------------------- case makers
  pure val ND: int = 85
  pure val PYKINDS: List[str] = ["car1", "car", "carma", "carma"]
  // A new object often has something in common with an old one: 1 the order, 2 the measurements,
  // 3 both, 4 the measurement times, 5 the order and the parameters, 6 the order and the autoregressive parameters.
  // dice 0..6 order, units and number of rows; 13 what is common; 40.. rows
  pure def mkPython(d: Dice, old: Thing): Post = {
    val like = if (old.cls == "") 0 else d.get(13) % 8
    val ordered = like == 1 or like == 3 or like == 5 or like == 6
    val kind = if (ordered and old.post.kind != "zcar") old.post.kind else PYKINDS[d.get(0) % 4]
    val p = if (kind == "car1") 1 else if (ordered and old.post.p > 1) old.post.p else 2 + d.get(1) % 5
    val q = if (kind != "carma") 0 else if (ordered and old.post.q > 0) old.post.q else 1 + d.get(2) % (p - 1)
    val own = mkRows(3 + d.get(4) % 7, d, 40)
    val n = imin(own.length(), old.post.rows.length())
    val rows = if (like == 2 or like == 3) old.post.rows
      else if (like == 4) range(0, n).foldl([], (l, i) => l.append({ ...own[i], t: old.post.rows[i].t }))
      else own
    { ...newPost(kind, p, q, rows, [1, 1, 3, 100][d.get(3) % 4] * ONE),
      units: if (like == 0) mkUnits(d.get(5), d.get(6)) else old.post.units }
  }

  pure def thetaLength(o: Post): int = if (o.kind == "car1") 4 else 3 + o.p + o.q

  action place(x: Thing, i: int, e: Event): bool = all {
    pool' = pool.replaceAt(i, x), made' = made + 1, ev' = e, before' = pool
  }
  action keep(e: Event): bool = all { pool' = pool, made' = made, ev' = e, before' = pool }

  action init = all {
    pool' = [none, none, none, none], made' = 0, before' = [none, none, none, none], ev' = call("start", 0, none)
  }

  // a new object with dice d, akin to old
  pure def newThing(d: Dice, old: Thing, serial: int): Thing = {
    val o = mkPython(d, old)
    val like = if (old.theta.length() == thetaLength(o) and old.post.kind == o.kind) d.get(13) % 8 else 0
    val new = insideTheta(o, d, 7)
    { cls: if (d.get(14) % 3 == 0) "post" else "filter", post: o, serial: serial,
      theta: if (like == 5) old.theta
        else if (like == 6) old.theta.slice(0, 3 + o.p).concat(new.slice(3 + o.p, new.length()))
        else new }
  }
  pure def making(i: int, x: Thing, given: int): Event =
    modelled({ ...call("make", i, x), given: given }, modelOfTheta(x.post, x.theta))

  // a new object takes the place of an old one
  action make = {
    nondet i = oneOf(0.to(SLOTS - 1))
    nondet d = 0.to(ND).setOfMaps(0.to(999)).oneOf()
    nondet k = oneOf(0.to(SLOTS))
    // akin to the object replaced, or to any object, or to that of the last call
    val x = newThing(d, if (d.get(15) % 2 == 0) pool[i] else if (k == SLOTS) ev.thing else pool[k], made + 1)
    place(x, i, making(i, x, d.get(3) % 2))
  }

  // the object of the last call is made anew, with its data or parameters or both
  action renew = {
    nondet d = 0.to(ND).setOfMaps(0.to(999)).oneOf()
    nondet like = oneOf(Set(2, 3, 5, 6))
    all {
      Set("density", "filter", "predict", "simulate").contains(ev.op),
      {
        val x = { ...newThing(d.put(13, like), ev.thing, made + 1), cls: if (ev.thing.cls == "filter") "filter" else "post" }
        place(x, ev.slot, making(ev.slot, x, d.get(3) % 2))
      }
    }
  }

  // a short sampler run; optional arguments are given from the left or not at all
  action launch = {
    nondet i = oneOf(0.to(SLOTS - 1))
    nondet d = 0.to(ND).setOfMaps(0.to(999)).oneOf()
    nondet k = oneOf(0.to(SLOTS - 1))
    val o1 = { ...mkPython(d, pool[k]), units: { t: 0, f: 0 } }
    // the constrained model is asked for by the first optional argument
    val given = d.get(7) % (if (o1.kind == "car1") 3 else 4)
    val z = o1.kind == "car" and given > 0 and d.get(8) % 2 == 0
    val o2 = if (z) newPost("zcar", o1.p, 0, o1.rows, ONE) else o1
    val o = { ...o2, maxsd: runMaxSd(o2.rows), temp: ONE }
    val x = { cls: "run", post: o, theta: [], serial: made + 1 }
    val thin = if (given >= (if (o.kind == "car1") 1 else 2)) 1 + d.get(9) % 3 else 1
    place(x, i, { ...call("run", i, x), given: given, nums: [1 + d.get(10) % 5, d.get(11) % 20, thin, 1 + d.get(12) % 4],
                theta: if (given == (if (o.kind == "car1") 2 else 3)) insideTheta(o, d, 14) else [] })
  }

  pure def isPost(x: Thing): bool = x.cls == "post" or x.cls == "run"

  action density = {
    nondet i = oneOf(0.to(SLOTS - 1).filter(k => isPost(pool[k])))
    nondet d = 0.to(ND).setOfMaps(0.to(999)).oneOf()
    nondet only = oneOf(Set("density", "density", "prior"))
    all {
      isPost(pool[i]),
      {
        val o = pool[i].post
        // one vector in four is outside the support: the deviation is too large
        // one in three is that of the call before, if it fits
        val th1 = if (d.get(4) % 3 == 0 and Set("density", "prior").contains(ev.op) and ev.theta.length() == thetaLength(o)
                      and ev.thing.post.units == o.units) ev.theta
                  else insideTheta(o, d, 7)
        val th = if (d.get(3) % 4 == 0) th1.replaceAt(0, dyadic(2 * o.maxsd)) else th1
        val cs = conditions(o, th)
        val inside = cs.foldl(true, (a, c) => a and c.ok)
        val e = { ...call(only, i, pool[i]), theta: th, inside: inside, margin: cs.foldl(ONE, (a, c) => imin(a, c.margin)),
                  lp: logPrior(o, th), lik: if (inside and only == "density") likelihood(o, th) else noLik }
        keep(modelled(e, modelOfTheta(o, th)))
      }
    }
  }

  action mode = {
    nondet i = oneOf(0.to(SLOTS - 1).filter(k => isPost(pool[k])))
    all {
      isPost(pool[i]), pool[i].post.kind != "car1",
      {
        val x = { ...pool[i], post: { ...pool[i].post, mle: not(pool[i].post.mle) } }
        all { pool' = pool.replaceAt(i, x), made' = made, ev' = call("mle", i, x), before' = pool }
      }
    }
  }

  pure def askTime(rows: List[Row], cls: int, x: int): int = {
    val n = rows.length()
    if (cls == 0) rows[0].t - (1 + x * 3) * DY
    else if (cls == 1) rows[n - 1].t + (1 + x * 3) * DY
    else if (cls == 2) rows[x % n].t
    else {
      val j = x % (n - 1)
      rows[j].t + ((((rows[j + 1].t - rows[j].t) / DY) * (1 + x % 998)) / 1000) * DY
    }
  }

  action query = {
    nondet j = oneOf(0.to(SLOTS - 1).filter(k => pool[k].cls == "filter"))
    nondet again = oneOf(0.to(2))
    val i = if (again > 0 and pool[ev.slot].cls == "filter") ev.slot else j
    nondet d = 0.to(8).setOfMaps(0.to(999)).oneOf()
    nondet what = oneOf(Set("filter", "predict", "simulate"))
    all {
      pool[i].cls == "filter",
      {
        val x = pool[i]
        val c = chosenOf(x)
        val ts = range(0, 1 + d.get(0) % 4).foldl([], (a, k) => {
          val t = askTime(x.post.rows, d.get(1 + k) % 5, d.get(5 + k % 3) + 100 * k)
          if (a.select(y => y == t).length() > 0) a else a.append(t)
        })
        val inn = innovations(acvfTerms(c.model), centredPoints(x.post.rows, 0))
        val e = if (what == "filter")
            { ...call(what, i, x), reply: { ...noReply, mean: inn.foldl([], (l, y) => l.append(y.m)),
                                            vars: inn.foldl([], (l, y) => l.append(y.v)), vmin: smallestVar(inn) } }
          else if (what == "predict") { ...call(what, i, x), req: ts, reply: predictReply(c, x.post.rows, ts) }
          else { ...call(what, i, x), req: ts, reply: jointReply(c, x.post.rows, ts) }
        keep(modelled(e, c.model))
      }
    }
  }

  // the caller writes into every array that was handed to the object or came from it
  action scribble = {
    nondet i = oneOf(0.to(SLOTS - 1).filter(k => pool[k].cls != ""))
    all { pool[i].cls != "", keep(call("scribble", i, pool[i])) }
  }
  action drop = {
    nondet i = oneOf(0.to(SLOTS - 1).filter(k => pool[k].cls != ""))
    all { pool[i].cls != "", pool' = pool.replaceAt(i, none), made' = made, before' = pool, ev' = call("drop", i, pool[i]) }
  }

  action step = any {
    make, make, renew, renew, launch, density, density, density, density, density, mode,
    query, query, query, query, query, query, scribble, drop
  }

  // ------------------------------------------------------------ properties
  // a call concerns one object
  val othersUntouched: bool = range(0, SLOTS).foldl(true, (ok, i) => ok and (i == ev.slot or pool[i] == before[i]))
  // reading changes nothing
  val readsPure: bool = (Set("density", "prior", "filter", "predict", "simulate", "scribble").contains(ev.op)) implies pool == before
  val serialsDiffer: bool = range(0, SLOTS).foldl(true, (ok, i) => range(0, i).foldl(ok, (ok2, j) =>
    ok2 and (pool[i].cls == "" or pool[i].serial != pool[j].serial)))
  // data never make a prediction less certain
  val predictionsShrink: bool = (ev.op == "predict") implies
    ev.reply.vars.foldl(true, (ok, v) => ok and v <= ev.r0 + mul(ev.r0, ONE / 10^9) + 10)
  val poolSane: bool = othersUntouched and readsPure and serialsDiffer and predictionsShrink
}
