// -*- mode: Bluespec; -*-
//
// What a measured series means when its rows come in any order and times are
// repeated. The rows given are a multiset; the series used has the distinct
// times in increasing order, each with one complete row given for that time.
// Where rows of equal time disagree several answers are right, listed in `alts`.
module ingest {
  import fixed.* from "./fixed"
  import carma.* from "./carma"
  import gauss.* from "./gauss"
  import gen.* from "./gen"
  import posterior.* from "./posterior"

  // -------------------------------------------------------------- definition
  pure def times(rows: List[Row]): List[int] =
    rows.foldl([], (acc, r) => if (acc.select(t => t == r.t).length() > 0) acc else insert(acc, r.t))

  // all series a list of rows stands for
  pure def series(shown: List[Row]): List[List[Row]] =
    times(shown).foldl([[]], (alts, t) => {
      val cands = shown.select(r => r.t == t)
      // identical rows are one candidate
      val uniq = cands.foldl([], (acc, r) => if (acc.select(x => x == r).length() > 0) acc else acc.append(r))
      alts.foldl([], (acc, s) => uniq.foldl(acc, (acc2, r) => acc2.append(s.append(r))))
    })

  // ------------------------------------------------------------- case makers
  // swap entries i and j
  pure def swap(xs: List[Row], i: int, j: int): List[Row] = xs.replaceAt(i, xs[j]).replaceAt(j, xs[i])

  // how: 0 sorted, 1 reversed, 2 one late row, otherwise shuffled by dice from off
  pure def arrange(xs: List[Row], how: int, d: Dice, off: int): List[Row] = {
    val n = xs.length()
    if (how == 0) xs
    else if (how == 1) range(0, n).foldl([], (acc, i) => acc.append(xs[n - 1 - i]))
    else if (how == 2) {
      val k = d.get(off) % n
      xs.slice(0, k).concat(xs.slice(k + 1, n)).append(xs[k])
    }
    else range(0, n).foldl(xs, (acc, i) => swap(acc, i, i + d.get(off + i) % (n - i)))
  }

  // repeat some rows: same = identical copies, otherwise copies with another value and error
  pure def repeatRows(rows: List[Row], k: int, same: bool, d: Dice, off: int): List[Row] =
    range(0, k).foldl(rows, (acc, i) => {
      val r = rows[d.get(off + i) % rows.length()]
      acc.append(if (same) r else { t: r.t, y: r.y + (1000 + 3 * i) * DY, e: r.e + (300 + i) * DY })
    })

  // ------------------------------------------------------------------- events
  type Alt = { rows: List[Row], mean: List[int], vars: List[int], pmean: List[int], pvars: List[int], vmin: int,
               r0: int, maxsd: int, ld: int, tests: List[(int, bool, int)] }
  type Event = { op: str, kind: str, how: int, shown: List[Row], quad: List[int], roots: List[Cx], ma: List[int],
                 sigsqr: int, req: List[int], theta: Theta, alts: List[Alt], units: Units }

  var iev: Event

  pure def pointsOf(rows: List[Row]): List[Point] =
    rows.foldl([], (acc, r) => acc.append({ t: r.t, evar: mul(r.e, r.e), y: r.y }))

  // the answers of a filter on one of the series
  pure def filterAlt(m: Model, rows: List[Row], req: List[int]): Alt = {
    val terms = acvfTerms(m)
    val st = conditionAll(terms, pointsOf(rows))
    val ps = req.foldl([], (acc, t) => acc.append(lawAt(terms, st, t)))
    { rows: rows, mean: st.out.foldl([], (a, x) => a.append(x.m)), vars: st.out.foldl([], (a, x) => a.append(x.v)),
      pmean: ps.foldl([], (a, x) => a.append(x.m)), pvars: ps.foldl([], (a, x) => a.append(x.v)),
      vmin: st.out.concat(ps).foldl(10^6 * ONE, (a, x) => if (x.v > TINY) imin(a, x.v) else a),
      r0: acvf0(terms), maxsd: 0, ld: 0, tests: [] }
  }

  // omega slightly inside and outside of both frequency bounds, deviation inside and outside of its bound
  pure def boundTests(o: Post): List[(int, bool, int)] =
    [(mul(maxFreq(o.rows), frac(999, 1000)), true, 0), (mul(maxFreq(o.rows), frac(1001, 1000)), false, 0),
     (mul(minFreq(o.rows), frac(1001, 1000)), true, 0), (mul(minFreq(o.rows), frac(999, 1000)), false, 0),
     (0, true, mul(o.maxsd, frac(999, 1000))), (0, false, mul(o.maxsd, frac(1001, 1000)))]

  pure def postAlt(kind: str, p: int, q: int, rows: List[Row], th: Theta): Alt = {
    val o = newPost(kind, p, q, rows, ONE)
    val l = likelihood(o, th)
    { rows: rows, mean: [], vars: [], pmean: [], pvars: [], vmin: l.vmin, r0: l.r0, maxsd: o.maxsd,
      ld: l.ll + logPrior(o, th), tests: if (kind == "car1") boundTests(o) else [] }
  }

  pure val ND: int = 110

  pure def mkShown(d: Dice): List[Row] = {
    val rows = mkRows(4 + d.get(80) % 4, d, 40)
    val ndup = [0, 0, 1, 2, 3][d.get(81) % 5]
    val same = d.get(82) % 2 == 0
    arrange(repeatRows(rows, if (same) ndup else imin(ndup, 2), same, d, 83), d.get(87) % 5, d, 88)
  }

  pure def filterEvent(d: Dice): Event = {
    val shown = mkShown(d)
    val rows = mkRows(4 + d.get(80) % 4, d, 40)
    val n = rows.length()
    val base = mkBase(d.get(2))
    val kf1 = d.get(0) % 3 == 0
    val p = if (kf1) 1 else 2 + d.get(0) % 4
    val quad = if (kf1) [rdiv(base * (1 + d.get(1) % 40), 20)] else mkQuads(p, d.get(1) % (p / 2 + 1), base, d, 6)
    val ma = if (kf1) [ONE] else mkMA(d.get(4) % p, base, d, 16)
    val sd = sqrt(frac(3 + d.get(3) % 10, 3))
    val m = if (kf1) car1Model(quad[0], 2 * mul(mul(sd, sd), quad[0])) else modelWithSd(quad, ma, sd)
    val req = [rows[0].t - (1 + d.get(24)) * DY, rows[n - 1].t + (1 + d.get(25)) * DY, rows[1].t + DY / 2]
    { op: "filter", kind: if (kf1) "kf1" else "kfp", how: d.get(87) % 5, shown: shown, quad: quad, roots: m.roots, ma: ma,
      sigsqr: m.sigsqr, req: req, theta: [], units: mkUnits(d.get(3) / 13, d.get(5) / 9),
      alts: series(shown).foldl([], (acc, s) => acc.append(filterAlt(m, s, req))) }
  }

  pure def postEvent(d: Dice): Event = {
    val shown = mkShown(d)
    val rows = mkRows(4 + d.get(80) % 4, d, 40)
    val o = mkPost(d, 0, rows)
    // a deviation inside the bound of every series
    val sd = series(shown).foldl(ONE, (acc, s) => imin(acc, defaultMaxSd(s) / 2))
    val th = insideTheta(o, d, 5).replaceAt(0, sd)
    val m = modelOfTheta(o, th)
    { op: "post", kind: o.kind, how: d.get(87) % 5, shown: shown, quad: [o.p, o.q], roots: m.roots, ma: m.ma,
      sigsqr: m.sigsqr, req: [], theta: th, units: mkUnits(d.get(3) / 13, d.get(5) / 9),
      alts: series(shown).foldl([], (acc, s) => acc.append(postAlt(o.kind, o.p, o.q, s, th))) }
  }

  action init = {
    nondet d = 0.to(ND).setOfMaps(0.to(999)).oneOf()
    iev' = filterEvent(d)
  }
  action step = {
    nondet d = 0.to(ND).setOfMaps(0.to(999)).oneOf()
    any { iev' = filterEvent(d), iev' = postEvent(d) }
  }

  // -------------------------------------------------- properties of the model
  pure def increasing(rows: List[Row]): bool = gaps(rows).foldl(true, (ok, g) => ok and g > 0)
  // every series has the distinct times once, in order, and only rows that were given
  val wellFormed: bool = iev.alts.foldl(true, (ok, a) =>
    ok and increasing(a.rows) and times(iev.shown).length() == a.rows.length()
       and a.rows.foldl(true, (k, r) => k and iev.shown.select(x => x == r).length() > 0))
  // with identical copies only there is one series, whatever the arrangement
  val unique: bool = (iev.shown.foldl(true, (ok, r) =>
      ok and iev.shown.select(x => x.t == r.t and x != r).length() == 0)) implies iev.alts.length() == 1
  val ingestSane: bool = wellFormed and unique
}
