/// Pattern loading: which arrangements of permanent and variable loads are
/// built from a scheme, and the extremes of their effects.
module patternload {
  import fx.* from "./fx"
  import mechanics.* from "./mechanics"
  import structures.* from "./structures"
  import effects.* from "./effects"

  /// factors in milli: largest and smallest, permanent and variable
  type Given = { on: bool, rows: List[Row], hi: int, lo: int }
  type Arr = { kind: str, i: int, spans: List[int], rows: List[Row] }
  type Ext = { m: List[int], v: List[int], r: List[int] }
  pure val noGiven: Given = { on: false, rows: [], hi: 0, lo: 0 }
  pure val noExt: Ext = { m: [], v: [], r: [] }

  var beam: Beam
  var dead: Given
  var live: Given
  var op: str
  var arr: List[Arr]
  var hi: Ext
  var lo: Ext
  var each: List[Ext]     // every arrangement on its own

  pure def scaled(rows: List[Row], spans: List[int], g: Given): List[Row] =
    rows.foldl([], (a, r) => a.append(scaleRow(r, if (lcontains(spans, r[0])) g.hi else g.lo)))
  pure def arrangement(kind: str, i: int, spans: List[int], d: Given, l: Given): Arr =
    { kind: kind, i: i, spans: spans, rows: scaled(d.rows, spans, d).concat(scaled(l.rows, spans, l)) }
  /// one for the two spans beside every interior support, odd spans, even
  /// spans and all spans
  pure def arrangements(n: int, d: Given, l: Given): List[Arr] =
    range(1, n).foldl([], (a, i) => a.append(arrangement("hogging", i, [i, i + 1], d, l)))
      .append(arrangement("odd", 0, range(1, n + 1).select(i => i % 2 == 1), d, l))
      .append(arrangement("even", 0, range(1, n + 1).select(i => i % 2 == 0), d, l))
      .append(arrangement("all", 0, range(1, n + 1), d, l))
  pure def extOf(b: Beam, rows: List[Row]): Ext = {
    val s = solveBeam(b, rows)
    val e = effect(b, rows, s)
    { m: e.m, v: e.v, r: range(0, s.react.length()).foldl([], (a, k) => if (b.rest[k] < 0) a.append(toPico(s.react[k])) else a) }
  }
  pure def fold2(a: List[int], b: List[int], sign: int): List[int] =
    range(0, a.length()).foldl([], (z, k) => z.append(sign * imax(sign * a[k], sign * b[k])))
  pure def extremes(es: List[Ext], sign: int): Ext =
    es.foldl(es[0], (a, e) => { m: fold2(a.m, e.m, sign), v: fold2(a.v, e.v, sign), r: fold2(a.r, e.r, sign) })

  pure val LEN = Set(4000000, 8000000, 10000000, 16000000)
  action install(b: Beam): bool = all {
    beam' = b, dead' = noGiven, live' = noGiven, op' = "init", arr' = [], hi' = noExt, lo' = noExt, each' = [] }
  action init = {
    nondet n = Set(1, 2, 3, 4, 5).oneOf()
    nondet L = 0.to(4).setOfMaps(LEN).oneOf()
    nondet ei = 0.to(4).setOfMaps(RIGID).oneOf()
    nondet et = 0.to(4).setOfMaps(Set(-4, -3, -2, -1, 0, 1, 2, 3)).oneOf()
    nondet sup = 0.to(5).setOfMaps(Set(1, 2, 3, 6, 9, 10)).oneOf()
    nondet dk = 0.to(5).setOfMaps(0.to(12)).oneOf()
    nondet fam = 0.to(5).oneOf()
    nondet pat = 0.to(4).setOfMaps(1.to(5)).oneOf()
    val d = dk.keys().mapBy(k => if (sup.get(k) > 7 or dk.get(k) > 2) 0 else dk.get(k))
    val e = et.keys().mapBy(k => if (fam == 2) 1 else imax(1, et.get(k)))
    val b0 = mkBeam(n, L, ei, e, if (n == 1) sup.setBy(0, s => 6) else sup, 4000000000, 30000000000, d)
    val b = { ...b0, spans: range(0, n).foldl([], (a, i) => a.append(
      if (fam == 0) { ...b0.spans[i], ei: pattern(pat.get(i), L.get(i), ei.get(i)) }
      else if (fam == 1) { ...b0.spans[i], ga: constSec(L.get(i), 900000000 * pat.get(i)) }
      else if (fam == 2) { ...b0.spans[i], kf: 2000000000 * (pat.get(i) - 1) }
      else b0.spans[i])) }
    install(if (solveBeam(b, []).ok) b
            else { ...mkBeam(n, L, ei, Map(0 -> 1, 1 -> 1, 2 -> 1, 3 -> 1, 4 -> 1), Map(0 -> 6, 1 -> 1, 2 -> 1, 3 -> 1, 4 -> 1, 5 -> 1), 1, 1,
                             Map(0 -> 0, 1 -> 0, 2 -> 0, 3 -> 0, 4 -> 0, 5 -> 0)), spans: b.spans.foldl([], (a, s) => a.append({ ...s, et: 1 })) })
  }
  pure def founded(b: Beam): bool = b.spans.foldl(false, (x, s) => x or s.kf > 0)
  pure val FACT = Set(-500, 0, 500, 1000, 1500, 2000)
  action give = {
    nondet which = Set("dead", "live").oneOf()
    nondet m = 1.to(4).oneOf()
    nondet i = 0.to(3).setOfMaps(0.to(beam.spans.length() - 1)).oneOf()
    nondet k = 0.to(3).setOfMaps(1.to(9)).oneOf()
    nondet w = 0.to(3).setOfMaps(Set(-32000000, 12000000, 48000000)).oneOf()
    nondet a = 0.to(3).setOfMaps(Set(50, 110, 310, 470, 613)).oneOf()
    nondet c = 0.to(3).setOfMaps(Set(110, 310, 950)).oneOf()
    nondet g = Set((1500, 500), (1000, 0), (2000, 1000), (1500, -500), (0, 1000), (1000, 1000)).oneOf()
    val rows = range(0, m).foldl([], (z, j) => z.append(
      rowOf(beam, i.get(j), if (founded(beam)) 1 + k.get(j) % 3 else k.get(j), w.get(j), 27000000, a.get(j), c.get(j))))
    val gv = { on: true, rows: rows, hi: g._1, lo: g._2 }
    all { beam' = beam, op' = which, arr' = [], hi' = noExt, lo' = noExt, each' = [],
          dead' = if (which == "dead") gv else dead, live' = if (which == "live") gv else live }
  }
  /// one of the two loads may be none at all
  action none = {
    nondet which = Set("dead", "live").oneOf()
    val gv = { on: true, rows: [], hi: 1000, lo: 1000 }
    all { beam' = beam, op' = which, arr' = [], hi' = noExt, lo' = noExt, each' = [],
          dead' = if (which == "dead") gv else dead, live' = if (which == "live") gv else live }
  }
  action analyze = {
    val as_ = arrangements(beam.spans.length(), dead, live)
    val es = as_.foldl([], (a, x) => a.append(extOf(beam, x.rows)))
    all { beam' = beam, dead' = dead, live' = live, op' = "analyze", arr' = as_, each' = es, hi' = extremes(es, 1), lo' = extremes(es, -1) }
  }
  action early = all { beam' = beam, dead' = dead, live' = live, op' = "early", arr' = [], each' = [], hi' = noExt, lo' = noExt }
  action step = any {
    give, give, all { not(dead.on) or not(live.on), none },
    all { dead.on and live.on, analyze }, all { dead.on and live.on, op != "analyze", analyze },
    all { not(dead.on and live.on), early }
  }
  // ---- of the model ------------------------------------------------------------------
  /// every span takes part at its largest in some arrangement with its left
  /// neighbour at the largest and in one with it at the smallest
  val schemeComplete = arr.length() == 0 or {
    val n = beam.spans.length()
    arr.length() == n + 2 and
    range(1, n).foldl(true, (ok, i) => ok and
      arr.foldl(false, (x, a) => x or (lcontains(a.spans, i) and lcontains(a.spans, i + 1))) and
      arr.foldl(false, (x, a) => x or (lcontains(a.spans, i) and not(lcontains(a.spans, i + 1)))))
  }
  /// with all factors equal the arrangements coincide
  val ordered = range(0, hi.m.length()).foldl(true, (ok, k) => ok and hi.m[k] >= lo.m[k] and hi.v[k] >= lo.v[k])
}
