/// What queries on a solved beam must return: station grids of the requested
/// density (plus paired shear sections), stored values at stations (left-hand
/// at a step) and linear interpolation between stations.
module queries {
  import fx.* from "./fx"
  import mechanics.* from "./mechanics"
  import structures.* from "./structures"

  var beam: Beam
  var lm: List[Row]
  var sol: Sol
  var npts: int                 // density in force
  var asked: int                // density requested by this analysis (0: none)
  var shear: List[List[int]]    // extra shear sections per member (micro)
  var qs: List[Query]
  var pairs: List[Pair]
  /// bracket [lo0, hi0] at the left station, [lo1, hi1] at the right one; the
  /// answer interpolates with weight f/4 (M, V, rotation, deflection)
  type Query = { i: int, k: int, f: int, lo0: List[int], hi0: List[int], lo1: List[int], hi1: List[int] }
  type Pair = { i: int, x: int, vl: int, vr: int }

  pure def vals(s: St): List[int] = [toPico(s.m[0]), toPico(s.q[0]), toPico(s.t[0]), toPico(s.v[0])]
  pure def obsAt(b: Beam, l: List[Row], s: Sol, i: int, x: int): Obs = {
    val d = diagram(b, l, s, i, [x])
    d[d.length() - 1]
  }
  /// values kept by a query at station x of member i: to the left of a joint
  /// the arriving member's, except at the start of the beam
  pure def kept(b: Beam, l: List[Row], s: Sol, i: int, x: int): (List[int], List[int]) =
    if (x == 0 and i > 0) {
      val o = obsAt(b, l, s, i - 1, b.spans[i - 1].L)
      // a load applied at the very end may or may not be felt there
      (vals(o.lo), vals(o.hi))
    } else {
      val o = obsAt(b, l, s, i, x)
      (vals(o.lo), vals(o.hi))
    }
  pure def query(b: Beam, l: List[Row], s: Sol, n: int, i: int, k: int, f: int): Query = {
    val L = b.spans[i].L
    val x0 = L * k / n
    val x1 = L * (k + 1) / n
    val a = kept(b, l, s, i, x0)
    val z = obsAt(b, l, s, i, x1)
    { i: i, k: k, f: f, lo0: a._1, hi0: a._2, lo1: vals(z.lo), hi1: vals(z.hi) }
  }
  action publish(b: Beam, l: List[Row], ask: int, np: int, sh: List[List[int]], qk: List[(int, int, int)]): bool = {
    val s = solveBeam(b, l)
    all {
      beam' = b, lm' = l, sol' = s, npts' = np, asked' = ask, shear' = sh,
      qs' = if (not(s.ok)) [] else qk.foldl([], (acc, q) => acc.append(query(b, l, s, np, q._1, q._2, q._3))),
      pairs' = if (not(s.ok)) [] else range(0, b.spans.length()).foldl([], (acc, i) =>
        sh[i].foldl(acc, (a, x) => {
          val o = obsAt(b, l, s, i, x)
          a.append({ i: i, x: x, vl: toPico(o.lo.q[0]), vr: toPico(o.hi.q[0]) }) }))
    }
  }
  action init = {
    nondet n = Set(1, 2, 3, 3, 6).oneOf()
    nondet L = 0.to(5).setOfMaps(Set(2000000, 4000000, 10000000, 15300000, 7900000, 9300000)).oneOf()
    nondet ei = 0.to(5).setOfMaps(RIGID).oneOf()
    nondet et = 0.to(5).setOfMaps(Set(1, 1, 2, 3)).oneOf()
    nondet sup = 0.to(6).setOfMaps(Set(1, 2, 3, 6, 8, 9, 10)).oneOf()
    nondet dk = 0.to(6).setOfMaps(0.to(6)).oneOf()
    val b = mkBeam(n, L, ei, et, sup, 4000000000, 30000000000, dk)
    publish(b, [], 0, 100, [[], [], [], [], [], []], [])
  }
  pure val QK: List[int] = [0, 0, 1, 3, 500, 501, 750, 613, 125, 310, 999, 999]
  pure val QF: List[int] = [0, 0, 1, 2, 4]
  pure val FR: Set[int] = Set(0, 125, 310, 500, 613, 950, 1000)
  action ask = {
    nondet i = 0.to(beam.spans.length() - 1).oneOf()
    nondet kind = 1.to(10).oneOf()
    nondet w = Set(-30000000, 12000000, 45000000).oneOf()
    nondet a = FR.oneOf()
    nondet c = Set(100, 300, 600).oneOf()
    nondet want = Set(0, 2, 3, 4, 20, 50, 100, 128).oneOf()
    nondet qi = 0.to(5).setOfMaps(0.to(beam.spans.length() - 1)).oneOf()
    nondet qk = 0.to(5).setOfMaps(0.to(11)).oneOf()
    nondet qf = 0.to(5).setOfMaps(0.to(4)).oneOf()
    nondet sh = 0.to(5).setOfMaps(0.to(4)).oneOf()
    val np = if (want > 3) want else npts
    val secs = range(0, 6).foldl([], (acc, j) => acc.append(
      if (j >= beam.spans.length()) []
      else if (sh.get(j) == 1) [beam.spans[j].L / 2]
      else if (sh.get(j) == 2) [beam.spans[j].L * 613 / 1000, beam.spans[j].L * 125 / 1000]
      else if (sh.get(j) == 3) [beam.spans[j].L * 310 / 1000]
      else []))
    val qq = range(0, 6).foldl([], (acc, j) =>
      acc.append((qi.get(j), imin(np - 1, (np * QK[qk.get(j)]) / 1000), QF[qf.get(j)])))
    publish(beam, lm.append(rowOf(beam, i, kind, w, -w / 2, a, c)), want, np, secs, qq)
  }
  // (the guard stays outside the choices: a disabled step must not enumerate them)
  action step = all { sol.ok, lm.length() < 6, ask }
  /// a query at the far end of an interval equals the next station's value
  val jumpsOnly = pairs.foldl(true, (ok, p) => ok and (p.vl == p.vr or
    lm.foldl(false, (x, r) => x or (r[0] == p.i + 1 and r[1] == 2 and r[3] == p.x))))
}
