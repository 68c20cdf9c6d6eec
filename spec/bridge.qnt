/// Moving loads on a bridge: where the axles stand, what the beam then carries,
/// the extremes over a traverse, and the critical values read from them.
/// Lengths are multiples of 1/8 so that the implementation's own position
/// arithmetic is exact in binary floating point.
module bridge {
  import fx.* from "./fx"
  import mechanics.* from "./mechanics"
  import structures.* from "./structures"

  type Veh = { gap: List[int], w: List[int], rev: bool }
  type Q = { ml: int, mh: int, ql: int, qh: int }
  /// effects at one vehicle position: support actions, stations per member,
  /// shear either side of the extra sections
  type PosRes = { react: List[int], mem: List[List[Q]], sec: List[(int, int)] }
  /// extremes (never inside zero) at a station, each known within an interval
  type Ext = { mx: (int, int), mn: (int, int), vx: (int, int), vn: (int, int) }
  type Ratio = { mx: int, mn: int, vx: int, vn: int }
  type Run = { kind: str, ok: bool, pos: List[int], secs: List[int], res: List[PosRes],
               env: List[List[Ext]], rmax: List[int], rmin: List[int] }
  type Request = { step: int, start: int, stop: int, deflt: bool, w: int, clear: List[int], dv: int, pts: List[int],
                   show: int }   // also drawn: 1 the result, 2 every position too

  var beam: Beam
  var fixedLoads: List[Row]     // the bridge's static loads
  var veh: Veh
  var cur: Run
  var prev: Run                 // the cur before
  var req: Request

  pure val NG: int = 8          // result grid per member
  pure def noRun: Run = { kind: "none", ok: true, pos: [], secs: [], res: [], env: [], rmax: [], rmin: [] }
  pure def noReq: Request = { step: 0, start: 0, stop: 0, deflt: true, w: 0, clear: [], dv: 0, pts: [], show: 0 }

  // ---- vehicle ----------------------------------------------------------------
  pure def wheelbase(v: Veh): int = lsum(v.gap)
  /// distance of each axle behind the front of the vehicle
  pure def setback(v: Veh): List[int] = {
    val c = v.gap.foldl([0], (a, g) => a.append(a[a.length() - 1] + g))
    if (v.rev) lmap(c, x => wheelbase(v) - x) else c
  }
  // ---- where loads stand -----------------------------------------------------------
  /// member under a deck coordinate; a joint belongs to the member it starts
  pure def under(b: Beam, g: int): int =
    range(0, b.spans.length()).foldl(0, (m, i) => if (nodeX(b, i) <= g) i else m)
  pure def axleRows(b: Beam, v: Veh, pos: int): List[Row] =
    range(0, v.w.length()).foldl([], (acc, k) => {
      val g = pos - setback(v)[k]
      if (g < 0 or g > totalL(b)) acc
      else acc.append([under(b, g) + 1, 2, v.w[k], g - nodeX(b, under(b, g))])
    })
  pure def strip(b: Beam, a: int, z: int, w: int): List[Row] =
    range(0, b.spans.length()).foldl([], (acc, i) => {
      val lo = imax(a, nodeX(b, i))
      val hi = imin(z, nodeX(b, i + 1))
      if (hi > lo) acc.append([i + 1, 3, w, lo - nodeX(b, i), hi - lo]) else acc
    })
  /// lane load: everywhere, or outside the clear zone [rear - back, front + ahead]
  pure def lane(b: Beam, v: Veh, pos: int, w: int, clear: List[int]): List[Row] =
    if (w == 0) []
    else if (clear.length() == 0) strip(b, 0, totalL(b), w)
    else strip(b, 0, pos - wheelbase(v) - clear[0], w).concat(strip(b, pos + clear[1], totalL(b), w))

  // ---- extra shear sections ----------------------------------------------------------
  pure def sections(b: Beam, r: Request): List[int] = {
    // no distance asked for; -1 stands for a distance of nothing
    val near = if (r.dv == 0) [] else range(0, nNodes(b)).foldl([], (acc, i) =>
      if (b.rest[2 * i] != 0) acc.append(nodeX(b, i) - imax(r.dv, 0)).append(nodeX(b, i) + imax(r.dv, 0)) else acc)
    sortU(r.pts.concat(near).select(g => g > 0 and g < totalL(b)))
  }
  // ---- one position --------------------------------------------------------------
  pure def grid(L: int): List[int] = range(0, NG + 1).foldl([], (a, k) => a.append(L * k / NG))
  pure def quad(o: Obs): Q = { ml: toPico(o.lo.m[0]), mh: toPico(o.hi.m[0]), ql: toPico(o.lo.q[0]), qh: toPico(o.hi.q[0]) }
  pure def effects(b: Beam, l: List[Row], secs: List[int]): PosRes = {
    val s = solveBeam(b, l)
    { react: s.react.foldl([], (a, x) => a.append(toPico(x))),
      mem: range(0, b.spans.length()).foldl([], (acc, i) => acc.append(
        diagram(b, l, s, i, grid(b.spans[i].L)).foldl([], (a, o) => a.append(quad(o))))),
      sec: secs.foldl([], (acc, g) => {
        val m = under(b, g)
        // at a joint the section sees the end of one member and the start of the next
        val d = diagram(b, l, s, m, [g - nodeX(b, m)])
        val o = quad(d[d.length() - 1])
        if (g == nodeX(b, m) and m > 0) {
          val e = diagram(b, l, s, m - 1, [b.spans[m - 1].L])
          acc.append((quad(e[e.length() - 1]).ql, o.qh))
        } else acc.append((o.ql, o.qh))
      }) }
  }
  pure def posit(x: (int, int)): (int, int) = (imax(0, imin(x._1, x._2)), imax(0, imax(x._1, x._2)))
  pure def negat(x: (int, int)): (int, int) = (imin(0, imin(x._1, x._2)), imin(0, imax(x._1, x._2)))
  pure def up(a: (int, int), b: (int, int)): (int, int) = (imax(a._1, b._1), imax(a._2, b._2))
  pure def dn(a: (int, int), b: (int, int)): (int, int) = (imin(a._1, b._1), imin(a._2, b._2))
  pure def extremes(b: Beam, res: List[PosRes]): List[List[Ext]] =
    range(0, b.spans.length()).foldl([], (acc, i) => acc.append(
      range(0, NG + 1).foldl([], (a, k) => a.append(
        res.foldl({ mx: (0, 0), mn: (0, 0), vx: (0, 0), vn: (0, 0) }, (e, r) => {
          val q = r.mem[i][k]
          { mx: up(e.mx, posit((q.ml, q.mh))), mn: dn(e.mn, negat((q.ml, q.mh))),
            vx: up(e.vx, posit((q.ql, q.qh))), vn: dn(e.vn, negat((q.ql, q.qh))) }
        })))))
  pure def rext(b: Beam, res: List[PosRes], mx: bool): List[int] =
    range(0, b.rest.length()).foldl([], (acc, d) =>
      if (b.rest[d] >= 0) acc
      else acc.append(res.foldl(0, (m, r) => if (mx) imax(m, r.react[d]) else imin(m, r.react[d]))))

  /// the traverse: from, from + step, ... as many steps as fit most closely
  pure def nearest(n: int, d: int): int = if (d > 0) (2 * n + d) / (2 * d) else (2 * (-n) - d) / (2 * (-d))
  pure def traverse(b: Beam, v: Veh, r: Request): List[int] = {
    val start = if (r.deflt) 0 else r.start
    val stop = if (r.deflt) totalL(b) + wheelbase(v) else r.stop
    range(0, nearest(stop - start, r.step) + 1).foldl([], (acc, k) => acc.append(start + k * r.step))
  }
  pure def perform(b: Beam, st: List[Row], v: Veh, kind: str, r: Request, ps: List[int]): Run = {
    val secs = sections(b, r)
    val res = ps.foldl([], (acc, p) =>
      acc.append(effects(b, st.concat(axleRows(b, v, p)).concat(lane(b, v, p, r.w, r.clear)), secs)))
    { kind: kind, ok: true, pos: ps, secs: secs, res: res, env: extremes(b, res),
      rmax: rext(b, res, true), rmin: rext(b, res, false) }
  }

  // ---- behaviour ----------------------------------------------------------------------
  pure val E8: int = 125000
  pure def pick(s: int -> int, n: int): List[int] = range(0, n).foldl([], (a, i) => a.append(s.get(i)))
  action init = {
    nondet n = Set(1, 2, 2, 3, 5).oneOf()
    nondet L = 0.to(4).setOfMaps(Set(4000000, 6000000, 8000000, 10000000, 12000000, 20000000)).oneOf()
    nondet ei = 0.to(4).setOfMaps(RIGID).oneOf()
    nondet et = 0.to(4).setOfMaps(Set(1, 2, 3)).oneOf()
    nondet sup = 0.to(5).setOfMaps(Set(1, 2, 6, 8, 9)).oneOf()
    nondet dk = 0.to(5).setOfMaps(0.to(9)).oneOf()
    nondet ns = 0.to(2).oneOf()
    nondet si = 0.to(1).setOfMaps(0.to(4)).oneOf()
    nondet sk = 0.to(1).setOfMaps(1.to(5)).oneOf()
    nondet sw = 0.to(1).setOfMaps(Set(8000000, 15000000, -6000000)).oneOf()
    nondet na = Set(1, 2, 3, 4, 7).oneOf()
    nondet gap = 0.to(5).setOfMaps(Set(0, 500000, 1250000, 2000000, 3625000, 6000000)).oneOf()
    nondet w = 0.to(6).setOfMaps(Set(60000000, 110000000, 145000000, 35500000, 240000000)).oneOf()
    val b = mkBeam(n, L, ei, et, sup, 4000000000, 30000000000, dk)
    val rows = range(0, ns).foldl([], (acc, j) =>
      acc.append(rowOf(b, imin(si.get(j), n - 1), sk.get(j), sw.get(j), sw.get(j) / 2, 250, 375)))
    all {
      beam' = b, fixedLoads' = rows, veh' = { gap: pick(gap, na - 1), w: pick(w, na), rev: false },
      cur' = { ...noRun, ok: solveBeam(b, []).ok }, prev' = noRun, req' = noReq,
    }
  }
  action emit(r: Run, q: Request): bool = all {
    cur' = r, prev' = if (cur.env.length() > 0) cur else prev, req' = q,
    beam' = beam, fixedLoads' = fixedLoads, veh' = veh }

  action place = {
    nondet p = (-16).to(320).oneOf()
    nondet onj = 0.to(5).oneOf()
    nondet k = 0.to(3).oneOf()
    nondet j = 0.to(3).oneOf()
    nondet dv = Set(0, 0, 375000, 750000, -1).oneOf()
    nondet show = (-4).to(1).oneOf()
    // sometimes with a chosen axle exactly over a joint
    val pos = if (onj == 0) nodeX(beam, imin(j, beam.spans.length())) + setback(veh)[imin(k, veh.w.length() - 1)]
              else p * E8
    val r = { ...noReq, start: pos, dv: dv, show: imax(0, show) }
    emit(perform(beam, fixedLoads, veh, "place", r, [pos]), r)
  }
  /// a traverse in about `m` steps
  action drive(lane: bool): bool = {
    nondet m = 3.to(11).oneOf()
    nondet custom = 0.to(2).oneOf()
    nondet f = (-10).to(100).oneOf()
    nondet t0 = (-10).to(200).oneOf()
    nondet home = 0.to(5).oneOf()
    nondet w = Set(5000000, 9000000, 27000000).oneOf()
    nondet ck = 0.to(4).oneOf()
    nondet c0 = Set(0, 1000000, 2500000, 6000000).oneOf()
    nondet c1 = Set(0, 1500000, 5000000).oneOf()
    nondet dv = Set(0, 0, 375000, 750000, -1).oneOf()
    nondet ps = Set(0, 0, 1, 2).oneOf()
    nondet show = (-8).to(2).oneOf()
    nondet pg = 0.to(1).setOfMaps(1.to(200)).oneOf()
    // home to the origin, or creeping along by the smallest step
    val t = if (home == 0) 0 else if (home == 1) f + m else t0
    val start = if (custom == 0) f * E8 else 0
    val stop = if (custom == 0) (if (t == f) t + 8 else t) * E8 else totalL(beam) + wheelbase(veh)
    val s0 = if (custom == 0 and home == 1) E8 else (iabs(stop - start) / (m * E8)) * E8
    val s1 = if (s0 == 0) E8 else s0
    // no ties in the number of steps
    val s2 = if ((2 * iabs(stop - start)) % s1 == 0 and iabs(stop - start) % s1 != 0) s1 + E8 else s1
    val s3 = if ((2 * iabs(stop - start)) % s2 == 0 and iabs(stop - start) % s2 != 0) s2 + E8 else s2
    val joint = nodeX(beam, 1)
    val pts = if (ps == 0) [] else if (ps == 1) [pg.get(0) * E8] else [pg.get(0) * E8, pg.get(1) * E8, joint]
    val r = { step: if (stop < start) -s3 else s3, start: start, stop: stop, deflt: custom != 0,
              w: if (lane) w else 0, clear: if (lane and ck > 1) [c0, c1] else [], dv: dv, pts: pts, show: imax(0, if (lane) imin(show, 1) else show) }
    emit(perform(beam, fixedLoads, veh, if (lane) "model" else "drive", r, traverse(beam, veh, r)), r)
  }
  action driveVehicle = drive(false)
  action driveModel = drive(true)
  action turn = all {
    veh' = { ...veh, rev: not(veh.rev) }, cur' = { ...cur, kind: "turn" }, prev' = prev, req' = noReq,
    beam' = beam, fixedLoads' = fixedLoads }
  action another = {
    nondet na = 1.to(4).oneOf()
    nondet gap = 0.to(2).setOfMaps(Set(0, 500000, 1250000, 2000000, 3625000, 6000000)).oneOf()
    nondet w = 0.to(3).setOfMaps(Set(60000000, 110000000, 145000000, 35500000, 240000000)).oneOf()
    all {
      veh' = { gap: pick(gap, na - 1), w: pick(w, na), rev: false }, cur' = { ...cur, kind: "another" },
      prev' = prev, req' = noReq, beam' = beam, fixedLoads' = fixedLoads }
  }
  /// a further permanent load is put on the bridge; or the same bridge is taken
  /// over by a new object: its static loads are its own, never an earlier vehicle
  action burden = {
    nondet i = 0.to(beam.spans.length() - 1).oneOf()
    nondet k = Set(1, 2, 3).oneOf()
    nondet w = Set(8000000, -5000000).oneOf()
    all { fixedLoads' = fixedLoads.append(rowOf(beam, i, k, w, 0, 625, 250)), cur' = { ...cur, kind: "burden" },
          prev' = prev, req' = noReq, beam' = beam, veh' = veh }
  }
  action rewrap = all { cur' = { ...cur, kind: "rewrap" }, prev' = prev, req' = noReq,
                        beam' = beam, fixedLoads' = fixedLoads, veh' = veh }
  /// a drawing of the bridge with the vehicle somewhere changes nothing
  action sketch = {
    nondet p = (-16).to(320).oneOf()
    all { cur' = { ...cur, kind: "sketch" }, prev' = prev, req' = { ...noReq, start: p * E8 },
          beam' = beam, fixedLoads' = fixedLoads, veh' = veh }
  }
  /// clear zones must be a pair of finite non-negative distances
  action badClear = {
    nondet k = 0.to(7).oneOf()
    all { cur' = { ...cur, kind: "badClear" }, prev' = prev, req' = { ...noReq, w: 5000000, dv: k },
          beam' = beam, fixedLoads' = fixedLoads, veh' = veh }
  }
  /// without a bridge (1), a vehicle (2) or both (0) nothing can be driven or drawn
  action unready = {
    nondet k = 0.to(11).oneOf()
    all { cur' = { ...cur, kind: "unready" }, prev' = prev, req' = { ...noReq, dv: k },
          beam' = beam, fixedLoads' = fixedLoads, veh' = veh }
  }
  action step = all { cur.ok, any { place, place, driveVehicle, driveVehicle, driveModel, driveModel, turn, another, badClear, unready, burden, rewrap, sketch } }
  action stepVehicle = all { cur.ok, any { place, place, driveVehicle, turn, another, burden, rewrap, sketch } }

  // ---- what must hold of the prescription itself ------------------------------------
  /// all the weight that is over the deck, and nothing else, is carried
  val weightCarried = cur.kind != "place" or {
    val rows = axleRows(beam, veh, cur.pos[0])
    rows.foldl(0, (a, r) => a + r[2]) ==
      range(0, veh.w.length()).foldl(0, (a, k) => {
        val g = cur.pos[0] - setback(veh)[k]
        if (0 <= g and g <= totalL(beam)) a + veh.w[k] else a })
  }
  val rowsInside = cur.pos.foldl(true, (ok, p) => ok and
    axleRows(beam, veh, p).foldl(true, (o, r) => o and r[3] >= 0 and r[3] <= beam.spans[r[0] - 1].L))
  /// the lane load covers the deck less the clear zone
  val laneCovers = cur.kind != "model" or cur.pos.foldl(true, (ok, p) => ok and {
    val lo = p - wheelbase(veh) - (if (req.clear.length() == 0) 0 else req.clear[0])
    val hi = p + (if (req.clear.length() == 0) 0 else req.clear[1])
    val gone = if (req.clear.length() == 0) 0
               else imax(0, imin(hi, totalL(beam)) - imax(lo, 0))
    lane(beam, veh, p, req.w, req.clear).foldl(0, (a, r) => a + r[4]) == totalL(beam) - gone })
  val ordered = cur.env.foldl(true, (ok, m) => ok and m.foldl(true, (o, e) =>
    o and e.mn._2 <= 0 and e.mx._1 >= 0 and e.vn._2 <= 0 and e.vx._1 >= 0))
}
