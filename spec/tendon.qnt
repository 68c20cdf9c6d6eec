/// Post-tensioning: a tendon draped through the beam, and what it does to it.
///
/// The tendon is a curve e(x) (eccentricity, positive below the centroid) made
/// of arcs; the concrete feels a downward load F e'' along an arc, F times the
/// change of slope at a kink, and F e / F e' where the tendon is anchored.
module tendon {
  import fx.* from "./fx"
  import mechanics.* from "./mechanics"
  import structures.* from "./structures"

  /// e and at in micro; cl, cr: straight lengths next to the supports
  type Profile = { kind: str, e: List[int], at: List[int], cl: int, cr: int }
  /// from (a, ea) to (b, eb) with constant second derivative k (fixed point; a, b micro)
  type Arc = { a: int, b: int, ea: int, eb: int, k: int }

  pure def arc(a: int, b: int, ea: int, eb: int, k: int): Arc = { a: a, b: b, ea: ea, eb: eb, k: k }
  pure def straight(a: int, b: int, e: int): List[Arc] = if (b > a) [arc(a, b, e, e, 0)] else []
  pure def lenOf(s: Arc): int = fromMicro(s.b - s.a)
  pure def slopeA(s: Arc): int = fdiv(s.eb - s.ea, lenOf(s)) - fmul(s.k, lenOf(s)) / 2
  pure def slopeB(s: Arc): int = fdiv(s.eb - s.ea, lenOf(s)) + fmul(s.k, lenOf(s)) / 2
  /// chord plus the sag of a parabola
  pure def level(s: Arc, x: int): int =
    s.ea + fmul(fdiv(s.eb - s.ea, lenOf(s)), fromMicro(x - s.a)) - fmul(s.k, fmul(fromMicro(x - s.a), fromMicro(s.b - x))) / 2

  // ---- the profiles ----------------------------------------------------------
  /// a tip is where the beam ends without any support
  pure def tip(b: Beam, i: int): str =
    if (i == 0 and b.rest[0] == 0 and b.rest[1] == 0) "left"
    else if (i == b.spans.length() - 1 and b.rest[2 * i + 2] == 0 and b.rest[2 * i + 3] == 0) "right"
    else ""
  pure def rising(l: List[int]): bool = range(1, l.length()).foldl(true, (a, i) => a and l[i - 1] < l[i])
  pure def wellFormed(p: Profile, L: int, t: str): bool =
    if (p.kind == "none") true
    else if (p.kind == "compound") t == "" and rising([0, p.at[0], p.at[2], L - p.at[1], L])
    else p.cl >= 0 and p.cr >= 0 and (
      if (p.kind == "parabola") (if (t == "right") p.cl < L else if (t == "left") p.cr < L else p.cl + p.cr < L)
      else rising([p.cl].concat(p.at).append(L - p.cr)))

  /// parabola whose crown at one end is level
  pure def fromTip(a: int, b: int, ea: int, eb: int, crownAtA: bool): Arc = {
    val l = fromMicro(b - a)
    arc(a, b, ea, eb, fdiv(2 * (if (crownAtA) eb - ea else ea - eb), fmul(l, l)))
  }
  pure def arcsParabola(p: Profile, L: int, t: str): List[Arc] = {
    val e = lmap(p.e, x => fromMicro(x))
    if (t == "right") straight(0, p.cl, e[0]).append(fromTip(p.cl, L, e[0], e[2], true))
    else if (t == "left") [fromTip(0, L - p.cr, e[0], e[2], false)].concat(straight(L - p.cr, L, e[2]))
    else {
      val l = fromMicro(L - p.cl - p.cr)
      straight(0, p.cl, e[0])
        .append(arc(p.cl, L - p.cr, e[0], e[2], fdiv(4 * (e[0] + e[2] - 2 * e[1]), fmul(l, l))))
        .concat(straight(L - p.cr, L, e[2]))
    }
  }
  /// level at both supports and at the low point; smooth: on each side of the
  /// low point the slope grows linearly to its extreme at the contraflexure
  pure def arcsCompound(p: Profile, L: int): List[Arc] = {
    val e = lmap(p.e, x => fromMicro(x))
    val a = p.at[0]
    val c = p.at[2]
    val d = L - p.at[1]
    val s1 = fdiv(2 * (e[1] - e[0]), fromMicro(c))
    val s2 = fdiv(2 * (e[2] - e[1]), fromMicro(L - c))
    val ea = e[0] + fmul(s1, fromMicro(a)) / 2
    val ed = e[2] - fmul(s2, fromMicro(L - d)) / 2
    [arc(0, a, e[0], ea, fdiv(s1, fromMicro(a))), arc(a, c, ea, e[1], -fdiv(s1, fromMicro(c - a))),
     arc(c, d, e[1], ed, fdiv(s2, fromMicro(d - c))), arc(d, L, ed, e[2], -fdiv(s2, fromMicro(L - d)))]
  }
  pure def arcsHarp(p: Profile, L: int): List[Arc] = {
    val e = lmap(p.e, x => fromMicro(x))
    val xs = [p.cl].concat(p.at).append(L - p.cr)
    straight(0, p.cl, e[0])
      .concat(range(1, e.length()).foldl([], (l, i) => l.append(arc(xs[i - 1], xs[i], e[i - 1], e[i], 0))))
      .concat(straight(L - p.cr, L, e[e.length() - 1]))
  }
  pure def arcsOf(p: Profile, L: int, t: str): List[Arc] =
    if (p.kind == "none") [] else if (p.kind == "parabola") arcsParabola(p, L, t)
    else if (p.kind == "compound") arcsCompound(p, L) else arcsHarp(p, L)
  pure def levelAt(s: List[Arc], x: int): int =
    s.foldl(0, (e, q) => if (q.a <= x and x <= q.b) level(q, x) else e)

  // ---- what the concrete feels -----------------------------------------------
  pure def times(F: int, k: int): int = F * k / ONE         // micro force times fixed point
  pure def rowsIn(i: int, F: int, s: List[Arc]): List[Row] =
    range(0, s.length()).foldl([], (l, j) => {
      val w = times(F, s[j].k)
      val k1 = if (w == 0) l else l.append([i + 1, 3, w, s[j].a, s[j].b - s[j].a])
      val kink = if (j == 0) 0 else times(F, slopeA(s[j]) - slopeB(s[j - 1]))
      if (iabs(kink) < 2) k1 else k1.append([i + 1, 2, kink, s[j].a])
    })
  type Hold = { m: int, v: int }
  pure val loose: Hold = { m: 0, v: 0 }
  pure def atStart(F: int, s: List[Arc]): Hold =
    if (s == []) loose else { m: times(F, s[0].ea), v: times(F, slopeA(s[0])) }
  pure def atFinish(F: int, s: List[Arc]): Hold =
    if (s == []) loose else { m: times(F, s[s.length() - 1].eb), v: times(F, slopeB(s[s.length() - 1])) }
  /// anchorages at node j, and the change of slope if nothing holds the node
  pure def rowsAt(b: Beam, j: int, before: Hold, after: Hold): List[Row] = {
    val n = b.spans.length()
    val anch = if (iabs(before.m - after.m) < 2) []
      else (if (before.m == 0) [] else [[j, 4, -before.m, b.spans[if (j > 0) j - 1 else 0].L]])
        .concat(if (after.m == 0) [] else [[j + 1, 4, after.m, 0]])
    val dv = after.v - before.v
    if (b.rest[2 * j] < 0 or iabs(dv) < 2) anch
    else anch.append(if (j < n) [j + 1, 2, dv, 0] else [n, 2, dv, b.spans[n - 1].L])
  }
  pure def arcsAll(b: Beam, ps: List[Profile]): List[List[Arc]] =
    range(0, ps.length()).foldl([], (l, i) => l.append(arcsOf(ps[i], b.spans[i].L, tip(b, i))))
  pure def equivalent(b: Beam, F: List[int], ps: List[Profile]): List[Row] = {
    val s = arcsAll(b, ps)
    val n = ps.length()
    val inside = range(0, n).foldl([], (l, i) => l.concat(rowsIn(i, F[i], s[i])))
    range(0, n + 1).foldl(inside, (l, j) =>
      l.concat(rowsAt(b, j, if (j == 0) loose else atFinish(F[j - 1], s[j - 1]), if (j == n) loose else atStart(F[j], s[j]))))
  }
  pure def allFormed(b: Beam, ps: List[Profile]): bool =
    range(0, ps.length()).foldl(true, (a, i) => a and wellFormed(ps[i], b.spans[i].L, tip(b, i)))

  // ---- the state machine ---------------------------------------------------------
  type Drape = { i: int, x: int, e: int, f: int }       // micro x, pico e, force
  type Call = { name: str, ok: bool, n: int, scalar: bool }
  var beam: Beam
  var force: List[int]
  var prof: List[Profile]
  var call: Call
  var lm: List[Row]
  var sol: Sol
  var obs: List[MObs]
  var drape: List[Drape]

  pure val bare: Profile = { kind: "none", e: [], at: [], cl: 0, cr: 0 }
  pure def sameAll(l: List[int]): bool = l.foldl(true, (a, x) => a and x == l[0])
  pure def drapes(b: Beam, F: List[int], ps: List[Profile]): List[Drape] =
    range(0, ps.length()).foldl([], (l, i) => {
      val s = arcsOf(ps[i], b.spans[i].L, tip(b, i))
      stations(b.spans[i].L).foldl(l, (a, x) => a.append({ i: i, x: x, e: toPico(levelAt(s, x)), f: F[i] }))
    })
  pure val ECC: Set[int] = Set(-400000, -250000, -100000, 0, 120000, 350000, 550000, 350000, 550000)

  action init = {
    nondet n = Set(1, 2, 3, 3, 5).oneOf()
    nondet L = 0.to(4).setOfMaps(Set(6000000, 8000000, 10000000, 16000000)).oneOf()
    nondet ei = 0.to(4).setOfMaps(RIGID).oneOf()
    nondet et = 0.to(4).setOfMaps(1.to(4)).oneOf()
    nondet plain = 0.to(3).oneOf()
    nondet sup = 0.to(5).setOfMaps(1.to(11)).oneOf()
    nondet free = 0.to(5).oneOf()
    nondet F = Set(800000000, 1500000000, 2400000000).oneOf()
    val s = sup.keys().mapBy(k => if ((free == 0 and k == 0) or (free == 1 and k == n) or (free == 2 and k == 1)) 0 else sup.get(k))
    val b = mkBeam(n, L, ei, et.keys().mapBy(k => if (plain > 0) 1 else et.get(k)), s, 25000000000, 30000000000, s.keys().mapBy(k => 0))
    all { beam' = b, force' = repeatInt(F, n), prof' = range(0, n).foldl([], (l, i) => l.append(bare)),
          call' = { name: "init", ok: true, n: 0, scalar: true }, lm' = [], sol' = noSol, obs' = [], drape' = [] }
  }
  action keep = all { beam' = beam, lm' = lm, sol' = sol, obs' = obs, drape' = drape }
  /// in fortieths of the span; 99 is a hand's breadth
  pure def frac(L: int, a: int): int = if (a == 99) L / 250 else L * a / 40
  /// lay the tendon along a span (now and then in an impossible way)
  action lay = {
    nondet i = 0.to(beam.spans.length() - 1).oneOf()
    nondet k = Set("parabola", "parabola", "compound", "compound", "harp", "double", "none").oneOf()
    nondet e = 0.to(3).setOfMaps(ECC).oneOf()
    nondet follow = 0.to(2).oneOf()
    nondet x = 0.to(2).setOfMaps(1.to(13)).oneOf()
    nondet cl = Set(0, 0, 2, 4, 99).oneOf()
    nondet cr = Set(0, 0, 0, 3, 4, 99).oneOf()
    nondet bad = 0.to(19).oneOf()
    val L = beam.spans[i].L
    // most tendons run on from the span before
    val e0 = if (i > 0 and follow > 0 and prof[i - 1].kind != "none") prof[i - 1].e[prof[i - 1].e.length() - 1] else e.get(0)
    val es = if (k == "none") [] else if (k == "double") [e0, e.get(1), e.get(2), e.get(3)] else [e0, e.get(1), e.get(3)]
    val mid = 13 + x.get(2)
    // the high point beyond the tip
    val over = tip(beam, i) != "" and bad > 15
    val pos = if (k == "compound") [frac(L, x.get(0)), frac(L, if (bad == 0) 42 - mid else imin(x.get(1), 39 - mid)), frac(L, mid)]
      else if (k == "harp") [frac(L, if (bad == 0) 1 else mid)]
      else if (k == "double") (if (bad == 0) [frac(L, mid), frac(L, 8)] else [frac(L, 5 + x.get(0)), frac(L, 20 + x.get(1))]) else []
    val l = if (k == "compound" or k == "none") 0 else if (bad == 1) -frac(L, 1) else frac(L, if (over) 41 else if (bad == 0 and k != "double") 24 else cl)
    val r = if (k == "compound" or k == "none") 0 else if (bad == 2) -frac(L, 1) else frac(L, if (over and bad > 17) 42 else if (bad == 0 and k == "parabola") 17 else cr)
    all { prof' = prof.replaceAt(i, { kind: k, e: es, at: pos, cl: l, cr: r }), force' = force,
          call' = { name: "lay", ok: true, n: i, scalar: true }, keep }
  }
  /// another force in one span, or everywhere
  action stress = {
    nondet i = 0.to(beam.spans.length() - 1).oneOf()
    nondet F = Set(600000000, 1100000000, 2000000000).oneOf()
    nondet everywhere = Set(true, false).oneOf()
    all { force' = if (everywhere) repeatInt(F, force.length()) else force.replaceAt(i, F), prof' = prof,
          call' = { name: "stress", ok: true, n: i, scalar: true }, keep }
  }
  action analyse = {
    nondet scalar = Set(true, false).oneOf()
    val ok = allFormed(beam, prof)
    val rows = if (ok) equivalent(beam, force, prof) else []
    val s = if (ok) solveBeam(beam, rows) else noSol
    all { call' = { name: "analyse", ok: ok, n: 0, scalar: scalar and sameAll(force) }, prof' = prof, force' = force, beam' = beam,
          lm' = rows, sol' = s, obs' = observe(beam, rows, s), drape' = if (ok) drapes(beam, force, prof) else [] }
  }
  /// one profile too few / one force too many
  action miscount = {
    nondet k = Set(0, 1).oneOf()
    all { call' = { name: "miscount", ok: false, n: k, scalar: false }, prof' = prof, force' = force, keep }
  }
  action step = if (call.name == "analyse") any { lay, lay, stress, miscount } else any { lay, lay, stress, analyse }

  // ---- what makes it a prestress: total = primary + something linear -------------
  pure def secondary(o: MObs, d: Drape, left: bool): int = (if (left) o.mh else o.ml) + d.f * d.e / 1000000
  val linear = (call.name == "analyse" and sol.ok) implies
    range(0, beam.spans.length()).foldl(true, (a, i) => a and {
      val z = range(0, NST + 1).foldl([], (l, j) => l.append(secondary(obs[i * (NST + 1) + j], drape[i * (NST + 1) + j], j < NST)))
      range(1, NST).foldl(true, (q, j) => q and iabs(z[j - 1] + z[j + 1] - 2 * z[j]) < 1000000000)
    })
  /// held in just as many ways as needed, and without hinges: nothing but the primary moment
  val determinate = (call.name == "analyse" and sol.ok
    and beam.spans.foldl(true, (a, s) => a and s.et == 1)
    and beam.rest.foldl(0, (a, r) => if (r == 0) a else a + 1) == 2) implies
    range(0, obs.length()).foldl(true, (a, j) =>
      a and iabs(secondary(obs[j], drape[j], obs[j].x < beam.spans[obs[j].i].L)) < 1000000000)
}
