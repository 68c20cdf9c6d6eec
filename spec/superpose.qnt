/// Superposition: a load list evolves by adding, merging, scaling, reordering
/// and splitting; the effect of the list is always the sum of its parts.
module superpose {
  import fx.* from "./fx"
  import mechanics.* from "./mechanics"
  import structures.* from "./structures"
  import elastic.* from "./elastic"

  /// the operation that produced the current list (replayed by the harness)
  var op: Op
  /// the solution found now equals the one predicted by linearity
  var linear: bool
  type Op = { name: str, a: int, b: int, rows: List[Row] }
  pure val noOp: Op = { name: "init", a: 0, b: 0, rows: [] }

  pure def near(a: List[int], b: List[int]): bool =
    a.length() == b.length() and
    range(0, a.length()).foldl(true, (ok, i) => ok and iabs(a[i] - b[i]) < MICRO)

  pure def flat(b: Beam): Beam = { ...b, disp: lmap(b.disp, x => 0) }

  /// install list l; `pred` is the prediction of the support actions
  action become(o: Op, l: List[Row], pred: List[int]): bool = all {
    val s = solveBeam(beam, l)
    all { beam' = beam, lm' = l, sol' = s, obs' = observe(beam, l, s), res' = balance(beam, l, s),
          op' = o, linear' = (not(s.ok) or near(s.react, pred)) }
  }
  action begin(i: bool): bool = all { i, op' = noOp, linear' = true }
  action initA = begin(initPrismatic)
  action initB = begin(initNonPrismatic)
  action initC = begin(initShear)

  // ---- operations -----------------------------------------------------------------
  action addOne = {
    nondet i = 0.to(beam.spans.length() - 1).oneOf()
    nondet kind = 1.to(10).oneOf()
    nondet w = Set(-30000000, 12000000, 45000000).oneOf()
    nondet w2 = Set(-18000000, 0, 27000000).oneOf()
    nondet a = Set(0, 125, 310, 500, 700, 950, 1000).oneOf()
    nondet c = Set(100, 300, 600, 1000).oneOf()
    val r = rowOf(beam, i, kind, w, w2, a, c)
    become({ name: "add", a: 0, b: 0, rows: [r] }, lm.append(r),
           vadd(sol.react, solveBeam(flat(beam), [r]).react))
  }
  /// add_LM with a second list of two loads
  action mergeTwo = {
    nondet i = 0.to(beam.spans.length() - 1).oneOf()
    nondet j = 0.to(beam.spans.length() - 1).oneOf()
    nondet k1 = 1.to(10).oneOf()
    nondet k2 = 1.to(10).oneOf()
    nondet a = Set(0, 200, 450, 850).oneOf()
    nondet c = Set(250, 700).oneOf()
    val r1 = rowOf(beam, i, k1, 20000000, -7000000, a, c)
    val r2 = rowOf(beam, j, k2, -15000000, 11000000, 1000 - a, c)
    become({ name: "merge", a: 0, b: 0, rows: [r1, r2] }, lm.append(r1).append(r2),
           vadd(sol.react, vadd(solveBeam(flat(beam), [r1]).react, solveBeam(flat(beam), [r2]).react)))
  }
  /// factor_LM: only the magnitudes are scaled (g in milli)
  pure def scaleRow(r: Row, g: int): Row =
    if (r[1] == 5) r.replaceAt(2, r[2] * g / 1000).replaceAt(3, r[3] * g / 1000)
    else if (r[1] == 6) range(2, r.length()).foldl(r, (x, k) => x.replaceAt(k, r[k] * g / 1000))
    else r.replaceAt(2, r[2] * g / 1000)
  pure def exactScale(r: Row, g: int): bool =
    range(2, r.length()).foldl(true, (ok, k) =>
      ok and ((k > 3 and r[1] != 6) or (k == 3 and r[1] != 5 and r[1] != 6) or (r[k] * g) % 1000 == 0))
  action factor = {
    nondet g = Set(-1000, 0, 500, 1350, 2000).oneOf()
    val base = solveBeam(beam, [])
    all {
      lm.length() > 0, lm.foldl(true, (ok, r) => ok and exactScale(r, g)),
      become({ name: "factor", a: g, b: 0, rows: [] },
             lm.foldl([], (acc, r) => acc.append(scaleRow(r, g))),
             range(0, base.react.length()).foldl([], (acc, k) =>
               acc.append(base.react[k] + (sol.react[k] - base.react[k]) * g / 1000)))
    }
  }
  action rotate = {
    nondet k = 1.to(3).oneOf()
    all { lm.length() > k,
      become({ name: "rotate", a: k, b: 0, rows: [] },
             lm.slice(k, lm.length()).concat(lm.slice(0, k)), sol.react) }
  }
  action flip = all { lm.length() > 1,
    become({ name: "flip", a: 0, b: 0, rows: [] },
           range(0, lm.length()).foldl([], (acc, k) => [lm[k]].concat(acc)), sol.react) }

  /// equivalent replacement of a row; f in 1..9 tenths
  pure def splitRow(L: int, r: Row, f: int): List[Row] =
    if (r[1] == 1) {
      if (f % 3 == 0) [[r[0], 5, r[2], r[2]]]
      else [[r[0], 3, r[2], 0, L * f / 10], [r[0], 3, r[2], L * f / 10, L - L * f / 10]]
    }
    else if (r[1] == 2) [[r[0], 2, r[2] / 4, r[3]], [r[0], 2, r[2] - r[2] / 4, r[3]]]
    else if (r[1] == 3) {
      val c1 = r[4] * f / 10
      if (f % 3 == 0) [[r[0], 5, r[2], r[2], r[3], r[4]]]
      else [[r[0], 3, r[2], r[3], c1], [r[0], 3, r[2], r[3] + c1, r[4] - c1]]
    }
    else if (r[1] == 4) [[r[0], 4, r[2] / 3, r[3]], [r[0], 4, r[2] - r[2] / 3, r[3]]]
    else if (r[1] == 5) {
      // triangle + triangle over the same patch
      if (r.length() > 5) [[r[0], 5, r[2], 0, r[4], r[5]], [r[0], 5, 0, r[3], r[4], r[5]]]
      else if (r.length() > 4) [[r[0], 5, 0, r[3], r[4]], [r[0], 5, r[2], 0, r[4]]]
      else [[r[0], 5, r[2], 0], [r[0], 5, 0, r[3]]]
    }
    else range(2, r.length()).foldl([], (acc, k) =>
      acc.append(range(2, k + 1).foldl([r[0], 6], (x, j) => x.append(if (j == k) r[k] else 0))))
  action split = {
    nondet k = 0.to(7).oneOf()
    nondet f = 1.to(9).oneOf()
    all { lm.length() > k,
      val r = lm[if (k < lm.length()) k else 0]
      become({ name: "split", a: k, b: 0, rows: splitRow(beam.spans[r[0] - 1].L, r, f) },
             lm.slice(0, k).concat(splitRow(beam.spans[r[0] - 1].L, r, f)).concat(lm.slice(k + 1, lm.length())),
             sol.react) }
  }
  /// a load reaching past the end of its span acts only on the span
  action overhang = {
    nondet i = 0.to(beam.spans.length() - 1).oneOf()
    nondet kind = Set(3, 5).oneOf()
    nondet a = Set(0, 250, 600, 900, 1000, 1100).oneOf()
    nondet c = Set(500, 1000, 1300).oneOf()
    nondet w = Set(-16000000, 24000000).oneOf()
    val L = beam.spans[i].L
    val pa = L * a / 1000
    val pc = L * c / 1000
    val r = if (kind == 3) [i + 1, 3, w, pa, pc] else [i + 1, 5, w, w, pa, pc]
    val vis = imax(0, imin(pc, L - pa))
    become({ name: "add", a: 0, b: 0, rows: [r] }, lm.append(r),
           if (vis == 0) sol.react
           else vadd(sol.react, solveBeam(flat(beam), [[i + 1, 3, w, pa, vis]]).react))
  }
  action advance = all { sol.ok, any { addOne, mergeTwo, factor, rotate, flip, split, overhang } }

  /// the reference model itself superposes
  val superposition = linear
}
