/// Reference semantics of a continuous beam, by the method of initial
/// parameters (transfer of deflection / rotation / moment / shear along the
/// beam).  It is deliberately NOT the direct stiffness method of the
/// implementation: unknowns are the initial parameters, the support reactions
/// and the hinge rotations; the equations are "support conditions hold",
/// "hinges carry no moment" and "the far end is in equilibrium".
///
/// Sign conventions: x to the right, v and reactions upward, rotation and
/// couples anticlockwise, M sagging positive, V = dM/dx, loads w/P downward.
module mechanics {
  import fx.* from "./fx"

  /// polynomial piece of a rigidity: interpolates ys at xs (absolute, micro)
  type Piece = { x0: int, x1: int, xs: List[int], ys: List[int] }
  type Span = { L: int, ei: List[Piece], ga: List[Piece], kf: int, et: int }
  /// rest: -1 rigid, 0 free, >0 spring stiffness (micro);
  /// disp: prescribed displacement (micro), meaningful where dset is 1
  type Beam = { spans: List[Span], rest: List[int], dset: List[int], disp: List[int] }

  /// A load row mirrors the load matrix: [span, kind, args...], args in micro.
  ///   1 UDL w | 2 point P a | 3 partial UDL w a c | 4 couple m a
  ///   5 trapezoid w1 w2 [a c] | 6 imposed curvature k0 k1 ..
  type Row = List[int]

  /// distributed load of intensity wa..wb (fixed point) over [a,b] (micro)
  type Dist = { a: int, b: int, wa: int, wb: int }
  type Pt = { a: int, p: int, m: int }
  type Prim = { ds: List[Dist], ps: List[Pt], kap: List[List[int]] }

  /// affine state: each field is [constant, coefficients of the unknowns]
  type St = { v: List[int], t: List[int], m: List[int], q: List[int] }
  type Obs = { x: int, lo: St, hi: St }

  pure def constSec(L: int, y: int): List[Piece] = [{ x0: 0, x1: L, xs: [0], ys: [y] }]
  pure def prismatic(L: int, y: int, et: int): Span =
    { L: L, ei: constSec(L, y), ga: [], kf: 0, et: et }
  pure def releaseI(et: int): bool = et == 3 or et == 4
  pure def releaseJ(et: int): bool = et == 2 or et == 4

  // ---- rigidities ------------------------------------------------------------
  /// Lagrange interpolation of a piece at x (fixed point)
  pure def evalPiece(p: Piece, x: int): int = {
    val n = p.xs.length()
    if (n == 1) fromMicro(p.ys[0]) else
      range(0, n).foldl(0, (acc, i) =>
        acc + range(0, n).foldl(fromMicro(p.ys[i]), (t, j) =>
          if (j == i) t
          else fdiv(fmul(t, x - fromMicro(p.xs[j])), fromMicro(p.xs[i] - p.xs[j]))))
  }
  pure def pieceAt(s: List[Piece], a: int, b: int): Piece =
    s.foldl(s[0], (acc, p) => if (p.x0 <= a and b <= p.x1) p else acc)
  pure def secBreaks(s: List[Piece]): List[int] =
    s.foldl([], (acc, p) => acc.append(p.x0).append(p.x1))
  pure def isConst(s: List[Piece]): bool = s.length() == 1 and s[0].xs.length() == 1

  // ---- loads -------------------------------------------------------------------
  pure def noPrim: Prim = { ds: [], ps: [], kap: [] }
  /// Clip a distributed load to the member: whatever overhangs is ignored.
  pure def clipDist(L: int, a: int, c: int, w1: int, w2: int): List[Dist] =
    if (c <= 0 or a >= L) [] else
    if (a + c <= L) [{ a: a, b: a + c, wa: fromMicro(w1), wb: fromMicro(w2) }]
    else [{ a: a, b: L, wa: fromMicro(w1),
            wb: fromMicro(w1) + fromMicro(w2 - w1) * (L - a) / c }]
  pure def addRow(L: int, pr: Prim, r: Row): Prim =
    if (r[1] == 1) { ...pr, ds: pr.ds.concat(clipDist(L, 0, L, r[2], r[2])) }
    else if (r[1] == 2) { ...pr, ps: pr.ps.append({ a: r[3], p: fromMicro(r[2]), m: 0 }) }
    else if (r[1] == 3) { ...pr, ds: pr.ds.concat(clipDist(L, r[3], r[4], r[2], r[2])) }
    else if (r[1] == 4) { ...pr, ps: pr.ps.append({ a: r[3], p: 0, m: fromMicro(r[2]) }) }
    else if (r[1] == 5) { ...pr, ds: pr.ds.concat(
      clipDist(L, if (r.length() > 4) r[4] else 0,
                  if (r.length() > 5) r[5] else if (r.length() > 4) L - r[4] else L,
                  r[2], r[3])) }
    else { ...pr, kap: pr.kap.append(r.slice(2, r.length())) }
  pure def primOf(L: int, i: int, lm: List[Row]): Prim =
    lm.foldl(noPrim, (pr, r) => if (r[0] == i + 1) addRow(L, pr, r) else pr)
  pure def primBreaks(pr: Prim): List[int] =
    pr.ds.foldl([], (acc, d) => acc.append(d.a).append(d.b))
      .concat(pr.ps.foldl([], (acc, p) => acc.append(p.a)))

  /// intensity at a+ and slope of the total distributed load over [a,b]
  pure def loadOn(pr: Prim, a: int, b: int): (int, int) =
    pr.ds.foldl((0, 0), (acc, d) =>
      if (d.a <= a and b <= d.b) {
        val sl = if (d.wa == d.wb) 0 else fdiv(d.wb - d.wa, fromMicro(d.b - d.a))
        (acc._1 + d.wa + fmul(sl, fromMicro(a - d.a)), acc._2 + sl)
      } else acc)

  /// imposed curvature polynomial(s) at x (fixed point)
  pure def kapAt(kap: List[List[int]], x: int): int =
    kap.foldl(0, (acc, k) =>
      acc + range(0, k.length()).foldl(0, (s, j) => fmul(s, x) + fromMicro(k[k.length() - 1 - j])))

  // ---- transfer over one load/rigidity-uniform interval -------------------------
  pure def vcomb(rows: List[(int, List[int])], n: int): List[int] =
    rows.foldl(repeatInt(0, n), (acc, kv) =>
      if (kv._1 == 0) acc else if (kv._1 == ONE) vadd(acc, kv._2) else vaxpy(acc, kv._1, kv._2))

  /// 5-point Gauss-Legendre on [0,1]: (node, weight), 25 digits
  pure val GAUSS: List[(int, int)] = [
    (469100770306680036011866000000000000000,  1184634425280945437571320200000000000000),
    (2307653449471584544818427000000000000000, 2393143352496832340206458000000000000000),
    (5000000000000000000000000000000000000000, 2844444444444444444444444444444444444444),
    (7692346550528415455181573000000000000000, 2393143352496832340206458000000000000000),
    (9530899229693319963988134000000000000000, 1184634425280945437571320200000000000000)]

  /// Bernoulli-Euler / Timoshenko transfer over [a, a+h] with load w + sl*s
  pure def stepPlain(sp: Span, pr: Prim, a: int, b: int, s: St): St = {
    val h = fromMicro(b - a)
    val n = s.v.length()
    val ld = loadOn(pr, a, b)
    val w = ld._1
    val sl = ld._2
    val h2 = fmul(h, h)
    val h3 = fmul(h2, h)
    // shear and moment increments due to the distributed load
    val dq = -fmul(w, h) - fmul(sl, h2) / 2
    val dm = -fmul(w, h2) / 2 - fmul(sl, h3) / 6
    val p = pieceAt(sp.ei, a, b)
    val co =
      if (p.xs.length() == 1 and pr.kap == []) {
        val ei = fromMicro(p.ys[0])
        { a0: fdiv(h, ei), a1: fdiv(h2, 2 * ei), b0: fdiv(h2, 2 * ei), b1: fdiv(h3, 6 * ei),
          ct: -fdiv(fmul(w, h3), 6 * ei) - fdiv(fmul(sl, fmul(h2, h2)), 24 * ei),
          cv: -fdiv(fmul(w, fmul(h2, h2)), 24 * ei) - fdiv(fmul(sl, fmul(h2, h3)), 120 * ei) }
      } else
        GAUSS.foldl({ a0: 0, a1: 0, b0: 0, b1: 0, ct: 0, cv: 0 }, (c, g) => {
          val y = fmul(g._1, h)
          val wt = fmul(g._2, h)
          val ei = evalPiece(p, fromMicro(a) + y)
          val fl = fdiv(wt, ei)
          val mload = -fmul(w, fmul(y, y)) / 2 - fmul(sl, fmul(y, fmul(y, y))) / 6
          val k = fmul(mload, fl) + fmul(kapAt(pr.kap, fromMicro(a) + y), wt)
          { a0: c.a0 + fl, a1: c.a1 + fmul(fl, y), b0: c.b0 + fmul(fl, h - y),
            b1: c.b1 + fmul(fmul(fl, y), h - y), ct: c.ct + k, cv: c.cv + fmul(k, h - y) }
        })
    // shear flexibility: integral of 1/GA, and of the load-induced shear / GA
    val sh =
      if (sp.ga == []) { g: 0, c: 0 }
      else {
        val gp = pieceAt(sp.ga, a, b)
        GAUSS.foldl({ g: 0, c: 0 }, (c, g) => {
          val y = fmul(g._1, h)
          val f = fdiv(fmul(g._2, h), evalPiece(gp, fromMicro(a) + y))
          { g: c.g + f, c: c.c + fmul(f, -fmul(w, y) - fmul(sl, fmul(y, y)) / 2) }
        })
      }
    { q: vconst(s.q, dq),
      m: vconst(vcomb([(ONE, s.m), (h, s.q)], n), dm),
      t: vconst(vcomb([(ONE, s.t), (co.a0, s.m), (co.a1, s.q)], n), co.ct),
      v: vconst(vcomb([(ONE, s.v), (h, s.t), (co.b0, s.m), (co.b1 - sh.g, s.q)], n), co.cv - sh.c) }
  }

  /// Power-series solution of EI v'''' + k v = -w over a length h, for unit
  /// values of (v, theta, M, V) at the start: returns end (v, theta, M, V).
  pure def series(ei: int, kf: int, h: int, a0: int, a1: int, a2: int, a3: int, w: int): List[int] = {
    val h4 = fmul(fmul(h, h), fmul(h, h))
    val kh = fdiv(fmul(kf, h4), ei)
    val wh = fdiv(fmul(w, h4), ei)
    // terms of the normalised series c_n h^n
    val terms = range(4, 84).foldl([a0, a1, a2, a3], (acc, n) =>
      acc.append((-(if (n == 4) wh else 0) - fmul(kh, acc[n - 4])) / (n * (n - 1) * (n - 2) * (n - 3))))
    val d0 = lsum(terms)
    val d1 = range(0, 84).foldl(0, (s, n) => s + n * terms[n])
    val d2 = range(0, 84).foldl(0, (s, n) => s + n * (n - 1) * terms[n])
    val d3 = range(0, 84).foldl(0, (s, n) => s + n * (n - 1) * (n - 2) * terms[n])
    [d0, fdiv(d1, h), fmul(ei, fdiv(fdiv(d2, h), h)), fmul(ei, fdiv(fdiv(fdiv(d3, h), h), h))]
  }
  /// transfer over a length of beam on a Winkler foundation
  pure def stepFound(sp: Span, pr: Prim, a: int, b: int, s: St): St = {
    val h = fromMicro(b - a)
    val n = s.v.length()
    val ei = fromMicro(pieceAt(sp.ei, a, b).ys[0])
    val kf = fromMicro(sp.kf)
    val w = loadOn(pr, a, b)._1
    val cv = series(ei, kf, h, ONE, 0, 0, 0, 0)
    val ct = series(ei, kf, h, 0, h, 0, 0, 0)
    val cm = series(ei, kf, h, 0, 0, fdiv(fmul(h, h), 2 * ei), 0, 0)
    val cq = series(ei, kf, h, 0, 0, 0, fdiv(fmul(h, fmul(h, h)), 6 * ei), 0)
    val cw = series(ei, kf, h, 0, 0, 0, 0, w)
    pure def row(i: int): List[int] =
      vconst(vcomb([(cv[i], s.v), (ct[i], s.t), (cm[i], s.m), (cq[i], s.q)], n), cw[i])
    { v: row(0), t: row(1), m: row(2), q: row(3) }
  }

  /// carry the state along a member, through every break point; records the
  /// state just before and just after each break.
  pure def propagate(sp: Span, pr: Prim, brks: List[int], s0: St): List[Obs] =
    brks.foldl([], (acc, x) => {
      val lo =
        if (acc == []) s0
        else {
          val prev = acc[acc.length() - 1]
          if (sp.kf > 0) stepFound(sp, pr, prev.x, x, prev.hi)
          else stepPlain(sp, pr, prev.x, x, prev.hi)
        }
      val hi = pr.ps.foldl(lo, (s, p) =>
        if (p.a == x) { ...s, q: vconst(s.q, -p.p), m: vconst(s.m, -p.m) } else s)
      acc.append({ x: x, lo: lo, hi: hi })
    })
  pure def breaksOf(sp: Span, pr: Prim, xs: List[int]): List[int] = {
    val extra =
      if (isConst(sp.ei) and (sp.ga == [] or isConst(sp.ga)) and pr.kap == []) []
      else range(1, 8).foldl([], (acc, k) => acc.append(sp.L * k / 8))
    sortU([0, sp.L].concat(secBreaks(sp.ei)).concat(secBreaks(sp.ga))
      .concat(primBreaks(pr)).concat(extra).concat(xs)
      .select(x => x >= 0 and x <= sp.L))
  }

  // ---- whole beam --------------------------------------------------------------
  pure def nNodes(b: Beam): int = b.spans.length() + 1
  /// a degree of freedom whose displacement is imposed
  pure def held(b: Beam, d: int): bool = b.rest[d] < 0 or b.dset[d] == 1
  pure def nUnknowns(b: Beam): int =
    2 + range(0, 2 * nNodes(b)).foldl(0, (n, d) => if (held(b, d)) n + 1 else n)
      + b.spans.foldl(0, (n, s) =>
          n + (if (releaseI(s.et)) 1 else 0) + (if (releaseJ(s.et)) 1 else 0))

  /// Gauss elimination with partial pivoting on rows [constant, coefficients].
  /// Returns the unknowns, or ok = false when the system is singular.
  pure def solveLin(rows0: List[List[int]], n: int): { ok: bool, u: List[int] } = {
    val el = range(1, n + 1).foldl({ ok: rows0.length() == n, rows: rows0 }, (acc, k) =>
      if (not(acc.ok)) acc else {
        val piv = range(k - 1, n).foldl(k - 1, (p, i) =>
          if (iabs(acc.rows[i][k]) > iabs(acc.rows[p][k])) i else p)
        val prow = acc.rows[piv]
        if (iabs(prow[k]) < 1000000000000000000) { ...acc, ok: false } else {
          val swapped = acc.rows.replaceAt(piv, acc.rows[k - 1]).replaceAt(k - 1, prow)
          { ok: true, rows: range(k, n).foldl(swapped, (rs, i) =>
              if (rs[i][k] == 0) rs
              else rs.replaceAt(i, vaxpy(rs[i], -fdiv(rs[i][k], prow[k]), prow))) }
        }
      })
    if (not(el.ok)) { ok: false, u: [] } else {
      val u = range(0, n).foldl(repeatInt(0, n), (u, j) => {
        val k = n - 1 - j
        val r = el.rows[k]
        val rhs = range(k + 1, n).foldl(-r[0], (s, i) => s - fmul(r[i + 1], u[i]))
        u.replaceAt(k, fdiv(rhs, r[k + 1]))
      })
      { ok: true, u: u }
    }
  }

  type Sol = {
    ok: bool,            // a unique equilibrium configuration exists
    node: List[int],     // v0, th0, v1, th1, .. (fixed point)
    react: List[int],    // total support action on every DOF (fixed point)
    starts: List[St]     // state just after the start of every member
  }
  pure val noSol: Sol = { ok: false, node: [], react: [], starts: [] }

  /// value of an affine quantity at a solution u
  pure def at(a: List[int], u: List[int]): int =
    range(0, u.length()).foldl(a[0], (s, i) => if (a[i + 1] == 0) s else s + fmul(a[i + 1], u[i]))
  pure def atSt(s: St, u: List[int]): St =
    { v: [at(s.v, u)], t: [at(s.t, u)], m: [at(s.m, u)], q: [at(s.q, u)] }

  pure def solveBeam(b: Beam, lm: List[Row]): Sol = {
    val n = nUnknowns(b)
    val w = n + 1
    val zero = repeatInt(0, w)
    pure def unk(k: int): List[int] = unitVec(k, w, ONE)
    val start = { v: unk(1), t: unk(2), m: zero, q: zero }
    // acc: s = state before the node, nu = unknowns used, eqs, node dofs, reactions, starts
    val fin = range(0, nNodes(b)).foldl(
      { s: start, nu: 2, eqs: [], nd: [], rc: [], st: [] }, (acc, i) => {
        val last = i == nNodes(b) - 1
        // node rotation: that of the arriving member unless it is released there
        val relJ = i > 0 and releaseJ(b.spans[if (i > 0) i - 1 else 0].et)
        val a1 =
          if (relJ) { ...acc, nu: acc.nu + 1, eqs: acc.eqs.append(acc.s.m),
                      s: { ...acc.s, t: unk(acc.nu + 1) } }
          else acc
        // vertical support
        val dv = 2 * i
        val a2 =
          if (held(b, dv)) { ...a1, nu: a1.nu + 1,
            eqs: a1.eqs.append(vconst(a1.s.v, if (b.dset[dv] == 1) -fromMicro(b.disp[dv]) else 0)),
            s: { ...a1.s, q: vadd(a1.s.q, unk(a1.nu + 1)) },
            rc: a1.rc.append(unk(a1.nu + 1)) }
          else if (b.rest[dv] > 0) {
            val f = vscale(-fromMicro(b.rest[dv]), a1.s.v)
            { ...a1, s: { ...a1.s, q: vadd(a1.s.q, f) }, rc: a1.rc.append(f) }
          } else { ...a1, rc: a1.rc.append(zero) }
        // rotational support (an anticlockwise couple c lowers M to the right)
        val dt = 2 * i + 1
        val a3 =
          if (held(b, dt)) { ...a2, nu: a2.nu + 1,
            eqs: a2.eqs.append(vconst(a2.s.t, if (b.dset[dt] == 1) -fromMicro(b.disp[dt]) else 0)),
            s: { ...a2.s, m: vaxpy(a2.s.m, -ONE, unk(a2.nu + 1)) },
            rc: a2.rc.append(unk(a2.nu + 1)) }
          else if (b.rest[dt] > 0) {
            val c = vscale(-fromMicro(b.rest[dt]), a2.s.t)
            { ...a2, s: { ...a2.s, m: vaxpy(a2.s.m, -ONE, c) }, rc: a2.rc.append(c) }
          } else { ...a2, rc: a2.rc.append(zero) }
        val a4 = { ...a3, nd: a3.nd.append(a3.s.v).append(a3.s.t) }
        if (last) { ...a4, eqs: a4.eqs.append(a4.s.m).append(a4.s.q) }
        else {
          val sp = b.spans[i]
          val a5 =
            if (releaseI(sp.et)) { ...a4, nu: a4.nu + 1, eqs: a4.eqs.append(a4.s.m),
                                   s: { ...a4.s, t: unk(a4.nu + 1) } }
            else a4
          val pr = primOf(sp.L, i, lm)
          val h = propagate(sp, pr, breaksOf(sp, pr, []), a5.s)
          { ...a5, st: a5.st.append(a5.s), s: h[h.length() - 1].hi }
        }
      })
    val r = solveLin(fin.eqs, n)
    if (not(r.ok)) noSol
    else { ok: true,
           node: fin.nd.foldl([], (l, a) => l.append(at(a, r.u))),
           react: fin.rc.foldl([], (l, a) => l.append(at(a, r.u))),
           starts: fin.st.foldl([], (l, s) => l.append(atSt(s, r.u))) }
  }

  /// state (before / after point actions) at the requested stations of member i
  pure def diagram(b: Beam, lm: List[Row], sol: Sol, i: int, xs: List[int]): List[Obs] = {
    val sp = b.spans[i]
    val pr = primOf(sp.L, i, lm)
    propagate(sp, pr, breaksOf(sp, pr, xs), sol.starts[i]).select(o => lcontains(xs, o.x))
  }

  // ---- derived global quantities --------------------------------------------------
  pure def nodeX(b: Beam, i: int): int = range(0, i).foldl(0, (s, k) => s + b.spans[k].L)
  pure def totalL(b: Beam): int = nodeX(b, b.spans.length())
  /// resultant of the vertical loads and their moment about x = 0 (loads down,
  /// couples anticlockwise positive)
  pure def resultant(b: Beam, lm: List[Row]): { f: int, m: int } =
    range(0, b.spans.length()).foldl({ f: 0, m: 0 }, (acc, i) => {
      val pr = primOf(b.spans[i].L, i, lm)
      val x0 = fromMicro(nodeX(b, i))
      val d = pr.ds.foldl(acc, (s, d) => {
        val c = fromMicro(d.b - d.a)
        val f = fmul(d.wa + d.wb, c) / 2
        // centroid: c/3 * (wa + 2 wb)/(wa + wb) -> first moment directly
        val fm = fmul(fmul(d.wa + 2 * d.wb, c), c) / 6
        { f: s.f + f, m: s.m + fmul(f, x0 + fromMicro(d.a)) + fm }
      })
      pr.ps.foldl(d, (s, p) =>
        { f: s.f + p.p, m: s.m + fmul(p.p, x0 + fromMicro(p.a)) - p.m })
    })
}
