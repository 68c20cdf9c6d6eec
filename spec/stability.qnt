/// Enumeration of every support / release arrangement of small beams: each state
/// is one arrangement, the specification says whether it is a mechanism.
/// Independent of the elastic solution: `mechanismFree` counts rigid-body modes
/// kinematically, and the invariant ties it to the solvability of the solution.
module stability {
  import fx.* from "./fx"
  import mechanics.* from "./mechanics"

  var k: int          // index of the arrangement
  var last: int       // last index of this chunk
  var shape: Shape
  var beam: Beam
  var stable: bool
  var mm: bool        // written in N and mm
  var link: int       // member with a very much stiffer section, -1 for none
  type Shape = { n: int, vals: int }

  pure def pow(b: int, e: int): int = range(0, e).foldl(1, (a, i) => a * b)
  pure def count(s: Shape): int = pow(4, s.n) * pow(s.vals, 2 * (s.n + 1))
  /// vals = 2: free/rigid; 3: free/rigid/spring; 4: also imposed displacement
  pure def decode(s: Shape, i: int): Beam = {
    val dofs = 2 * (s.n + 1)
    val sup = i / pow(4, s.n)
    val digs = range(0, dofs).foldl([], (acc, d) => acc.append((sup / pow(s.vals, d)) % s.vals))
    { spans: range(0, s.n).foldl([], (acc, j) =>
        acc.append(member(s, i, j))),
      rest: range(0, dofs).foldl([], (acc, d) => acc.append(
        if (digs[d] == 1) -1000000 else if (digs[d] == 2) spring(i, d) else 0)),
      dset: lmap(digs, x => if (x == 3) 1 else 0),
      disp: lmap(digs, x => if (x == 3 and i % 2 == 0) -4000 else 0) }
  }
  /// The kind of member and the units are no part of the verdict, so they vary
  /// along the enumeration: plain, sheared or stepped members; in kN and m, or a
  /// stiffer girder on softer springs written in N and mm.
  pure def mix(i: int): int = i + i / 4 + i / 16 + i / 48 + i / 144 + i / 432
  /// nor are the sizes of the stiffnesses: here one member is stiffer by far
  /// (in bending: neither springs nor shear go with it)
  pure def linkOf(s: Shape, i: int): int = {
    val j = i % s.n
    val b = decode(s, i)
    if (mix(i) % 5 < 3 and b.spans[j].ga == [] and b.rest.foldl(true, (a, r) => a and r <= 0)) j else -1
  }
  pure def inMm(i: int): bool = (mix(i) / 3) % 2 == 1
  pure def member(s: Shape, i: int, j: int): Span = {
    val L = 3000000 + 2500000 * j
    val y = if (inMm(i)) 3000000000000 else 30000000000
    val plain = prismatic(L, y, 1 + (i / pow(4, j)) % 4)
    val kind = (mix(i) + j) % 3
    if (kind == 1) { ...plain, ga: constSec(L, 200000000000) }
    else if (kind == 2) { ...plain, ei: [{ x0: 0, x1: 1000000, xs: [0], ys: [2 * y] },
                                         { x0: 1000000, x1: L, xs: [0], ys: [y] }] }
    else plain
  }
  pure def spring(i: int, d: int): int = if (inMm(i) and d % 2 == 0) 1000000 else 2000000000

  // ---- kinematic (rigid-body) criterion -------------------------------------
  /// A released, load-free beam moves without strain exactly when its bars can
  /// rotate as rigid bodies: unknowns are the start deflection, one rotation per
  /// bar and, where neither bar is rigidly joined to it, the node rotation.
  pure def eff(b: Beam, d: int): bool = b.rest[d] != 0 or b.dset[d] == 1
  pure def kinRows(b: Beam): List[List[int]] = {
    val n = b.spans.length()
    val w = 2 * n + 3   // const, v0, bar rotations, node rotations
    pure def bar(i: int): int = 2 + i
    pure def node(i: int): int = n + 2 + i
    // zero deflection at supported nodes
    val rv = range(0, n + 1).foldl([], (acc, i) =>
      if (not(eff(b, 2 * i))) acc
      else acc.append(range(0, w).foldl([], (r, c) =>
        r.append(if (c == 1) ONE
                 else if (c >= 2 and c < 2 + i) fromMicro(b.spans[if (c - 2 < n) c - 2 else 0].L) else 0))))
    val rt = range(0, n + 1).foldl(rv, (acc, i) =>
      if (eff(b, 2 * i + 1)) acc.append(unitVec(node(i), w, ONE)) else acc)
    // rigid joints: bar rotation equals node rotation
    range(0, n).foldl(rt, (acc, i) => {
      val a1 = if (releaseI(b.spans[i].et)) acc
               else acc.append(vadd(unitVec(bar(i), w, ONE), unitVec(node(i), w, -ONE)))
      if (releaseJ(b.spans[i].et)) a1
      else a1.append(vadd(unitVec(bar(i), w, ONE), unitVec(node(i + 1), w, -ONE)))
    })
  }
  /// column rank by elimination
  pure def rank(rows: List[List[int]], w: int): int =
    range(1, w).foldl({ rows: rows, r: 0 }, (acc, c) => {
      val n = acc.rows.length()
      val piv = range(acc.r, n).foldl(-1, (p, i) =>
        if (acc.rows[i][c] != 0 and (p < 0 or iabs(acc.rows[i][c]) > iabs(acc.rows[p][c]))) i else p)
      if (piv < 0) acc
      else if (iabs(acc.rows[piv][c]) < 1000000000000000000000000) acc
      else {
        val prow = acc.rows[piv]
        val sw = acc.rows.replaceAt(piv, acc.rows[acc.r]).replaceAt(acc.r, prow)
        { rows: range(acc.r + 1, n).foldl(sw, (rs, i) =>
            rs.replaceAt(i, vaxpy(rs[i], -fdiv(rs[i][c], prow[c]), prow))), r: acc.r + 1 }
      }
    }).r
  pure def mechanismFree(b: Beam): bool = {
    // columns: constant, v0, n bar rotations, n+1 node rotations
    val w = 2 * b.spans.length() + 3
    rank(kinRows(b), w) == w - 1
  }

  action visit(s: Shape, i: int, z: int): bool = all {
    k' = i, last' = z, shape' = s, beam' = decode(s, i), mm' = inMm(i), link' = linkOf(s, i), stable' = solveBeam(decode(s, i), []).ok }
  action chunk(s: Shape, c: int, nch: int): bool =
    visit(s, count(s) * c / nch, count(s) * (c + 1) / nch - 1)
  action step = visit(shape, if (k < last) k + 1 else k, last)

  action one3 = chunk({ n: 1, vals: 4 }, 0, 1)
  action two0 = chunk({ n: 2, vals: 2 }, 0, 2)
  action two1 = chunk({ n: 2, vals: 2 }, 1, 2)
  action big0 = chunk({ n: 2, vals: 3 }, 0, 8)
  action big1 = chunk({ n: 2, vals: 3 }, 1, 8)
  action big2 = chunk({ n: 2, vals: 3 }, 2, 8)
  action big3 = chunk({ n: 2, vals: 3 }, 3, 8)
  action big4 = chunk({ n: 2, vals: 3 }, 4, 8)
  action big5 = chunk({ n: 2, vals: 3 }, 5, 8)
  action big6 = chunk({ n: 2, vals: 3 }, 6, 8)
  action big7 = chunk({ n: 2, vals: 3 }, 7, 8)
  action three0 = chunk({ n: 3, vals: 2 }, 0, 8)
  action three1 = chunk({ n: 3, vals: 2 }, 1, 8)
  action three2 = chunk({ n: 3, vals: 2 }, 2, 8)
  action three3 = chunk({ n: 3, vals: 2 }, 3, 8)
  action three4 = chunk({ n: 3, vals: 2 }, 4, 8)
  action three5 = chunk({ n: 3, vals: 2 }, 5, 8)
  action three6 = chunk({ n: 3, vals: 2 }, 6, 8)
  action three7 = chunk({ n: 3, vals: 2 }, 7, 8)

  val kinematic = stable == mechanismFree(beam)
}
