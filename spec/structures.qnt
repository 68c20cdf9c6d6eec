/// Families of structures, and what an observer sees of a solved one.
module structures {
  import fx.* from "./fx"
  import mechanics.* from "./mechanics"

  type Resultant = { f: int, m: int, rf: int, rm: int }
  /// member diagram observation in pico units; l/h = just before / after x
  type MObs = { i: int, x: int, ml: int, mh: int, ql: int, qh: int, t: int, v: int }

  pure val NST: int = 20
  pure def stations(L: int): List[int] = range(0, NST + 1).foldl([], (acc, k) => acc.append(L * k / NST))

  pure def observe(b: Beam, l: List[Row], s: Sol): List[MObs] =
    if (not(s.ok)) [] else
    range(0, b.spans.length()).foldl([], (acc, i) =>
      acc.concat(diagram(b, l, s, i, stations(b.spans[i].L)).foldl([], (a, o) =>
        a.append({ i: i, x: o.x, ml: toPico(o.lo.m[0]), mh: toPico(o.hi.m[0]),
                   ql: toPico(o.lo.q[0]), qh: toPico(o.hi.q[0]),
                   t: toPico(o.hi.t[0]), v: toPico(o.hi.v[0]) }))))
  pure def balance(b: Beam, l: List[Row], s: Sol): Resultant =
    if (not(s.ok)) { f: 0, m: 0, rf: 0, rm: 0 } else {
      val r = resultant(b, l)
      val n = nNodes(b)
      { f: r.f, m: r.m,
        rf: range(0, n).foldl(0, (a, i) => a + s.react[2 * i]),
        rm: range(0, n).foldl(0, (a, i) => a + fmul(s.react[2 * i], fromMicro(nodeX(b, i))) + s.react[2 * i + 1]) }
    }

  // ---- random structures ---------------------------------------------------------
  /// support kinds -> (rest v, rest th) in micro
  pure def restOf(k: int, ks: int, kr: int): (int, int) =
    if (k == 0) (0, 0)
    else if (k <= 5) (-1000000, 0)
    else if (k <= 7) (-1000000, -1000000)
    else if (k == 8) (ks, 0)
    else if (k == 9) (-1000000, kr)
    else if (k == 10) (ks, kr)
    else (0, -1000000)
  pure def mkBeam(n: int, L: int -> int, ei: int -> int, et: int -> int,
                  sup: int -> int, ks: int, kr: int, dk: int -> int): Beam = {
    val spans = range(0, n).foldl([], (acc, i) => acc.append(prismatic(L.get(i), ei.get(i), et.get(i))))
    val rest = range(0, n + 1).foldl([], (acc, i) => {
      val r = restOf(sup.get(i), ks, kr)
      acc.append(r._1).append(r._2)
    })
    // settlements of rigid DOFs (kinds 1, 2) or imposed on any DOF (3, 4)
    val dset = range(0, 2 * (n + 1)).foldl([], (acc, d) =>
      acc.append(if ((dk.get(d / 2) == 1 + d % 2 and rest[d] < 0) or dk.get(d / 2) == 3 + d % 2) 1 else 0))
    val disp = range(0, 2 * (n + 1)).foldl([], (acc, d) =>
      acc.append(if (dset[d] == 1) (if (rest[d] == 0 and (L.get(0) / 500000 + d) % 3 == 1) 0   // held where it is
                  else if (d % 2 == 0) -12000 + 2500 * d else 1500 - 700 * d) else 0))
    { spans: spans, rest: rest, dset: dset, disp: disp }
  }

  pure val LENGTHS = Set(2000000, 3500000, 5000000, 6000000, 8000000, 10000000, 12500000, 20000000)
  pure val RIGID = Set(12000000000, 30000000000, 45500000000, 210000000000)

  // ---- variable rigidity ---------------------------------------------------------
  /// rigidity patterns over a span of length L with reference value e
  pure def pattern(k: int, L: int, e: int): List[Piece] =
    if (k == 0) constSec(L, e)
    else if (k == 1) [{ x0: 0, x1: L * 3 / 10, xs: [0], ys: [2 * e] },
                      { x0: L * 3 / 10, x1: L, xs: [0], ys: [e] }]
    else if (k == 2) [{ x0: 0, x1: L, xs: [0, L], ys: [e, 3 * e] }]
    else if (k == 3) [{ x0: 0, x1: L / 4, xs: [0, L / 4], ys: [3 * e, e] },
                      { x0: L / 4, x1: L, xs: [L / 4, L], ys: [e, 2 * e] }]
    else if (k == 4) [{ x0: 0, x1: L, xs: [0, L / 2, L], ys: [3 * e, e, 2 * e] }]
    else if (k == 5) [{ x0: 0, x1: L / 5, xs: [0, L / 5], ys: [2 * e, e] },
                      { x0: L / 5, x1: L / 2, xs: [0], ys: [e] },
                      { x0: L / 2, x1: L, xs: [L / 2, L * 3 / 4, L], ys: [3 * e / 2, e, 5 * e / 2] }]
    else [{ x0: 0, x1: L / 2, xs: [0], ys: [e] }, { x0: L / 2, x1: L, xs: [0], ys: [e] }]

  // ---- load rows ---------------------------------------------------------------
  pure def rowOf(b: Beam, i: int, kind: int, w: int, w2: int, a: int, c: int): Row = {
    val L = b.spans[i].L
    val pa = L * a / 1000
    val pc = L * c / 1000
    if (kind == 1) [i + 1, 1, w]
    else if (kind == 2) [i + 1, 2, w, pa]
    else if (kind == 3) [i + 1, 3, w, pa, pc]
    else if (kind == 4) [i + 1, 4, w, pa]
    else if (kind == 5) [i + 1, 5, w, w2]
    else if (kind == 6) [i + 1, 5, w, w2, pa]
    else if (kind == 7) [i + 1, 5, w, w2, pa, pc]
    else if (kind == 8) [i + 1, 6, w / 40000]
    else if (kind == 9) [i + 1, 6, w / 40000, w2 / 300000]
    else [i + 1, 6, w / 40000, 0, w2 / 900000]
  }
}
