/// Building a variable-section profile segment by segment: which definitions
/// are accepted, what the profile is at every coordinate, and where its
/// integration breakpoints lie.
module section {
  import fx.* from "./fx"

  /// one accepted segment: kind, stations and values (micro), integer degree (-1: default)
  type Seg = { kind: str, xs: List[int], ys: List[int], deg: int }
  /// one smooth piece: the polynomial through (xs, ys)
  type Piece = { xs: List[int], ys: List[int] }
  type Call = { name: str, kind: str, xs: List[int], ys: List[int], deg: int, near: int, ok: bool }
  type Probe = { x: int, lo: int, hi: int }

  var segs: List[Seg]
  var call: Call
  var bps: List[int]
  var probes: List[Probe]
  var flat: bool

  pure def ival(a: int, b: int): List[int] = [a, b]
  pure def first(p: Piece): int = p.xs[0]
  pure def last(p: Piece): int = p.xs[p.xs.length() - 1]
  pure def endOf(ss: List[Seg]): int =
    if (ss.length() == 0) 0 else ss[ss.length() - 1].xs[ss[ss.length() - 1].xs.length() - 1]
  /// the value of the polynomial through the points, in fixed point
  pure def through(p: Piece, x: int): int =
    range(0, p.xs.length()).foldl(0, (a, i) => a +
      range(0, p.xs.length()).foldl(fromMicro(p.ys[i]), (b, j) =>
        if (i == j) b else b * (x - p.xs[j]) / (p.xs[i] - p.xs[j])))
  pure def piecesOf(s: Seg): List[Piece] =
    if (s.kind == "const") [{ xs: s.xs, ys: [s.ys[0], s.ys[0]] }]
    else if (s.kind == "linear" or s.kind == "pwl")
      range(0, s.xs.length() - 1).foldl([], (a, i) => a.append({ xs: s.xs.slice(i, i + 2), ys: s.ys.slice(i, i + 2) }))
    else [{ xs: s.xs, ys: s.ys }]
  pure def allPieces(ss: List[Seg]): List[Piece] =
    ss.foldl([], (a, s) => a.concat(piecesOf(s)))
  pure def breaksOf(ss: List[Seg]): List[int] =
    allPieces(ss).foldl(if (ss.length() == 0) [] else [0], (a, p) => a.append(last(p)))
  /// the segment that covers a coordinate; at a step the one that ends there
  pure def at(ps: List[Piece], x: int): int =
    ps.foldl({ done: false, v: 0 }, (a, p) =>
      if (a.done or x < first(p) or x > last(p)) a else { done: true, v: through(p, x) }).v
  pure def probesOf(ss: List[Seg]): List[Probe] = {
    val ps = allPieces(ss)
    val b = breaksOf(ss)
    val xs = range(0, b.length() - 1).foldl(b, (a, i) => {
      val d = b[i + 1] - b[i]
      a.concat([b[i] + 1, b[i] + d / 7, (b[i] + b[i + 1]) / 2, b[i] + 5 * d / 6, b[i + 1] - 1])
    })
    if (ss.length() == 0) [] else xs.foldl([], (a, x) => a.append({ x: x, lo: toPico(at(ps, x)), hi: toPico(at(ps, x)) }))
  }
  pure def isFlat(ss: List[Seg]): bool = {
    val ps = allPieces(ss)
    ps.length() > 0 and ss.foldl(true, (b, s) => b and s.kind == "const") and
      ps.foldl(true, (b, p) => b and p.ys[0] == ps[0].ys[0])
  }

  action enter(c: Call, ss: List[Seg]): bool = all {
    segs' = ss, call' = c, bps' = breaksOf(ss), probes' = probesOf(ss), flat' = isFlat(ss) }
  action refuse(k: str, xs: List[int], ys: List[int], deg: int): bool = all {
    segs' = segs, bps' = bps, probes' = probes, flat' = flat,
    call' = { name: "add", kind: k, xs: xs, ys: ys, deg: deg, near: 0, ok: false } }
  action accept(k: str, xs: List[int], ys: List[int], deg: int, near: int): bool =
    enter({ name: "add", kind: k, xs: xs, ys: ys, deg: deg, near: if (segs.length() == 0) 0 else near, ok: true },
        segs.append({ kind: k, xs: xs, ys: ys, deg: deg }))

  pure val noCall: Call = { name: "init", kind: "", xs: [], ys: [], deg: -1, near: 0, ok: true }
  action init = enter(noCall, [])

  pure val LEN = Set(400000, 1000000, 1250000, 3700000)
  pure val VAL = Set(250000000, 1000000000, 1000100000, 3000000000, 17500000000)
  pure def stations(x0: int, n: int, d: int -> int): List[int] =
    range(0, n).foldl([x0], (a, i) => a.append(a[i] + d.get(i)))

  action addConst = {
    nondet d = LEN.oneOf()
    nondet y = VAL.oneOf()
    nondet near = Set(-1, 0, 1).oneOf()
    accept("const", [endOf(segs), endOf(segs) + d], [y], -1, near)
  }
  action addLinear = {
    nondet d = LEN.oneOf()
    nondet y = VAL.oneOf()
    nondet z = VAL.oneOf()
    nondet near = Set(-1, 0, 1).oneOf()
    accept("linear", [endOf(segs), endOf(segs) + d], [y, z], -1, near)
  }
  action addPwl = {
    nondet n = Set(1, 2, 3).oneOf()
    nondet d = Set(0, 1, 2).setOfMaps(LEN).oneOf()
    nondet y = Set(0, 1, 2, 3).setOfMaps(VAL).oneOf()
    nondet near = Set(-1, 0, 1).oneOf()
    accept("pwl", stations(endOf(segs), n, d), range(0, n + 1).foldl([], (a, i) => a.append(y.get(i))), -1, near)
  }
  /// a polynomial bounded away from zero through 2 to 5 points
  pure val GENTLE = Set(1000000000, 1100000000, 1200000000)
  action addPoly = {
    nondet n = Set(1, 2, 3, 4).oneOf()
    nondet d = Set(0, 1, 2, 3).setOfMaps(Set(1000000, 1250000, 1500000)).oneOf()
    nondet y = Set(0, 1, 2, 3, 4).setOfMaps(GENTLE).oneOf()
    nondet near = Set(-1, 0, 1).oneOf()
    accept("poly", stations(endOf(segs), n, d), range(0, n + 1).foldl([], (a, i) => a.append(y.get(i))), -1, near)
  }
  /// a rule of the form a + b*t/T + c*(t/T)^2, handed over as a function or as
  /// more samples than its degree needs
  action addRule = {
    nondet how = Set("rule", "samples").oneOf()
    nondet T = LEN.oneOf()
    nondet a = Set(800000000, 2000000000).oneOf()
    nondet b = Set(-600000000, 0, 900000000).oneOf()
    nondet c = Set(0, 400000000, 1600000000).oneOf()
    nondet deg = Set(-1, 2, 4).oneOf()
    val x = endOf(segs)
    val xs = if (how == "rule") [x, x + T / 2, x + T] else [x, x + T / 4, x + T / 2, x + 3 * T / 4, x + T]
    val ys = range(0, xs.length()).foldl([], (l, i) => {
      val t = if (how == "rule") 2 * i else i
      l.append(a + b * t / 4 + c * t * t / 16) })
    accept(how, xs, ys, if (how == "samples") 2 else deg, 0)
  }
  /// definitions that are not segments of this profile
  action addWrong = {
    nondet why = Set("gap", "overlap", "restart", "order", "repeat", "count", "zero", "negative", "three", "vector", "kind", "one", "none", "dip").oneOf()
    nondet k = Set("const", "linear", "pwl", "poly").oneOf()
    nondet d = LEN.oneOf()
    nondet y = VAL.oneOf()
    val x = endOf(segs)
    val ys = if (k == "const") [y] else [y, y]
    if (why == "gap") refuse(k, [x + 10000, x + 10000 + d], ys, -1)
    else if (why == "overlap") refuse(k, [x - 200000, x + d], ys, -1)
    else if (why == "restart") refuse(k, if (x == 0) [1000, d] else [0, d], ys, -1)
    else if (why == "order") refuse(k, [x, x - d], ys, -1)
    else if (why == "repeat") refuse(if (k == "const") k else "pwl", [x, x + d, x + d], if (k == "const") ys else [y, y, y], -1)
    else if (why == "count") refuse(if (k == "const") "linear" else k, [x, x + d], [y, y, y], -1)
    else if (why == "zero") refuse(k, [x, x + d], if (k == "const") [0] else [y, 0], -1)
    else if (why == "negative") refuse(k, [x, x + d], if (k == "const") [-y] else [-y, y], -1)
    else if (why == "three") refuse("linear", [x, x + d, x + 2 * d], [y, y, y], -1)
    else if (why == "vector") refuse("const", [x, x + d], [y, y], -1)
    else if (why == "kind") refuse("cubic", [x, x + d], ys, -1)
    else if (why == "one") refuse(k, [x], [y], -1)
    else if (why == "none") refuse(k, [], [], -1)
    else refuse("poly", [x, x + d / 4, x + d], [1000000000, 50000000, 1000000000], -1)
  }
  /// the profile is given to a span of some length
  action attach = {
    nondet off = Set(0, 20000, -300000).oneOf()
    nondet as = Set("EI", "GAv").oneOf()
    val c = { name: "attach", kind: as, xs: [endOf(segs) + off], ys: [], deg: -1, near: 0, ok: segs.length() > 0 and off == 0 }
    all { endOf(segs) + off > 0, enter(c, segs) }
  }
  action rebuild = {
    nondet form = Set("tuples", "dicts").oneOf()
    all { segs.length() > 0, enter({ ...noCall, name: "rebuild", kind: form }, segs) }
  }
  action step = if (segs.length() > 5) any { attach, rebuild, addWrong, init }
    else any { addConst, addLinear, addPwl, addPoly, addRule, addWrong, addWrong, attach, rebuild }

  /// accepted segments tile the profile, and it passes through every station
  val tiled = range(0, segs.length()).foldl(true, (b, i) =>
    b and segs[i].xs[0] == (if (i == 0) 0 else segs[i - 1].xs[segs[i - 1].xs.length() - 1]))
  val positive = probes.foldl(true, (b, p) => b and p.lo > 0)
  val nodal = allPieces(segs).foldl(true, (b, p) =>
    b and range(0, p.xs.length()).foldl(true, (c, i) => c and iabs(through(p, p.xs[i]) - fromMicro(p.ys[i])) < 1000))
}
