/// Free vibration of a continuous beam, by the exact dynamic stiffness of
/// each span (power series of  EI v'''' = (m w^2 - kf) v) and the
/// Wittrick-Williams count of natural frequencies below a trial value.
/// Nothing is discretised: the implementation's finite-element frequencies
/// must lie above the exact ones, and close to them.
module vibration {
  import fx.* from "./fx"

  /// lengths, rigidities, masses, foundation (micro) per span; restraints as elsewhere
  type Frame = { L: List[int], ei: List[int], m: List[int], kf: List[int], rest: List[int], dset: List[int] }
  /// one stretch between two nodes of the dynamic model
  type Bar = { l: int, ei: int, m: int, kf: int }
  /// transfer functions at the end of a bar: f0..f3 and p
  type Fn = { p: int, f: List[int] }

  /// clamped-clamped frequency parameters (beta l)^4, fixed point
  pure val CLAMPED: List[int] = [
    5005639017404271 * 1000000000000000000000000000, 38035370805023 * 1000000000000000000000000000000,
    146176301311223 * 1000000000000000000000000000000, 399437990057097 * 1000000000000000000000000000000,
    891354076672000 * 1000000000000000000000000000000, 1738813155726000 * 1000000000000000000000000000000 ]

  pure def power(x: int, n: int): int = range(0, n).foldl(ONE, (a, i) => fmul(a, x))
  /// f_i(x) = sum_j p^j x^(4j+i) / (4j+i)!
  pure def fns(p: int, x: int): List[int] = {
    val z = fmul(p, power(x, 4))
    pure def ser(i: int, lead: int): int =
      range(0, 14).foldl({ t: lead, s: lead }, (a, j) => {
        val k = 4 * j + i
        val t = fmul(a.t, z) / ((k + 1) * (k + 2) * (k + 3) * (k + 4))
        { t: t, s: a.s + t }
      }).s
    [ser(0, ONE), ser(1, x), ser(2, power(x, 2) / 2), ser(3, power(x, 3) / 6)]
  }
  pure def barFn(b: Bar, w2: int): Fn = {
    val p = fdiv(fmul(fromMicro(b.m), w2) - fromMicro(b.kf), fromMicro(b.ei))
    { p: p, f: fns(p, fromMicro(b.l)) }
  }
  /// rows of the initial curvature and its slope in terms of [v0, t0, v1, t1]
  pure def starts(g: Fn): List[List[int]] = {
    val f = g.f
    val d = fmul(f[2], f[2]) - fmul(f[1], f[3])
    // v1 = v0 f0 + t0 f1 + k f2 + s f3 ; t1 = v0 p f3 + t0 f0 + k f1 + s f2
    val pf3 = fmul(g.p, f[3])
    val A = [-f[0], -f[1], ONE, 0]
    val B = [-pf3, -f[0], 0, ONE]
    [ range(0, 4).foldl([], (l, i) => l.append(fdiv(fmul(A[i], f[2]) - fmul(B[i], f[3]), d))),
      range(0, 4).foldl([], (l, i) => l.append(fdiv(fmul(B[i], f[2]) - fmul(A[i], f[1]), d))) ]
  }
  pure def combo(a: int, x: List[int], b: int, y: List[int], c: List[int]): List[int] =
    range(0, 4).foldl([], (l, i) => l.append(fmul(a, x[i]) + fmul(b, y[i]) + c[i]))
  /// 4x4 dynamic stiffness of a bar
  pure def stiff(b: Bar, w2: int): List[List[int]] = {
    val g = barFn(b, w2)
    val s = starts(g)
    val pf1 = fmul(g.p, g.f[1])
    val pf2 = fmul(g.p, g.f[2])
    val pf3 = fmul(g.p, g.f[3])
    val k1 = combo(g.f[0], s[0], g.f[1], s[1], [pf2, pf3, 0, 0])
    val s1 = combo(pf3, s[0], g.f[0], s[1], [pf1, pf2, 0, 0])
    val e = fromMicro(b.ei)
    [vscale(e, s[1]), vscale(-e, s[0]), vscale(-e, s1), vscale(e, k1)]
  }
  pure def clampedBelow(b: Bar, w2: int): int = {
    val p = fdiv(fmul(fromMicro(b.m), w2) - fromMicro(b.kf), fromMicro(b.ei))
    val z = fmul(p, power(fromMicro(b.l), 4))
    CLAMPED.foldl(0, (a, c) => if (z > c) a + 1 else a)
  }

  // ---- the structure ----------------------------------------------------------
  /// every span in two unequal bars, so that inner nodes see its own motion
  pure def barsOf(s: Frame): List[Bar] =
    range(0, s.L.length()).foldl([], (a, i) =>
      a.append({ l: s.L[i] * 5 / 12, ei: s.ei[i], m: s.m[i], kf: s.kf[i] })
       .append({ l: s.L[i] - s.L[i] * 5 / 12, ei: s.ei[i], m: s.m[i], kf: s.kf[i] }))
  /// support of node k of the refined model (two bars per span)
  pure def holdOf(s: Frame, k: int, d: int): int =
    if (k % 2 == 1) 0 else if (s.dset[k + d] == 1) -1 else s.rest[k + d]
  type Band = { rows: List[List[int]], neg: int }
  /// assembled band matrix: row i holds columns i .. i+3
  pure def assemble(s: Frame, w2: int): List[List[int]] = {
    val bars = barsOf(s)
    val n = 2 * (bars.length() + 1)
    val zero = range(0, n).foldl([], (a, i) => a.append([0, 0, 0, 0]))
    val k = range(0, bars.length()).foldl(zero, (z, b) => {
      val kb = stiff(bars[b], w2)
      range(0, 4).foldl(z, (y, i) => y.replaceAt(2 * b + i,
        range(0, 4).foldl([], (r, c) => r.append(y[2 * b + i][c] + (if (i + c < 4) kb[i][i + c] else 0)))))
    })
    range(0, n).foldl(k, (z, i) => {
      val h = holdOf(s, i / 2, i % 2)
      if (h >= 0) (if (h == 0) z else z.replaceAt(i, z[i].replaceAt(0, z[i][0] + fromMicro(h))))
      else range(1, 4).foldl(z.replaceAt(i, [ONE, 0, 0, 0]), (y, c) =>
        if (i - c < 0) y else y.replaceAt(i - c, y[i - c].replaceAt(c, 0)))
    })
  }
  pure def held(s: Frame, i: int): bool = holdOf(s, i / 2, i % 2) < 0
  /// symmetric elimination of the band; the negative pivots are counted
  pure def eliminate(k: List[List[int]]): Band =
    range(0, k.length()).foldl({ rows: k, neg: 0 }, (a, i) => {
      val p = a.rows[i]
      { neg: if (p[0] < 0) a.neg + 1 else a.neg,
        rows: range(1, 4).foldl(a.rows, (z, r) =>
          if (i + r >= k.length() or p[r] == 0) z
          else z.replaceAt(i + r, range(0, 4).foldl([], (l, c) =>
            l.append(z[i + r][c] - (if (r + c < 4) p[r] * p[r + c] / p[0] else 0))))) }
    })
  /// natural frequencies below sqrt(w2)
  pure def below(s: Frame, w2: int): int =
    barsOf(s).foldl(eliminate(assemble(s, w2)).neg, (a, b) => a + clampedBelow(b, w2))
  /// w^2 of mode k (from 1), fixed point: doubling, then halving the interval
  pure def bracket(s: Frame, k: int, lo0: int, hi0: int): int = {
    val hi = range(0, 60).foldl({ ok: false, w: hi0 }, (a, i) =>
      if (a.ok) a else if (below(s, a.w) >= k) { ok: true, w: a.w } else { ok: false, w: 2 * a.w }).w
    val r = range(0, 36).foldl({ lo: lo0, hi: hi }, (a, i) => {
      val c = (a.lo + a.hi) / 2
      if (a.hi - a.lo < a.hi / 2000000000) a else if (below(s, c) >= k) { lo: a.lo, hi: c } else { lo: c, hi: a.hi } })
    (r.lo + r.hi) / 2
  }
  pure val TINY: int = MICRO * 100
  /// w^2 of the first n modes; motion without restoring force counts as zero
  pure def modesOf(s: Frame, n: int): List[int] =
    range(1, n + 1).foldl([], (a, k) => {
      val prev = if (a.length() == 0) TINY else imax(TINY, a[a.length() - 1] - a[a.length() - 1] / 500000000)
      if (below(s, TINY) >= k) a.append(0) else a.append(bracket(s, k, prev, imax(prev * 2, ONE)))
    })

  // ---- mode shapes ---------------------------------------------------------------
  /// solution for an arbitrary excitation next to the natural frequency: the mode
  type Sys = { rows: List[List[int]], r: List[int] }
  pure def forward(k: List[List[int]], r0: List[int]): Sys =
    range(0, k.length()).foldl({ rows: k, r: r0 }, (a, i) => {
      val p = a.rows[i]
      range(1, 4).foldl(a, (z, j) =>
        if (i + j >= k.length() or p[j] == 0) z
        else { rows: z.rows.replaceAt(i + j, range(0, 4).foldl([], (l, c) =>
                 l.append(z.rows[i + j][c] - (if (j + c < 4) p[j] * p[j + c] / p[0] else 0)))),
               r: z.r.replaceAt(i + j, z.r[i + j] - p[j] * z.r[i] / p[0]) })
    })
  /// next unknown, those after it being known (in order)
  pure def before(y: Sys, i: int, known: List[int]): int =
    fdiv(range(1, 4).foldl(y.r[i], (s, c) => if (c > known.length()) s else s - fmul(y.rows[i][c], known[c - 1])), y.rows[i][0])
  pure def backward(y: Sys): List[int] = {
    val n = y.r.length()
    range(0, n).foldl([], (known, t) => [before(y, n - 1 - t, known)].concat(known)) }
  pure def swing(s: Frame, w2: int): List[int] = {
    val k = assemble(s, w2 + w2 / 100000000)
    val r0 = range(0, k.length()).foldl([], (a, i) => a.append(if (held(s, i)) 0 else ONE * (1 + (7 * i) % 5)))
    val x = backward(forward(k, r0))
    val big = x.foldl(0, (a, v) => imax(a, iabs(v)))
    x.foldl([], (a, v) => a.append(fdiv(v, big)))
  }
  /// deflections at the ends and at `n` equal stations of every span
  pure def shapeOf(s: Frame, w2: int, n: int): List[int] = {
    val d = swing(s, w2)
    val bars = barsOf(s)
    range(0, s.L.length()).foldl([d[0]], (a, i) =>
      range(1, n + 1).foldl(a, (l, j) => {
        val inFirst = 12 * j <= 5 * n
        val b = if (inFirst) 2 * i else 2 * i + 1
        val x = s.L[i] * j / n - (if (inFirst) 0 else s.L[i] * 5 / 12)
        val g = barFn(bars[b], w2)
        val st = starts(g)
        val q = [d[2 * b], d[2 * b + 1], d[2 * b + 2], d[2 * b + 3]]
        val f = fns(g.p, fromMicro(x))
        l.append(fmul(q[0], f[0]) + fmul(q[1], f[1]) + fmul(dot(st[0], q), f[2]) + fmul(dot(st[1], q), f[3]))
      }))
  }
}

module modal {
  import fx.* from "./fx"
  import vibration.* from "./modal"

  type Call = { name: str, n: int, nseg: int, a: List[int], ok: bool }
  type Mode = { w2: int, shape: List[int] }     // w2 in pico; shape in pico at sixth points of every span

  var beam: Frame
  var kind: str           // what makes the beam untreatable, if anything
  var call: Call
  var modes: List[Mode]

  pure val noCall: Call = { name: "init", n: 0, nseg: 0, a: [], ok: true }
  pure def results(b: Frame, n: int): List[Mode] =
    modesOf(b, n).foldl([], (a, w) => a.append({ w2: toPico(w), shape: if (w == 0) [] else lmap(shapeOf(b, w, 6), x => toPico(x)) }))

  pure def supports(k: int): List[int] =
    if (k < 5) [-1000000, 0] else if (k == 5) [-1000000, -1000000] else if (k == 6) [2000000000, 0]
    else if (k == 7) [0, 0] else if (k == 8) [0, -1000000] else if (k == 9) [-1000000, 30000000000] else [50000000000, 10000000000]
  action init = {
    nondet n = Set(1, 2, 3, 3, 5).oneOf()
    nondet L = 0.to(4).setOfMaps(Set(4000000, 6000000, 9000000)).oneOf()
    nondet ei = 0.to(4).setOfMaps(Set(8000000000, 24000000000, 50000000000)).oneOf()
    nondet m = 0.to(4).setOfMaps(Set(500000, 1300000, 2000000)).oneOf()
    nondet kf = 0.to(4).setOfMaps(Set(0, -1, -2, 900000000, 12000000000)).oneOf()
    nondet uniform = Set(true, false).oneOf()
    nondet s = 0.to(5).setOfMaps(0.to(10)).oneOf()
    nondet held = 0.to(9).oneOf()
    nondet bad = 0.to(11).oneOf()
    val rest = range(0, n + 1).foldl([], (a, i) => a.concat(supports(s.get(i))))
    all {
      beam' = { L: range(0, n).foldl([], (a, i) => a.append(L.get(i))), ei: range(0, n).foldl([], (a, i) => a.append(ei.get(if (uniform) 0 else i))),
                m: range(0, n).foldl([], (a, i) => a.append(m.get(if (uniform) 0 else i))), kf: range(0, n).foldl([], (a, i) => a.append(imax(0, kf.get(i)))),
                rest: rest, dset: lmap(range(0, rest.length()), i => if (i == held and i < rest.length()) 1 else 0) },
      kind' = if (bad == 0) "section" else if (bad == 1) "shear" else if (bad == 2) "release" else "plain",
      call' = noCall, modes' = [] }
  }
  action ask = {
    nondet n = Set(1, 2, 3, 4).oneOf()
    nondet nseg = Set(12, 18, 24).oneOf()
    val ok = kind == "plain"
    val r = if (ok) results(beam, n + 1) else modes
    all { call' = { name: "ask", n: n, nseg: nseg, a: [], ok: ok }, modes' = r, beam' = beam, kind' = kind }
  }
  /// one mass for each span has to be given
  action askShort = all { beam.L.length() > 1,
    call' = { name: "ask_short", n: 2, nseg: 12, a: [], ok: false }, modes' = modes, beam' = beam, kind' = kind }
  action resupport = {
    nondet k = 0.to(beam.L.length()).oneOf()
    nondet s = 0.to(10).oneOf()
    val r = beam.rest.replaceAt(2 * k, supports(s)[0]).replaceAt(2 * k + 1, supports(s)[1])
    all { beam' = { ...beam, rest: r }, call' = { ...noCall, name: "resupport", a: [k, s] }, modes' = modes, kind' = kind }
  }
  /// loads play no part
  action load = all { beam' = beam, kind' = kind, modes' = modes, call' = { ...noCall, name: "load" } }
  action step = if (call.name == "ask") any { resupport, load, askShort } else any { ask, ask, ask, resupport, load }

  /// in order, and each one is where the count passes its number
  val ascending = modes.length() == 0 or range(1, modes.length()).foldl(true, (b, i) => b and modes[i].w2 >= modes[i - 1].w2)
  val counted = (call.name == "ask" and call.ok) implies range(0, modes.length()).foldl(true, (b, i) =>
    b and (modes[i].w2 == 0 or below(beam, modes[i].w2 * PICO + modes[i].w2 * PICO / 10000000) > i))
}
