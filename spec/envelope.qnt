/// Algebra of envelopes.  Results are integer vectors over the stations of a
/// two-span beam; registers hold envelopes built, augmented, summed, combined.
module envelope {
  import fx.* from "./fx"

  pure val NS: int = 14                 // stations: 2 members x (4 intervals + closure)
  /// global coordinate of every station (halves)
  pure val XS: List[int] = [0, 0, 2, 4, 6, 8, 8, 8, 8, 10, 12, 14, 16, 16]
  pure val NSUP: int = 3
  type Result = { m: List[int], v: List[int], r: List[int] }
  type Env = { nres: int,
    mmax: List[int], mmin: List[int], vmax: List[int], vmin: List[int],
    vcomax: List[int], vcomin: List[int], mcomax: List[int], mcomin: List[int],
    rmax: List[List[int]], rmin: List[List[int]],   // [support][result]
    rmaxv: List[int], rminv: List[int],
    of: List[int], ghost: bool }      // results bounded (while only enveloped)
  type Call = { name: str, a: List[int], ok: bool }
  type Probe = { x: int, mmax: int, mmin: int, vmax: int, vmin: int }  // quarters

  var pool: List[Result]
  var regs: List[Env]
  var call: Call
  var probe: List[Probe]

  // ---- envelope of a list of results ------------------------------------------
  pure def pick(cond: int => bool, a: List[int], b: List[int]): List[int] =
    range(0, a.length()).foldl([], (acc, i) => acc.append(if (cond(i)) a[i] else b[i]))
  pure def zeros(n: int): List[int] = repeatInt(0, n)
  pure def zero2(n: int, m: int): List[List[int]] =
    range(0, n).foldl([], (acc, i) => acc.append(zeros(m)))
  pure def lmaxl(l: List[int]): int = l.foldl(l[0], (a, b) => imax(a, b))
  pure def lminl(l: List[int]): int = l.foldl(l[0], (a, b) => imin(a, b))

  pure def zeroEnv(nres: int): Env = { nres: nres,
    mmax: zeros(NS), mmin: zeros(NS), vmax: zeros(NS), vmin: zeros(NS),
    vcomax: zeros(NS), vcomin: zeros(NS), mcomax: zeros(NS), mcomin: zeros(NS),
    rmax: zero2(NSUP, nres), rmin: zero2(NSUP, nres), rmaxv: zeros(NSUP), rminv: zeros(NSUP),
    of: [], ghost: true }
  pure def build(p: List[Result], ids: List[int]): Env = {
    val e = ids.foldl(zeroEnv(ids.length()), (e, id) => {
      val r = p[id]
      { ...e,
        vcomax: pick(i => r.m[i] > e.mmax[i], r.v, e.vcomax), mmax: pick(i => r.m[i] > e.mmax[i], r.m, e.mmax),
        vcomin: pick(i => r.m[i] < e.mmin[i], r.v, e.vcomin), mmin: pick(i => r.m[i] < e.mmin[i], r.m, e.mmin),
        mcomax: pick(i => r.v[i] > e.vmax[i], r.m, e.mcomax), vmax: pick(i => r.v[i] > e.vmax[i], r.v, e.vmax),
        mcomin: pick(i => r.v[i] < e.vmin[i], r.m, e.mcomin), vmin: pick(i => r.v[i] < e.vmin[i], r.v, e.vmin) }
    })
    val rx = range(0, NSUP).foldl([], (acc, s) =>
      acc.append(ids.foldl([], (a, id) => a.append(imax(0, p[id].r[s])))))
    val rn = range(0, NSUP).foldl([], (acc, s) =>
      acc.append(ids.foldl([], (a, id) => a.append(imin(0, p[id].r[s])))))
    { ...e, rmax: rx, rmin: rn, of: ids, ghost: true,
      rmaxv: range(0, NSUP).foldl([], (a, s) => a.append(lmaxl(rx[s]))),
      rminv: range(0, NSUP).foldl([], (a, s) => a.append(lminl(rn[s]))) }
  }
  pure def zip2(a: List[List[int]], b: List[List[int]], f: (int, int) => int): List[List[int]] =
    range(0, a.length()).foldl([], (acc, i) => acc.append(
      range(0, a[i].length()).foldl([], (r, j) => r.append(f(a[i][j], b[i][j])))))
  pure def zip1(a: List[int], b: List[int], f: (int, int) => int): List[int] =
    range(0, a.length()).foldl([], (r, j) => r.append(f(a[j], b[j])))

  pure def augmented(e: Env, o: Env): Env = { ...e,
    mmax: zip1(e.mmax, o.mmax, imax), mmin: zip1(e.mmin, o.mmin, imin),
    vmax: zip1(e.vmax, o.vmax, imax), vmin: zip1(e.vmin, o.vmin, imin),
    vcomax: pick(i => o.mmax[i] > e.mmax[i], o.vcomax, e.vcomax),
    vcomin: pick(i => o.mmin[i] < e.mmin[i], o.vcomin, e.vcomin),
    mcomax: pick(i => o.vmax[i] > e.vmax[i], o.mcomax, e.mcomax),
    mcomin: pick(i => o.vmin[i] < e.vmin[i], o.mcomin, e.mcomin),
    rmaxv: zip1(e.rmaxv, o.rmaxv, imax), rminv: zip1(e.rminv, o.rminv, imin),
    rmax: if (e.nres == o.nres) zip2(e.rmax, o.rmax, imax) else zero2(NSUP, e.nres),
    rmin: if (e.nres == o.nres) zip2(e.rmin, o.rmin, imin) else zero2(NSUP, e.nres),
    of: e.of.concat(o.of), ghost: e.ghost and o.ghost }
  pure def plus(a: int, b: int): int = a + b
  pure def summed(e: Env, o: Env): Env = { ...e,
    mmax: zip1(e.mmax, o.mmax, plus), mmin: zip1(e.mmin, o.mmin, plus),
    vmax: zip1(e.vmax, o.vmax, plus), vmin: zip1(e.vmin, o.vmin, plus),
    rmaxv: zip1(e.rmaxv, o.rmaxv, plus), rminv: zip1(e.rminv, o.rminv, plus),
    rmax: if (e.nres == o.nres) zip2(e.rmax, o.rmax, plus) else zero2(NSUP, e.nres),
    rmin: if (e.nres == o.nres) zip2(e.rmin, o.rmin, plus) else zero2(NSUP, e.nres),
    ghost: false }
  pure def combined(es: List[Env], sum: bool): Env =
    es.foldl({ ...zeroEnv(es[0].nres), ghost: not(sum) }, (acc, e) => if (sum) summed(acc, e) else augmented(acc, e))

  // ---- point queries (left-hand value at a step; x in quarters, result x4) ------
  /// stations kept by a query: the first of every coordinate, skipping the
  /// closure station at the start of the beam
  pure val KEEP: List[int] = [1, 2, 3, 4, 5, 9, 10, 11, 12]
  pure def interp(x: int, vals: List[int]): int = {
    // x in quarters; station coordinates XS are in halves
    val k = range(0, KEEP.length() - 1).foldl(0, (b, i) => if (2 * XS[KEEP[i]] <= x) i else b)
    val x0 = 2 * XS[KEEP[k]]
    val x1 = 2 * XS[KEEP[k + 1]]
    // times 8 to stay integer: every interval is 4 quarters
    vals[KEEP[k]] * (x1 - x) + vals[KEEP[k + 1]] * (x - x0)
  }
  pure def probesOf(e: Env): List[Probe] =
    [0, 1, 7, 14, 16, 17, 22, 31, 32].foldl([], (acc, x) =>
      acc.append({ x: x, mmax: interp(x, e.mmax), mmin: interp(x, e.mmin), vmax: interp(x, e.vmax), vmin: interp(x, e.vmin) }))

  // ---- behaviour ---------------------------------------------------------------------
  pure def mkRes(f: int -> int, g: int -> int, r: int -> int): Result = {
    pure def lay(h: int -> int): List[int] =
      [0, h.get(0), h.get(1), h.get(2), h.get(3), h.get(4), 0, 0, h.get(5), h.get(6), h.get(7), h.get(8), h.get(9), 0]
    { m: lay(f), v: lay(g), r: [r.get(0), r.get(1), r.get(2)] }
  }
  pure val POOL: int = 7
  /// values of a small set, so that ties and sign changes are frequent
  pure def hash(s: int, k: int): int = ((s * 7919 + k * k * 104729 + k * 1299709 + (s / 97) * 15485863 * (k + 1)) / 11) % 7 - 3
  action init = {
    nondet seeds = 0.to(POOL - 1).setOfMaps(1.to(100000)).oneOf()
    val ps = range(0, POOL).foldl([], (acc, i) => {
      val s = seeds.get(i)
      val sh = if (i == 4) 3 else if (i == 5) -3 else 0   // one all-positive, one all-negative
      acc.append(mkRes(0.to(9).mapBy(k => hash(s, k) + sh), 0.to(9).mapBy(k => hash(s, k + 20)), 0.to(2).mapBy(k => hash(s, k + 40) + sh)))
    })
    all { pool' = ps, regs' = [build(ps, [0]), build(ps, [1, 2]), build(ps, [3, 4, 5])],
          call' = { name: "init", a: [], ok: true }, probe' = [] }
  }
  action setReg(c: Call, i: int, e: Env): bool = all {
    pool' = pool, regs' = regs.replaceAt(i, e), call' = c, probe' = [] }
  action make = {
    nondet i = 0.to(2).oneOf()
    nondet n = 1.to(4).oneOf()
    nondet ids = 0.to(3).setOfMaps(0.to(POOL - 1)).oneOf()
    val l = [ids.get(0), ids.get(1), ids.get(2), ids.get(3)].slice(0, n)
    setReg({ name: "make", a: [i].concat(l), ok: true }, i, build(pool, l))
  }
  action augment = {
    nondet i = 0.to(2).oneOf()
    nondet j = 0.to(2).oneOf()
    setReg({ name: "augment", a: [i, j], ok: true }, i, augmented(regs[i], regs[j]))
  }
  action addUp = {
    nondet i = 0.to(2).oneOf()
    nondet j = 0.to(2).oneOf()
    setReg({ name: "sum", a: [i, j], ok: true }, i, summed(regs[i], regs[j]))
  }
  action combineSome = {
    nondet i = 0.to(2).oneOf()
    nondet n = 1.to(3).oneOf()
    nondet ids = 0.to(2).setOfMaps(0.to(2)).oneOf()
    nondet s = Set(0, 1).oneOf()
    val l = [ids.get(0), ids.get(1), ids.get(2)].slice(0, n)
    setReg({ name: if (s == 1) "combine_sum" else "combine_envelope", a: [i].concat(l), ok: true }, i,
           combined(l.foldl([], (acc, k) => acc.append(regs[k])), s == 1))
  }
  action operator = {
    nondet i = 0.to(2).oneOf()
    nondet j = 0.to(2).oneOf()
    nondet k = 0.to(2).oneOf()
    nondet s = Set(0, 1).oneOf()
    setReg({ name: if (s == 1) "plus" else "or", a: [i, j, k], ok: true }, i, combined([regs[j], regs[k]], s == 1))
  }
  action blank = {
    nondet i = 0.to(2).oneOf()
    nondet j = 0.to(2).oneOf()
    setReg({ name: "zero_like", a: [i, j], ok: true }, i, zeroEnv(regs[j].nres))
  }
  action refused = {
    nondet w = 0.to(7).oneOf()
    nondet i = 0.to(2).oneOf()
    // an envelope of other stations, of another number of supports, of both
    nondet kind = 0.to(3).oneOf()
    setReg({ name: "refused", a: [w, i, kind], ok: false }, i, regs[i])
  }
  action query = {
    nondet i = 0.to(2).oneOf()
    all { pool' = pool, regs' = regs, call' = { name: "at", a: [i], ok: true }, probe' = probesOf(regs[i]) }
  }
  action step = any { make, augment, augment, addUp, combineSome, operator, blank, refused, query }

  // ---- what envelopes guarantee ---------------------------------------------------
  pure def vals(p: List[Result], ids: List[int], i: int, mom: bool): List[int] =
    ids.foldl([0], (a, id) => a.append(if (mom) p[id].m[i] else p[id].v[i]))
  /// while only enveloped, an envelope is exactly the extreme of zero and its results
  val exact = regs.foldl(true, (ok, e) => ok and (not(e.ghost) or
    range(0, NS).foldl(true, (o, i) => o
      and e.mmax[i] == lmaxl(vals(pool, e.of, i, true)) and e.mmin[i] == lminl(vals(pool, e.of, i, true))
      and e.vmax[i] == lmaxl(vals(pool, e.of, i, false)) and e.vmin[i] == lminl(vals(pool, e.of, i, false)))))
  /// the coincident value comes from a result that attains the extreme
  val coincident = regs.foldl(true, (ok, e) => ok and (not(e.ghost) or
    range(0, NS).foldl(true, (o, i) => o
      and (e.mmax[i] == 0 or e.of.foldl(false, (x, id) => x or (pool[id].m[i] == e.mmax[i] and pool[id].v[i] == e.vcomax[i])))
      and (e.mmin[i] == 0 or e.of.foldl(false, (x, id) => x or (pool[id].m[i] == e.mmin[i] and pool[id].v[i] == e.vcomin[i])))
      and (e.vmax[i] == 0 or e.of.foldl(false, (x, id) => x or (pool[id].v[i] == e.vmax[i] and pool[id].m[i] == e.mcomax[i])))
      and (e.vmin[i] == 0 or e.of.foldl(false, (x, id) => x or (pool[id].v[i] == e.vmin[i] and pool[id].m[i] == e.mcomin[i]))))))
  val ordered = regs.foldl(true, (ok, e) => ok and range(0, NS).foldl(true, (o, i) => o
      and e.mmax[i] >= 0 and e.mmin[i] <= 0 and e.vmax[i] >= 0 and e.vmin[i] <= 0)
      and range(0, NSUP).foldl(true, (o, s) => o and e.rmaxv[s] >= 0 and e.rminv[s] <= 0))
}
