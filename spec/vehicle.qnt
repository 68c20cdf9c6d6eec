/// Vehicles: axle layouts, reversal, copies, trains and the library of standard
/// vehicles.  Lengths and weights are in pico units.
module vehicle {
  type Veh = { gap: List[int], w: List[int] }     // from the front axle backwards
  type Call = { name: str, reg: int, k: int, p: int, q: int, a: List[int], ok: bool, gap: List[int], w: List[int] }

  var regs: List[Veh]
  var call: Call

  pure val U: int = 1000000000000
  pure def kN(t1000: int): int = t1000 * 9810000000            // 1e-3 tonne -> pico kN
  pure def sum(l: List[int]): int = l.foldl(0, (a, x) => a + x)
  pure def rev(l: List[int]): List[int] = l.foldl([], (a, x) => [x].concat(a))
  pure def wheelbase(v: Veh): int = sum(v.gap)
  pure def coords(v: Veh): List[int] = v.gap.foldl([0], (a, g) => a.append(a[a.length() - 1] + g))
  pure def turned(v: Veh): Veh = { gap: rev(v.gap), w: rev(v.w) }
  pure def same(x: int, n: int): List[int] = range(0, n).foldl([], (a, i) => a.append(x))
  pure def mul(l: List[int], k: int): List[int] = l.foldl([], (a, x) => a.append(x * k))
  pure def train(vs: List[Veh], gaps: List[int]): Veh =
    range(1, vs.length()).foldl(vs[0], (t, i) =>
      { gap: t.gap.append(gaps[i - 1]).concat(vs[i].gap), w: t.w.concat(vs[i].w) })

  // ---- the published vehicles ------------------------------------------------------
  type Lib = { ok: bool, v: Veh }
  pure val none: Veh = { gap: [], w: [] }
  pure def ok(g: List[int], w: List[int]): Lib = { ok: true, v: { gap: g, w: w } }
  pure def only(c: bool, g: List[int], w: List[int]): Lib = if (c) ok(g, w) else { ok: false, v: none }
  pure def mm(l: List[int]): List[int] = mul(l, U / 1000)
  pure def group12(mid: int): List[int] = mm([1250, 1250, 3750, 1250, 1250]).append(mid).concat(mm([1250, 1250, 5000, 1250, 1250]))
  /// p, q: parameters in pico (counts and indices: plain)
  pure def lib(k: int, p: int, q: int): Lib =
    if (k == 0) {                            // ABAG 68 t B-double
      val s = [[5500, 6500], [6000, 6000], [6500, 5500]]
      ok(mm([3000, 1200, s[p][0], 1200, 1200, s[p][1], 1200, 1200]),
         [kN(6000), kN(8500), kN(8500)].concat(same(kN(7500), 6)))
    } else if (k == 1) {                     // ABAG 45.5 t semi-trailer
      ok(mm([3000, 1200, [4400, 6400, 8400, 10400][p], 1200, 1200]),
         [kN(6000), kN(8500), kN(8500)].concat(same(kN(7500), 3)))
    } else if (k == 2)                       // example permit vehicle
      ok(mm([1793, 2507, 1370, 5403, 1232, 1232, 6303, 1232, 1232]),
         [kN(5500), kN(5500), kN(8500), kN(8500)].concat(same(kN(7500), 6)))
    else if (k == 3) only(p >= 6250 * (U / 1000), group12(p), same(120 * U, 12))   // M1600
    else if (k == 4) only(p >= 6250 * (U / 1000), group12(p), same(80 * U, 12))    // S1600
    else if (k == 5) ok([], [160 * U])                                       // A160
    else if (k == 6) ok([], [80 * U])                                        // W80
    else if (k == 7)                                                         // LA rail, 150 kN
      only(p >= 12 * U and p <= 20 * U and q >= 1,
        range(1, q).foldl(mm([2000, 1700, 1100, 1700]), (g, i) => g.append(p - 4500 * (U / 1000)).concat(mm([1700, 1100, 1700]))),
        [180 * U].concat(same(150 * U, 4 * q)))
    else if (k == 8)                                                         // 300LA
      only(p >= 12 * U and p <= 20 * U and q >= 1,
        range(1, q).foldl(mm([2000, 1700, 1100, 1700]), (g, i) => g.append(p - 4500 * (U / 1000)).concat(mm([1700, 1100, 1700]))),
        [360 * U].concat(same(300 * U, 4 * q)))
    else if (k == 9)                                                         // T44
      only(p >= 3 * U and p <= 8 * U, mm([3700, 1200]).append(p).concat(mm([1200])), [48 * U].concat(same(96 * U, 4)))
    else if (k == 10)                                                        // MS18
      only(p >= 4270 * (U / 1000) and p <= 9140 * (U / 1000), mm([4270]).append(p), mul([356, 1423, 1423], U / 10))
    else if (k == 11)                                                        // HL-93 truck
      only(p >= 4300 * (U / 1000) and p <= 9 * U, mm([4300]).append(p), mul([35, 145, 145], U))
    else if (k == 12) ok(mm([1200]), mul([110, 110], U))                     // HL-93 tandem
    else if (k == 13) {                                                      // Cooper E(p)
      // pounds-force kip 4.4482216 kN, foot 0.3048 m
      val kip10 = [50, 100, 100, 100, 100, 65, 65, 65, 65]
      val ft = [8, 5, 5, 5, 9, 5, 6, 5]
      val w = kip10.foldl([], (a, x) => a.append(x * (p / 1000000) * 44482216 / 1000))
      ok(mul(ft.append(8).concat(ft), 3048 * (U / 10000)), w.concat(w))
    } else if (k == 14) ok(mm([1200]), same(300 * (p / 1000) * 1000, 2))     // LM1, alpha = p
    else if (k == 15) ok(mm([1600, 1600, 1600]), same(250 * p, 4))           // LM71, alpha = p
    else if (k == 16) ok([1800 * (U / 1000), q, 1800 * (U / 1000)], same(10 * p, 4))   // HB, p units, q inner
    else if (k == 17) ok(mm([3600, 1200, 6600, 6600]), mul([50, 125, 125, 175, 150], U))   // CL-625
    else if (k == 18) ok(mm([3000, 1400, 7000, 1400]), mul([30, 120, 120, 140, 140], U))   // JTG D60
    else ok(mm([4000, 4000]), mul([5, 4, 3], U))                             // validation truck

  // ---- behaviour ------------------------------------------------------------------
  pure def noCall: Call = { name: "init", reg: 0, k: 0, p: 0, q: 0, a: [], ok: true, gap: [], w: [] }
  pure val MM: int = 1000000000
  action emit(c: Call, r: List[Veh]): bool = all { call' = c, regs' = r }
  action init = emit(noCall, [])
  pure val GAPS: Set[int] = Set(0, 1000000000000, 1200000000000, 3700000000000, 5250000000000, 9140000000000)
  pure val WTS: Set[int] = Set(35000000000000, 60000000000000, 96500000000000, 0, 240000000000000, 5000000000000)

  action construct = {
    nondet n = 1.to(5).oneOf()
    nondet m = Set(0, 0, 0, 0, 1, -1).oneOf()          // a wrong number of spacings
    nondet g = 0.to(5).setOfMaps(GAPS).oneOf()
    nondet w = 0.to(4).setOfMaps(WTS).oneOf()
    val gap = range(0, n - 1 + m).foldl([], (a, i) => a.append(g.get(i)))
    val wts = range(0, n).foldl([], (a, i) => a.append(w.get(i)))
    val c = { ...noCall, name: "construct", gap: gap, w: wts, ok: gap.length() + 1 == wts.length() }
    emit(c, if (c.ok) regs.append({ gap: gap, w: wts }) else regs)
  }
  action standard = {
    nondet k = 0.to(19).oneOf()
    nondet i = 0.to(2).oneOf()
    nondet d = Set(6250, 6249, 12000, 11900, 20000, 20100, 15500, 3000, 2900, 8000, 8100, 4270, 4200, 9140, 9200, 4300, 9000, 7000).oneOf()
    nondet n = 0.to(4).oneOf()
    nondet e = Set(1000, 800, 1460, 45000, 72000, 80000).oneOf()
    val p = if (k <= 1) i else if (k >= 13 and k <= 16) e * MM else d * MM
    val q = if (k == 16) 6000 * MM + n * MM * 5000 else n
    val l = lib(k, p, q)
    emit({ ...noCall, name: "standard", k: k, p: p, q: q, ok: l.ok }, if (l.ok) regs.append(l.v) else regs)
  }
  action reverseInPlace(): bool = {
    nondet r = 0.to(regs.length() - 1).oneOf()
    emit({ ...noCall, name: "reverseInPlace", reg: r }, regs.replaceAt(r, turned(regs[r])))
  }
  action reverseCopy(): bool = {
    nondet r = 0.to(regs.length() - 1).oneOf()
    emit({ ...noCall, name: "reverseCopy", reg: r }, regs.append(turned(regs[r])))
  }
  action couple(): bool = {
    nondet n = 1.to(3).oneOf()
    nondet m = Set(0, 0, 0, 1, 2).oneOf()      // right count, one spacing for all, wrong count
    nondet idx = 0.to(2).setOfMaps(0.to(regs.length() - 1)).oneOf()
    nondet g = 0.to(3).setOfMaps(GAPS).oneOf()
    val ids = range(0, n).foldl([], (a, i) => a.append(idx.get(i)))
    val cnt = if (m == 0) n - 1 else if (m == 1 and n > 1) 1 else n + 1
    val gaps = range(0, cnt).foldl([], (a, i) => a.append(g.get(i)))
    val good = cnt == n - 1 or (m == 1 and n > 1)
    val full = if (cnt == 1 and n > 1) same(gaps[0], n - 1) else gaps
    val c = { ...noCall, name: "couple", a: ids, gap: gaps, ok: good }
    emit(c, if (good) regs.append(train(ids.foldl([], (a, i) => a.append(regs[i])), full)) else regs)
  }
  /// somebody else reuses the arrays a vehicle was made from, or scales the
  /// arrays of a vehicle: no other vehicle may notice
  action meddle(): bool = {
    nondet r = 0.to(regs.length() - 1).oneOf()
    emit({ ...noCall, name: "meddle", reg: r }, regs)
  }
  action some = any { reverseInPlace, reverseCopy, couple, meddle }
  action step = if (regs.length() == 0) any { construct, standard }
                else if (regs.length() > 12) any { reverseInPlace, meddle }
                else any { construct, standard, standard, some }

  val consistent = regs.foldl(true, (o, v) => o and v.gap.length() + 1 == v.w.length() and
    coords(v)[v.gap.length()] == wheelbase(v))
  val involution = regs.foldl(true, (o, v) => o and turned(turned(v)) == v)
  val trainWeight = call.name != "couple" or not(call.ok) or
    sum(regs[regs.length() - 1].w) == call.a.foldl(0, (a, i) => a + sum(regs[i].w))
}
