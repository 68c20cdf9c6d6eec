/// Elastic analysis as a state machine: a structure is chosen, then loads are
/// added one row at a time (or scaled, or cleared); after every step the model
/// publishes what an observer of the library must see.
module elastic {
  import fx.* from "./fx"
  import mechanics.* from "./mechanics"
  import structures.* from "./structures"

  var beam: Beam
  var lm: List[Row]
  var sol: Sol
  var obs: List[MObs]
  var res: Resultant
  var units: int          // units in which the library is given all this: 0 kN m,
                          // 1 N mm, 2 kN mm, 3 N m, 4 MN m, 5 kip in

  action publish(b: Beam, l: List[Row]): bool = {
    val s = solveBeam(b, l)
    all { beam' = b, lm' = l, sol' = s, obs' = observe(b, l, s), res' = balance(b, l, s), units' = units }
  }
  action start(b: Beam): bool = {
    nondet u = Set(0, 0, 0, 1, 2, 3, 4, 5).oneOf()
    val s = solveBeam(b, [])
    all { beam' = b, lm' = [], sol' = s, obs' = observe(b, [], s), res' = balance(b, [], s), units' = u }
  }
  action initPrismatic = {
    nondet n = Set(1, 2, 2, 3, 3, 4).oneOf()
    nondet L = Set(0, 1, 2, 3).setOfMaps(LENGTHS).oneOf()
    nondet ei = Set(0, 1, 2, 3).setOfMaps(RIGID).oneOf()
    nondet et = Set(0, 1, 2, 3).setOfMaps(1.to(4)).oneOf()
    nondet allFF = Set(0, 1, 2, 3).setOfMaps(1.to(3)).oneOf()
    nondet sup = Set(0, 1, 2, 3, 4).setOfMaps(0.to(11)).oneOf()
    nondet ks = Set(500000000, 4000000000, 25000000000).oneOf()
    nondet kr = Set(1500000000, 30000000000).oneOf()
    nondet dk = Set(0, 1, 2, 3, 4).setOfMaps(0.to(12)).oneOf()
    val e = et.keys().mapBy(k => if (allFF.get(k) > 1) 1 else et.get(k))
    start(mkBeam(n, L, ei, e, sup, ks, kr, dk))
  }

  /// many spans, mostly continuous over rigid supports
  pure val MANY = 0.to(12)
  action initLong = {
    nondet n = Set(5, 6, 8, 12).oneOf()
    nondet L = MANY.setOfMaps(LENGTHS).oneOf()
    nondet ei = MANY.setOfMaps(RIGID).oneOf()
    nondet et = MANY.setOfMaps(1.to(4)).oneOf()
    nondet odd = MANY.setOfMaps(1.to(8)).oneOf()
    nondet sup = MANY.setOfMaps(0.to(11)).oneOf()
    nondet plain = MANY.setOfMaps(1.to(3)).oneOf()
    nondet ks = Set(500000000, 4000000000, 25000000000).oneOf()
    nondet kr = Set(1500000000, 30000000000).oneOf()
    nondet dk = MANY.setOfMaps(0.to(20)).oneOf()
    val e = MANY.mapBy(k => if (odd.get(k) > 1) 1 else et.get(k))
    val r = MANY.mapBy(k => if (plain.get(k) > 1) 1 else sup.get(k))
    start(mkBeam(n, L, ei, e, r, ks, kr, dk))
  }

  action initNonPrismatic = {
    nondet n = Set(1, 2, 3).oneOf()
    nondet L = Set(0, 1, 2).setOfMaps(LENGTHS).oneOf()
    nondet ei = Set(0, 1, 2).setOfMaps(RIGID).oneOf()
    nondet pat = Set(0, 1, 2).setOfMaps(0.to(6)).oneOf()
    nondet et = Set(0, 1, 2).setOfMaps(1.to(4)).oneOf()
    nondet allFF = Set(0, 1, 2).setOfMaps(1.to(3)).oneOf()
    nondet sup = Set(0, 1, 2, 3).setOfMaps(1.to(11)).oneOf()
    nondet ks = Set(500000000, 4000000000, 25000000000).oneOf()
    nondet kr = Set(1500000000, 30000000000).oneOf()
    nondet dk = Set(0, 1, 2, 3).setOfMaps(0.to(12)).oneOf()
    val e = et.keys().mapBy(k => if (allFF.get(k) > 1) 1 else et.get(k))
    val b = mkBeam(n, L, ei, e, sup, ks, kr, dk)
    val spans = range(0, n).foldl([], (acc, i) =>
      acc.append({ ...b.spans[i], ei: pattern(pat.get(i), L.get(i), ei.get(i)) }))
    start({ ...b, spans: spans })
  }

  action initShear = {
    nondet n = Set(1, 2, 3).oneOf()
    nondet L = Set(0, 1, 2).setOfMaps(Set(2000000, 3500000, 5000000, 8000000, 12500000)).oneOf()
    nondet ei = Set(0, 1, 2).setOfMaps(RIGID).oneOf()
    // rigidity pattern and shear-rigidity pattern; 7 = no shear flexibility
    nondet pat = Set(0, 1, 2).setOfMaps(Set(-3, -2, -1, 0, 2, 3, 5)).oneOf()
    nondet gpat = Set(0, 1, 2).setOfMaps(Set(-3, -2, -1, 0, 1, 2, 4, 7)).oneOf()
    nondet ga = Set(0, 1, 2).setOfMaps(Set(800000000, 5000000000, 40000000000)).oneOf()
    nondet et = Set(0, 1, 2).setOfMaps(1.to(4)).oneOf()
    nondet allFF = Set(0, 1, 2).setOfMaps(1.to(3)).oneOf()
    nondet sup = Set(0, 1, 2, 3).setOfMaps(1.to(11)).oneOf()
    nondet ks = Set(500000000, 4000000000, 25000000000).oneOf()
    nondet kr = Set(1500000000, 30000000000).oneOf()
    nondet dk = Set(0, 1, 2, 3).setOfMaps(0.to(12)).oneOf()
    val e = et.keys().mapBy(k => if (allFF.get(k) > 1) 1 else et.get(k))
    val b = mkBeam(n, L, ei, e, sup, ks, kr, dk)
    val spans = range(0, n).foldl([], (acc, i) =>
      acc.append({ ...b.spans[i], ei: pattern(imax(0, pat.get(i)), L.get(i), ei.get(i)),
        ga: if (gpat.get(i) == 7) [] else pattern(imax(0, gpat.get(i)), L.get(i), ga.get(i)) }))
    start({ ...b, spans: spans })
  }

  action initFoundation = {
    nondet n = Set(1, 2, 3).oneOf()
    nondet L = Set(0, 1, 2).setOfMaps(Set(2000000, 4000000, 6000000, 10000000)).oneOf()
    nondet ei = Set(0, 1, 2).setOfMaps(RIGID).oneOf()
    nondet kf = Set(0, 1, 2).setOfMaps(Set(0, 500000000, 3000000000, 12000000000, 40000000000)).oneOf()
    nondet sup = Set(0, 1, 2, 3).setOfMaps(Set(0, 0, 0, 1, 6, 8, 9, 10, 11)).oneOf()
    nondet ks = Set(500000000, 4000000000, 25000000000).oneOf()
    nondet kr = Set(1500000000, 30000000000).oneOf()
    nondet dk = Set(0, 1, 2, 3).setOfMaps(0.to(12)).oneOf()
    val b = mkBeam(n, L, ei, Map(0 -> 1, 1 -> 1, 2 -> 1), sup, ks, kr, dk)
    val spans = range(0, n).foldl([], (acc, i) => acc.append({ ...b.spans[i], kf: kf.get(i) }))
    start({ ...b, spans: spans })
  }

  // ---- loading steps ---------------------------------------------------------------
  pure val FRACS = Set(0, 5, 125, 250, 370, 500, 613, 750, 875, 1000)
  action addUdl = {
    nondet i = 0.to(beam.spans.length() - 1).oneOf()
    nondet w = Set(-7000000, 3500000, 10000000, 24000000).oneOf()
    publish(beam, lm.append([i + 1, 1, w]))
  }
  action addPl = {
    nondet i = 0.to(beam.spans.length() - 1).oneOf()
    nondet p = Set(-40000000, 15000000, 100000000).oneOf()
    nondet a = FRACS.oneOf()
    publish(beam, lm.append([i + 1, 2, p, beam.spans[i].L * a / 1000]))
  }
  action addPudl = {
    nondet i = 0.to(beam.spans.length() - 1).oneOf()
    nondet w = Set(-9000000, 12000000, 20000000).oneOf()
    nondet a = FRACS.oneOf()
    nondet c = Set(100, 250, 433, 625, 1000).oneOf()
    publish(beam, lm.append([i + 1, 3, w, beam.spans[i].L * a / 1000, beam.spans[i].L * c / 1000]))
  }
  action addMl = {
    nondet i = 0.to(beam.spans.length() - 1).oneOf()
    nondet m = Set(-60000000, 25000000, 80000000).oneOf()
    nondet a = FRACS.oneOf()
    publish(beam, lm.append([i + 1, 4, m, beam.spans[i].L * a / 1000]))
  }
  action addTrap = {
    nondet i = 0.to(beam.spans.length() - 1).oneOf()
    nondet w1 = Set(-8000000, 0, 10000000).oneOf()
    nondet w2 = Set(-5000000, 0, 18000000).oneOf()
    nondet form = 0.to(2).oneOf()
    nondet a = FRACS.oneOf()
    nondet c = Set(100, 250, 433, 625, 1000).oneOf()
    val L = beam.spans[i].L
    publish(beam, lm.append(
      if (form == 0) [i + 1, 5, w1, w2]
      else [i + 1, 5, w1, w2, L * a / 1000, L * c / 1000]))
  }
  action addIc = {
    nondet i = 0.to(beam.spans.length() - 1).oneOf()
    nondet k0 = Set(-300, 0, 500).oneOf()
    nondet k1 = Set(-40, 0, 25).oneOf()
    nondet k2 = Set(0, 3).oneOf()
    nondet len = 1.to(3).oneOf()
    publish(beam, lm.append([i + 1, 6, k0, k1, k2].slice(0, 2 + len)))
  }
  // a foundation member accepts UDL, point and partial UDL loads only
  action stepFoundation = any { addUdl, addPl, addPudl }
  action step = any { addUdl, addPl, addPudl, addMl, addTrap, addIc }

  // ---- what the model itself guarantees ------------------------------------------
  pure val TOL: int = 100000000000000000000   // 1e-20
  val equilibrium = iabs(res.f - res.rf) < TOL and iabs(res.m - res.rm) < TOL * 1000
}
