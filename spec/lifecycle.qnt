/// Life of one analysis object: loads are edited, structure is edited, analyses
/// succeed or are refused, and the results held are always those of the last
/// successful analysis.
module lifecycle {
  import fx.* from "./fx"
  import mechanics.* from "./mechanics"
  import structures.* from "./structures"

  type Told = { members: int, supports: int, loads: int, plain: bool }
  type Results = { has: bool, beam: Beam, lm: List[Row], npts: int, sol: Sol, obs: List[MObs] }
  /// the public call just made: name, numeric arguments, load rows, expected outcome
  type Call = { name: str, a: List[int], rows: List[Row], ok: bool }

  var beam: Beam          // structure as it stands
  var lm: List[Row]       // loads as they stand
  var valid: bool         // the load list is well formed
  var npts: int           // evaluation density in force
  var res: Results        // results held
  var call: Call
  var told: Told          // its summary
  var stable: bool        // solvable as it stands

  /// what the one-line summary of a model says of it: members, nodes held by
  /// anything, loads (nodes held only by an imposed movement left aside)
  pure def summary(b: Beam, l: List[Row]): Told = {
    val nodes = 0.to(b.spans.length())
    { members: b.spans.length(),
      supports: nodes.filter(i => b.rest[2 * i] != 0 or b.rest[2 * i + 1] != 0).size(),
      loads: l.length(),
      plain: nodes.forall(i => Set(2 * i, 2 * i + 1).forall(d => b.rest[d] != 0 or b.dset[d] == 0)) }
  }

  pure def call0(n: str): Call = { name: n, a: [], rows: [], ok: true }
  pure val noRes: Results = { has: false, beam: { spans: [], rest: [], dset: [], disp: [] }, lm: [], npts: 0, sol: noSol, obs: [] }
  pure def isStableBeam(b: Beam): bool = solveBeam(b, []).ok
  /// an elastic support with an imposed displacement next to a loaded member is refused
  pure def conflict(b: Beam, l: List[Row]): bool =
    range(0, b.rest.length()).foldl(false, (bad, d) =>
      bad or (b.rest[d] > 0 and b.dset[d] == 1 and
        l.foldl(false, (x, r) => x or r[0] - 1 == d / 2 or r[0] == d / 2)))

  /// ... at least, where the member's loads all push the same way
  pure def surely(b: Beam, l: List[Row]): bool =
    range(0, b.rest.length()).foldl(false, (bad, d) => {
      val near = l.select(r => r[0] - 1 == d / 2 or r[0] == d / 2)
      bad or (d % 2 == 0 and b.rest[d] > 0 and b.dset[d] == 1
        and near.foldl(true, (x, r) => x and Set(1, 2, 3).contains(r[1]) and r[2] > 0)
        and near.foldl(false, (x, r) => x or r[1] == 1))
    })

  action init = {
    nondet n = Set(1, 2, 3).oneOf()
    nondet L = Set(0, 1, 2).setOfMaps(LENGTHS).oneOf()
    nondet ei = Set(0, 1, 2).setOfMaps(RIGID).oneOf()
    nondet et = Set(0, 1, 2).setOfMaps(Set(1, 1, 1, 2, 3, 4)).oneOf()
    nondet sup = Set(0, 1, 2, 3).setOfMaps(0.to(11)).oneOf()
    nondet pat = Set(0, 1, 2).setOfMaps(Set(-4, -3, -2, -1, 0, 3)).oneOf()
    val b0 = mkBeam(n, L, ei, et, sup, 4000000000, 30000000000, Map(0 -> 0, 1 -> 0, 2 -> 0, 3 -> 0))
    val b = { ...b0, spans: range(0, n).foldl([], (acc, i) =>
      acc.append(if (et.get(i) == 1) { ...b0.spans[i], ei: pattern(imax(0, pat.get(i)), L.get(i), ei.get(i)) } else b0.spans[i])) }
    all { beam' = b, lm' = [], valid' = true, npts' = 100, res' = noRes, call' = call0("init"), stable' = isStableBeam(b),
      told' = summary(b, []) }
  }

  action keepAll(c: Call): bool = all {
    beam' = beam, lm' = lm, valid' = valid, npts' = npts, res' = res, stable' = stable, told' = told, call' = c }
  action putLoads(c: Call, l: List[Row], ok: bool): bool = all {
    beam' = beam, lm' = l, valid' = ok, npts' = npts, res' = res, stable' = stable, told' = summary(beam, l), call' = c }
  action putBeam(c: Call, b: Beam): bool = all {
    beam' = b, lm' = lm, valid' = valid, npts' = npts, res' = res, stable' = isStableBeam(b), told' = summary(b, lm), call' = c }

  // ---- loads ---------------------------------------------------------------------
  action addLoad = {
    nondet i = 0.to(beam.spans.length() - 1).oneOf()
    nondet kind = 1.to(6).oneOf()
    nondet w = Set(-30000000, 12000000, 45000000).oneOf()
    nondet w2 = Set(-9000000, 0, 27000000).oneOf()
    nondet a = Set(0, 125, 310, 500, 950, 1000).oneOf()
    nondet c = Set(100, 300, 600).oneOf()
    val L = beam.spans[i].L
    val r =
      if (kind == 1) [i + 1, 1, w]
      else if (kind == 2) [i + 1, 2, w, L * a / 1000]
      else if (kind == 3) [i + 1, 3, w, L * a / 1000, L * c / 1000]
      else if (kind == 4) [i + 1, 4, w, L * a / 1000]
      else if (kind == 5) [i + 1, 5, w, w2, L * a / 1000, L * c / 1000]
      else [i + 1, 6, w / 40000, w2 / 300000]
    all { valid, lm.length() < 6,
          putLoads({ name: "add", a: [], rows: [r], ok: true }, lm.append(r), true) }
  }
  action setLoads = {
    nondet k = 0.to(2).oneOf()
    nondet i = 0.to(beam.spans.length() - 1).oneOf()
    nondet w = Set(-14000000, 18000000).oneOf()
    val L = beam.spans[i].L
    val rows = [[i + 1, 1, w], [i + 1, 2, 3 * w, L / 4]].slice(0, k)
    putLoads({ name: "set_loads", a: [], rows: rows, ok: true }, rows, true)
  }
  /// a malformed list is accepted by the setter and refused by the analysis
  action setMalformed = putLoads({ name: "set_malformed", a: [], rows: [], ok: true }, [], false)
  /// incomplete call: refused, nothing changes
  action addIncomplete = keepAll({ name: "add_incomplete", a: [], rows: [], ok: false })
  /// a beam like this one, but with a loaded elastic support moved by a given amount
  action clash = {
    nondet j = 0.to(beam.spans.length()).oneOf()
    nondet v = Set(0, -4000).oneOf()
    keepAll({ name: "clash", a: [j, v], rows: [], ok: false })
  }
  /// the caller goes on using the list last handed over
  action callerAppends = all { call.name == "set_loads",
    keepAll({ name: "caller_appends", a: [], rows: [], ok: true }) }

  // ---- structure ---------------------------------------------------------------
  action setRestraint = {
    nondet d = 0.to(beam.rest.length() - 1).oneOf()
    nondet v = Set(0, -1000000, 2500000000).oneOf()
    // by assigning the list of restraints, or by editing it where it is
    nondet how = Set(0, 1).oneOf()
    all { v != beam.rest[d],
      putBeam({ name: "restraint", a: [d, v, how], rows: [], ok: true },
              { ...beam, rest: beam.rest.replaceAt(d, v) }) }
  }
  action setDisplacement = {
    nondet d0 = 0.to(beam.rest.length() - 1).oneOf()
    nondet v = Set(0, 1, 2, 3).oneOf()
    // now and then next to an elastic support, which the loads may then forbid
    nondet sprung = Set(0, 1).oneOf()
    val soft = 0.to(beam.rest.length() - 1).filter(x => x % 2 == 0 and beam.rest[x] > 0)
    val d = if (sprung == 1 and soft.size() > 0) soft.fold(0, (a, x) => imax(a, x)) else d0
    nondet how = Set(0, 1).oneOf()
    putBeam({ name: "displacement", a: [d, v, how], rows: [], ok: true },
            { ...beam, dset: beam.dset.replaceAt(d, if (v == 0) 0 else 1),
                       disp: beam.disp.replaceAt(d, if (v == 0 or v == 3) 0 else if (v == 1) -6000 else 2500) })
  }
  /// all imposed displacements withdrawn at once
  action clearDisplacements = all { beam.dset.foldl(0, (a, x) => a + x) > 0,
    putBeam({ name: "clear_displacements", a: [], rows: [], ok: true },
            { ...beam, dset: lmap(beam.dset, x => 0), disp: lmap(beam.disp, x => 0) }) }
  /// a support is replaced by an imposed displacement of the same degree of freedom
  action swapSupport = {
    val held = 0.to(beam.rest.length() - 1).filter(d => beam.rest[d] != 0)
    all { held.size() > 0, {
      nondet d = held.oneOf()
      nondet v = Set(-6000, 2500).oneOf()
      putBeam({ name: "swap", a: [d, v], rows: [], ok: true },
              { ...beam, rest: beam.rest.replaceAt(d, 0), dset: beam.dset.replaceAt(d, 1), disp: beam.disp.replaceAt(d, v) }) } }
  }
  pure def freed(b: Beam, d: int): Beam =
    { ...b, rest: b.rest.replaceAt(d, 0), dset: b.dset.replaceAt(d, 0), disp: b.disp.replaceAt(d, 0) }
  /// one degree of freedom on which stability hangs is let go
  action destabilise = {
    val vital = 0.to(beam.rest.length() - 1).filter(d => (beam.rest[d] != 0 or beam.dset[d] == 1) and not(isStableBeam(freed(beam, d))))
    all { stable, vital.size() > 0, {
      nondet d = vital.oneOf()
      nondet how = Set(0, 1).oneOf()
      putBeam({ name: "free", a: [d, beam.rest[d], beam.dset[d], how], rows: [], ok: true }, freed(beam, d)) } }
  }
  action badDisplacements = keepAll({ name: "bad_displacements", a: [], rows: [], ok: false })

  // ---- analysis and queries --------------------------------------------------------
  action analyze = {
    nondet n = Set(0, 2, 3, 4, 60, 100, 180).oneOf()
    nondet chk = Set(0, 1, 1).oneOf()
    val np = if (n > 3) n else npts
    val good = valid and stable and not(conflict(beam, lm))
    val s = if (good) solveBeam(beam, lm) else noSol
    all {
      chk == 1 or good,
      not(valid and conflict(beam, lm) and not(surely(beam, lm))),
      beam' = beam, lm' = lm, valid' = valid, npts' = np, stable' = stable, told' = told,
      res' = if (good) { has: true, beam: beam, lm: lm, npts: np, sol: s, obs: observe(beam, lm, s) } else res,
      call' = { name: "analyze", a: [n, chk], rows: [], ok: good }
    }
  }
  action askStable = keepAll({ name: "is_stable", a: [], rows: [], ok: stable })
  action askModal = keepAll({ name: "query", a: [], rows: [], ok: res.has })

  action editLoads = any { addLoad, addLoad, setLoads, setMalformed, addIncomplete, callerAppends, clash }
  action editBeam = any { setRestraint, setRestraint, setDisplacement, swapSupport, clearDisplacements, badDisplacements }
  action step = any { editLoads, editBeam, analyze, analyze, askStable, askModal }
  /// emphasis on supports
  /// a change of supports is followed by an analysis (or by new loads), and an analysis
  /// of a solvable structure by the loss of a degree of freedom it hangs on
  action stepSupports =
    if (Set("swap", "free", "clear_displacements", "restraint", "displacement").contains(call.name)) any { analyze, setLoads }
    else if (call.name == "analyze" and call.ok) any { destabilise, clearDisplacements, swapSupport, setRestraint, addLoad, setLoads }
    else any { swapSupport, swapSupport, setRestraint, setDisplacement, addLoad, analyze, askStable }

  // ---- guarantees of the specification --------------------------------------------
  /// what is held was produced by a solvable structure, and is in equilibrium
  val heldSound = not(res.has) or (res.sol.ok and
    iabs(resultant(res.beam, res.lm).f -
         range(0, nNodes(res.beam)).foldl(0, (a, i) => a + res.sol.react[2 * i])) < MICRO)
  val freshAfterSuccess = (call.name == "analyze" and call.ok) implies (res.has and res.lm == lm and res.beam == beam)
}
