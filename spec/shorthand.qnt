/// The notations in which a structure can be described - beam strings, support
/// names, member-type names, span by span - and the structure each denotes.
module shorthand {
  import fx.* from "./fx"
  import mechanics.* from "./mechanics"

  /// what a description denotes: lengths (micro), restraints (micro), releases
  type Built = { L: List[int], rest: List[int], et: List[int] }
  type Call = { name: str, nodes: List[str], num: List[int], lens: List[int], types: List[str], style: int, flaw: str, ok: bool }

  var call: Call
  var built: Built         // what the last good description denotes
  var grown: Built         // the beam grown span by span
  var react: List[int]     // support actions of `built` under a unit load on every span (pico)
  var stable: bool

  pure val FIX: int = -1000000
  pure val nothing: Built = { L: [], rest: [], et: [] }
  pure def restOf(n: str): List[int] =
    if (Set("p", "pin", "pinned", "r", "roller").contains(n)) [FIX, 0]
    else if (Set("e", "encastre", "fixed", "clamped").contains(n)) [FIX, FIX]
    else [0, 0]
  pure def typeOf(t: str): int =
    if (Set("FF", "1").contains(t)) 1 else if (Set("FP", "2").contains(t)) 2 else if (Set("PF", "3").contains(t)) 3 else 4
  pure def toBeam(b: Built): Beam = {
    spans: range(0, b.L.length()).foldl([], (a, i) => a.append(prismatic(b.L[i], 300000000000, b.et[i]))),
    rest: b.rest, dset: lmap(b.rest, x => 0), disp: lmap(b.rest, x => 0) }
  pure def unitLoads(b: Built): List[Row] =
    range(0, b.L.length()).foldl([], (a, i) => a.append([i + 1, 1, 1000000]))
  pure def actions(b: Built): List[int] = {
    val s = solveBeam(toBeam(b), unitLoads(b))
    if (s.ok) lmap(s.react, x => toPico(x)) else []
  }

  action denote(c: Call, b: Built): bool = {
    val r = actions(b)
    all { call' = c, built' = b, grown' = grown, react' = r, stable' = r.length() > 0 } }
  action refuse(c: Call): bool = all {
    call' = { ...c, ok: false }, built' = built, grown' = grown, react' = react, stable' = stable }
  pure def call0(n: str): Call = { name: n, nodes: [], num: [], lens: [], types: [], style: 0, flaw: "", ok: true }
  action init = all {
    call' = call0("init"), built' = nothing, grown' = nothing, react' = [], stable' = false }

  pure val LEN = Set(4000000, 7500000, 12000000, 20250000, 9145600, 12345670)
  pure def lensOf(n: int, m: int -> int): List[int] = range(0, n).foldl([], (a, i) => a.append(m.get(i)))

  // ---- beam strings ----------------------------------------------------------
  /// an internal hinge is an unsupported node at which the member before it is released
  pure def fromString(nodes: List[str], lens: List[int]): Built = {
    L: lens,
    rest: nodes.foldl([], (a, t) => a.concat(restOf(t))),
    et: range(0, lens.length()).foldl([], (a, i) => a.append(if (nodes[i + 1] == "h") 2 else 1)) }
  pure def wellFormed(nodes: List[str]): bool =
    nodes.length() >= 2 and nodes[0] != "h" and nodes[nodes.length() - 1] != "h" and
    range(1, nodes.length() - 1).foldl(true, (b, i) => b and nodes[i] != "f" and nodes[i] != "e")
  action describeString = {
    nondet n = Set(1, 2, 3, 4, 5).oneOf()
    nondet m = 0.to(4).setOfMaps(LEN).oneOf()
    nondet a = Set("p", "r", "e", "f", "h").oneOf()
    nondet z = Set("p", "r", "e", "f", "h").oneOf()
    nondet mid = 1.to(4).setOfMaps(1.to(9)).oneOf()
    nondet style = 0.to(5).oneOf()
    nondet flaw = 0.to(16).oneOf()
    pure def inner(k: int): str = if (k < 4) "p" else if (k < 6) "r" else if (k < 9) "h" else "e"
    val nodes = range(1, n).foldl([a], (l, i) => l.append(inner(mid.get(i)))).append(z)
    val c = { ...call0("string"), nodes: nodes, lens: lensOf(n, m), style: style }
    if (flaw > 7) (if (wellFormed(nodes)) denote(c, fromString(nodes, lensOf(n, m))) else refuse(c))
    else refuse({ ...c, flaw: if (flaw == 0) "prefix" else if (flaw == 1) "suffix" else if (flaw == 2) "negative" else if (flaw == 3) "zero"
                              else if (flaw == 4) "missing" else if (flaw == 5) "letters" else if (flaw == 6) "single" else "empty" })
  }

  // ---- support names -----------------------------------------------------------
  pure val NAMES = Set("p", "pin", "pinned", "r", "roller", "e", "encastre", "fixed", "clamped", "f", "free", "pair", "spring")
  action describeSupports = {
    nondet n = Set(1, 2, 3, 4).oneOf()
    nondet m = 0.to(3).setOfMaps(LEN).oneOf()
    nondet s = 0.to(4).setOfMaps(NAMES).oneOf()
    nondet v = 0.to(4).setOfMaps(Set(-1000000, 0, 2500000000)).oneOf()
    nondet w = 0.to(4).setOfMaps(Set(-1000000, 0, 50000000000)).oneOf()
    nondet t = 0.to(3).setOfMaps(Set("FF", "FF", "1", "FP", "PF", "PP", "2", "3", "4")).oneOf()
    nondet style = 0.to(5).oneOf()
    nondet flaw = 0.to(30).oneOf()
    pure def pairOf(i: int): List[int] =
      if (s.get(i) == "pair") [v.get(i), w.get(i)] else if (s.get(i) == "spring") [2500000000, 0] else restOf(s.get(i))
    val b = { L: lensOf(n, m),
              rest: range(0, n + 1).foldl([], (a, i) => a.concat(pairOf(i))),
              et: range(0, n).foldl([], (a, i) => a.append(typeOf(t.get(i)))) }
    val c = { ...call0("supports"), nodes: range(0, n + 1).foldl([], (a, i) => a.append(s.get(i))), num: b.rest, lens: b.L,
              types: range(0, n).foldl([], (a, i) => a.append(t.get(i))), style: style }
    if (flaw > 15) denote(c, b)
    else refuse({ ...c, flaw: if (flaw == 0) "hinge" else if (flaw == 1) "unknown" else if (flaw == 2) "few" else if (flaw == 3) "many"
                              else if (flaw == 4) "single" else if (flaw == 5) "triple" else if (flaw == 6) "both" else if (flaw == 7) "neither"
                              else if (flaw == 8) "type" else if (flaw == 9) "types" else if (flaw == 10) "rigidities" else if (flaw == 11) "displacements"
                              else if (flaw == 12) "shears" else if (flaw == 13) "beds" else if (flaw == 14) "restraints"
                              else "length" })
  }

  // ---- span by span --------------------------------------------------------------
  action grow = {
    nondet l = LEN.oneOf()
    nondet t = Set("FF", "FP", "PF", "PP", "1", "2", "3", "4").oneOf()
    nondet style = 0.to(5).oneOf()
    all { grown.L.length() < 6,
          call' = { ...call0("grow"), lens: [l], types: [t], style: style },
          grown' = { ...grown, L: grown.L.append(l), et: grown.et.append(typeOf(t)) },
          built' = built, react' = react, stable' = stable }
  }
  action growWrong = {
    nondet flaw = Set("type", "length", "section", "shear").oneOf()
    nondet l = LEN.oneOf()
    refuse({ ...call0("grow"), lens: [l], types: ["FF"], flaw: flaw })
  }
  action restart = all {
    call' = call0("restart"), grown' = nothing, built' = built, react' = react, stable' = stable }
  action step = any { describeString, describeString, describeSupports, describeSupports, grow, grow, growWrong, restart }

  /// two restraints for each node, one release code for each span
  val shaped = built.L.length() == built.et.length() and
    (built.L.length() == 0 or built.rest.length() == 2 * built.L.length() + 2)
  /// the support actions carry exactly the load put on every span
  val carried = not(stable) or
    iabs(range(0, built.L.length() + 1).foldl(0, (a, i) => a + react[2 * i]) - lsum(built.L) * 1000000) < 1000000
  /// hinges denote releases and never supports
  val hinges = (call.name == "string" and call.ok) implies
    range(0, call.nodes.length()).foldl(true, (b, i) =>
      b and ((call.nodes[i] == "h") implies (built.rest[2 * i] == 0 and built.rest[2 * i + 1] == 0 and built.et[i - 1] == 2)))
}
