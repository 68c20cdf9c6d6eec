/// Effects of load lists at a common set of stations, and extremes over selections.
module effects {
  import fx.* from "./fx"
  import mechanics.* from "./mechanics"

  /// station values (pico) along the whole beam, member after member
  type Effect = { m: List[int], v: List[int] }
  pure val noEffect: Effect = { m: [], v: [] }

  // ---- effects -------------------------------------------------------------------
  pure val NS = 8
  pure def effect(b: Beam, rows: List[Row], s: Sol): Effect =
    range(0, b.spans.length()).foldl(noEffect, (e, i) => {
      val d = diagram(b, rows, s, i, range(0, NS + 1).foldl([], (a, k) => a.append(b.spans[i].L * k / NS)))
      // only the requested stations (the diagram may hold others as well)
      range(0, NS + 1).foldl(e, (z, k) => {
        val o = d.select(u => u.x == b.spans[i].L * k / NS)
        { m: z.m.append(toPico(o[0].lo.m[0])), v: z.v.append(toPico(o[0].lo.q[0])) } }) })
  pure def effectOf(b: Beam, rows: List[Row]): Effect = effect(b, rows, solveBeam(b, rows))
  pure def scaleRow(r: Row, g: int): Row =
    if (r[1] == 5) r.replaceAt(2, r[2] * g / 1000).replaceAt(3, r[3] * g / 1000)
    else if (r[1] == 6) range(2, r.length()).foldl(r, (x, k) => x.replaceAt(k, r[k] * g / 1000))
    else r.replaceAt(2, r[2] * g / 1000)
  pure def pickSum(rows: List[List[int]], keep: Set[int], j: int): int =
    range(0, rows.length()).foldl(0, (a, i) => a + (if (keep.contains(i)) rows[i][j] else 0))
  /// extreme over the selections of the sum at every station; sign = +1 or -1
  pure def extreme(rows: List[List[int]], sels: List[Set[int]], sign: int): List[int] =
    range(0, rows[0].length()).foldl([], (acc, j) =>
      acc.append(sign * sels.foldl(sign * pickSum(rows, sels[0], j), (best, k) => imax(best, sign * pickSum(rows, k, j)))))
  /// all selections of n of the cases 0..m-1 (n < 0: any number of them)
  pure def selections(m: int, n: int): List[Set[int]] =
    range(0, m).foldl([Set()], (acc, i) => acc.concat(acc.foldl([], (a, s) => a.append(s.union(Set(i))))))
      .select(s => n < 0 or s.size() == n)

}
