// -*- mode: Bluespec; -*-
/// Fixed-point arithmetic on unbounded integers: a real number r is represented
/// by the integer r * ONE.  With 40 decimal places the rounding of the model
/// itself is some 25 orders of magnitude below anything an IEEE double can show,
/// so the model's numbers serve as "exact" reference values.
module fx {
  pure val ONE: int = 10000000000000000000000000000000000000000
  /// inputs are integers in micro units (1e-6)
  pure val MICRO: int = 10000000000000000000000000000000000
  /// outputs are integers in pico units (1e-12)
  pure val PICO: int = 10000000000000000000000000000

  pure def fmul(a: int, b: int): int = a * b / ONE
  pure def fdiv(a: int, b: int): int = a * ONE / b
  pure def iabs(a: int): int = if (a < 0) -a else a
  pure def imax(a: int, b: int): int = if (a < b) b else a
  pure def imin(a: int, b: int): int = if (a < b) a else b
  /// micro-unit integer -> fixed point
  pure def fromMicro(a: int): int = a * MICRO
  /// fixed point -> pico-unit integer
  pure def toPico(a: int): int = a / PICO

  // ---- integer lists -----------------------------------------------------
  pure def lsum(l: List[int]): int = l.foldl(0, (a, b) => a + b)
  pure def lmap(l: List[int], f: int => int): List[int] =
    l.foldl([], (acc, x) => acc.append(f(x)))
  pure def insertSorted(l: List[int], x: int): List[int] =
    l.select(y => y < x).concat([x]).concat(l.select(y => y > x))
  /// sorted, duplicates removed
  pure def sortU(l: List[int]): List[int] =
    l.foldl([], (acc, x) => insertSorted(acc, x))
  pure def lcontains(l: List[int], x: int): bool =
    l.foldl(false, (b, y) => b or x == y)
  pure def repeatInt(x: int, n: int): List[int] =
    range(0, n).foldl([], (acc, i) => acc.append(x))
  pure def unitVec(k: int, n: int, v: int): List[int] =
    range(0, n).foldl([], (acc, i) => acc.append(if (i == k) v else 0))

  // ---- vectors of fixed-point numbers ------------------------------------
  pure def vadd(a: List[int], b: List[int]): List[int] =
    range(0, a.length()).foldl([], (acc, i) => acc.append(a[i] + b[i]))
  /// a + k*b
  pure def vaxpy(a: List[int], k: int, b: List[int]): List[int] =
    range(0, a.length()).foldl([], (acc, i) => acc.append(a[i] + fmul(k, b[i])))
  pure def vscale(k: int, b: List[int]): List[int] =
    b.foldl([], (acc, x) => acc.append(fmul(k, x)))
  /// add a constant to component 0 (the load column)
  pure def vconst(a: List[int], c: int): List[int] =
    if (c == 0) a else a.replaceAt(0, a[0] + c)
  pure def dot(a: List[int], b: List[int]): int =
    range(0, a.length()).foldl(0, (acc, i) => acc + a[i] * b[i]) / ONE
}
