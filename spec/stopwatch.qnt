// The time a solve reports. The specification keeps the caller's clock: a call begins, prints lines and returns at
// recorded instants; the reported time has to be that of this call alone.
module stopwatch {
  import linalg.* from "./linalg"
  import qp.* from "./qp"
  import decode.* from "./decode"

  // ints: level exc nLines kind_1.. (1: the completion message, 2: the line with the time, 0 another line)
  // doubles: reported time [s], duration of the call on the caller's two clocks [s],
  //          processor time at each line [s] (nLines), then the printed time [ms] if there is such a line
  pure def code(ok: bool, c: int): List[int] = if (ok) [] else [c]
  pure val MICRO = ONE / 1000000
  pure def indexOf(l: List[int], x: int): int = range(0, l.length()).foldl(-1, (a, i) => if (a < 0 and l[i] == x) i else a)

  pure def judge(I: Vec, D: Vec): List[int] = {
    val level = I[0]
    val n = I[2]
    val kinds = I.slice(3, 3 + n)
    val t = D[0]
    val longest = max_(D[1], D[2])
    val shortest = min_(D[1], D[2])
    val stamps = D.slice(3, 3 + n)
    val fin = indexOf(kinds, 1)
    val line = indexOf(kinds, 2)
    // Processor time spent between the first line and the completion message; the caller's clock may have been set meanwhile.
    val busy = if (fin > 0) min_(stamps[fin] - stamps[0], shortest) else 0
    if (I[1] != 0) []
    else
      code(t >= 0 and t >= busy - busy / 50 - 20 * MICRO, 2801)
      .concat(code(t <= longest + 2 * MICRO, 2802))
      .concat(code((level > 0) == (line >= 0), 2803))
      // printed with six decimals, in milliseconds
      .concat(code(line >= 0 implies abs_(D[3 + n] - 1000 * t) <= MICRO + abs_(t) / 2^40, 2804)) }

  var idx: int
  var bad: List[List[int]]
  action start = all { idx' = 0, bad' = [] }
  action consume(i: int, d: int): bool = {
    val v = judge(ints(i), dbls(d))
    all { idx' = idx + 1, bad' = if (v.length() == 0) bad else bad.append([idx].concat(v)) } }
}
