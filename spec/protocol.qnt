// The components as objects with a documented protocol: what must be linked, sized and prepared before a call is
// accepted. A call outside the protocol is refused with a runtime_error; a call inside it never throws.
// One world: data of two shapes, four variables, three residuals, two feasibility checkers, two linear solvers.
module protocol {
  import linalg.* from "./linalg"
  import decode.* from "./decode"

  type World = { mpc: bool, dims: List[Vec], on: List[List[bool]], ready: List[bool] }
  // shape of each object, by class: variables, residuals, checkers, linear solvers
  pure val SHAPE: List[Vec] = [[0, 0, 1, 1], [0, 1, 0], [0, 1], [0, 1]]
  pure val OFF: List[List[bool]] = [[false, false, false, false], [false, false, false], [false, false], [false, false]]
  pure val W0: World = { mpc: false, dims: [[1, 1, 1, 1], [1, 1, 1, 1]], on: OFF, ready: [false, false] }
  pure def totals(mpc: bool, d: Vec): Vec =
    if (mpc) [(d[0] + 1) * (d[1] + d[2]), (d[0] + 1) * d[1], (d[0] + 1) * d[3]] else [d[0], d[1], d[2]]
  pure def sizeOf(w: World, c: int, i: int): Vec = totals(w.mpc, w.dims[SHAPE[c][i]])
  pure def same(w: World, c: int, i: int, d: int, j: int): bool = sizeOf(w, c, i) == sizeOf(w, d, j)
  pure def setOn(w: World, c: int, i: int, v: bool): World = w.with("on", w.on.replaceAt(c, w.on[c].replaceAt(i, v)))

  // Q R S q r A B c E L d x0 of the constructor of MPC data: (length, rows, columns), x0 last
  pure def mpcShapes(N: int, x: int, u: int, c: int): List[Vec] =
    [[N + 1, x, x], [N + 1, u, u], [N + 1, u, x], [N + 1, x, 1], [N + 1, u, 1], [N, x, x], [N, x, u], [N, x, 1], [N + 1, c, x], [N + 1, c, u], [N + 1, c, 1], [1, x, 1]]

  // ------------------------------------------------------------------ what is refused
  pure def positive(v: Vec): bool = allBelow(v.length(), i => v[i] > 0)
  pure def refused(w: World, o: Vec): bool = {
    val op = o[0]
    if (op == 1) {                       // constructors: class and sizes
      if (o[1] == 4 or o[1] == 6) not(positive([o[2], o[3], o[4], o[5]])) else not(o[2] > 0 and o[3] >= 0 and o[4] > 0) }
    else if (op == 3) not(w.on[0][o[1]])                                   // InitializeConstraintMargin
    else if (op == 4) not(w.on[0][o[1]])                                   // axpy
    else if (op == 6) not(w.on[1][o[1]]) or (o[2] == 0 and (o[5] <= 0 or not(same(w, 0, o[3], 0, o[4]))))   // residuals: r which x xbar sigma
    else if (op == 7) not(w.on[2][o[1]]) or not(same(w, 2, o[1], 0, o[2])) // CheckFeasibility
    else if (op == 8) not(w.on[3][o[1]]) or o[4] <= 0 or not(same(w, 3, o[1], 0, o[2])) or not(same(w, 3, o[1], 0, o[3]))   // Initialize: s x xbar sigma
    else if (op == 9) not(w.on[3][o[1]]) or o[4] == 1 or not(same(w, 3, o[1], 1, o[2])) or not(same(w, 3, o[1], 0, o[3]))   // Solve: s r dx null
    else if (op == 10) {                 // MpcData::gemv H A G AT GT: which, sizes of x and y, null
      val t = totals(true, w.dims[0])
      val need = [[t[0], t[0]], [t[0], t[2]], [t[0], t[1]], [t[2], t[0]], [t[1], t[0]]][o[1]]
      o[4] == 1 or o[2] != need[0] or o[3] != need[1] }
    else if (op == 11) o[3] == 1 or o[2] != totals(true, w.dims[0])[o[1]]  // MpcData::axpy f h b: which, size, null
    else if (op == 12) o[1] < 8                                            // FBstabAlgorithm: which of its eight parts is missing
    else if (op == 13) {                 // DenseData: missing part, then H f G h A b
      o[1] < 6 or o[2] != o[3] or o[2] != o[4] or o[6] != o[2] or o[5] != o[7] or o[9] != o[2] or o[8] != o[10] }
    else if (op == 14) {                 // MpcData
      val sh = tabulate(12, k => o.slice(1 + 3 * k, 4 + 3 * k))
      val N = sh[0][0] - 1
      N < 1 or sh != mpcShapes(N, sh[0][1], sh[1][1], sh[8][1]) }
    else false }
  pure def after(w: World, o: Vec): World = {
    val op = o[0]
    if (op == 0) { mpc: o[1] == 1, dims: [o.slice(2, 6), o.slice(6, 10)], on: OFF, ready: [false, false] }
    else if (op == 2) setOn(w, o[1], o[2], o[3] == 1)                      // link or unlink: class object
    else if (op == 5) setOn(w, 0, o[1], w.on[0][o[2]])                     // a copy is linked like the original
    else if (op == 8 and not(refused(w, o))) w.with("ready", w.ready.replaceAt(o[1], true))
    else w }

  // ------------------------------------------------------------------ generator: only calls the documentation decides
  pure def choose(w: World, p: int -> int): Vec = {
    pure def pick(k: int, n: int): int = p.get(k) % n
    val k = pick(0, 48)
    val sg = [1, 2, 3, 4, 5, 6, 0, -1, -3][pick(9, 9)]
    val i = pick(1, 4)
    val r = pick(2, 3)
    val s = pick(3, 2)
    val link = { val c = pick(4, 4)
                 [2, c, pick(5, SHAPE[c].length()), if (pick(6, 4) == 0) 0 else 1] }
    if (k < 14) link
    else if (k < 17) {                   // sizes with at most two bad ones
      val c = pick(1, 7)
      val d = tabulate(4, j => 1 + pick(5 + j, 3))
      val e = if (pick(9, 3) == 0) d else d.replaceAt(pick(10, 4), pick(11, 4) - 2)
      [1, c].concat(if (pick(12, 3) == 0) e.replaceAt(pick(13, 4), pick(14, 4) - 2) else e) }
    else if (k < 20) [3, i]
    else if (k < 22) { val l = range(0, 4).select(j => same(w, 0, i, 0, j)) [4, i, l[pick(4, l.length())]] }
    else if (k < 24) { val l = range(0, 4).select(j => SHAPE[0][j] == SHAPE[0][i]) [5, i, l[pick(4, l.length())]] }
    else if (k < 29) {
      val c = pick(4, 5)
      val x = range(0, 4).select(j => same(w, 1, r, 0, j))
      if (c < 2) [6, r, 1 + c, x[pick(5, x.length())], 0, 1] else {
        val a = x[pick(5, x.length())]
        val b = if (c < 4) x[pick(6, x.length())] else pick(6, 4)
        if (pick(7, 2) == 0) [6, r, 0, a, b, sg] else [6, r, 0, b, a, sg] } }
    else if (k < 32) [7, s, i]
    else if (k < 36) { val x = range(0, 4).select(j => same(w, 3, s, 0, j))
                       [8, s, if (pick(4, 3) == 0) i else x[pick(4, x.length())], if (pick(5, 3) == 0) pick(6, 4) else x[pick(7, x.length())], sg] }
    else if (k < 41) {
      val x = range(0, 4).select(j => same(w, 3, s, 0, j))
      val y = range(0, 3).select(j => same(w, 3, s, 1, j))
      val o = [9, s, if (pick(4, 3) == 0) r else y[pick(4, y.length())], if (pick(5, 3) == 0) i else x[pick(5, x.length())], if (pick(6, 6) == 0) 1 else 0]
      if (refused(w, o) or w.ready[s]) o else link }
    else if (k < 43) { if (not(w.mpc)) link else {
      val t = totals(true, w.dims[0])
      val f = pick(4, 5)
      val need = [[t[0], t[0]], [t[0], t[2]], [t[0], t[1]], [t[2], t[0]], [t[1], t[0]]][f]
      val q = pick(5, 6)
      [10, f, if (q == 0) t[pick(6, 3)] else if (q == 1) need[0] + pick(7, 3) - 1 else need[0], if (q == 2) t[pick(6, 3)] else if (q == 3) need[1] + pick(7, 3) - 1 else need[1], if (q == 4) 1 else 0] } }
    else if (k < 44) { if (not(w.mpc)) link else {
      val t = totals(true, w.dims[0])
      val f = pick(4, 3)
      val q = pick(5, 4)
      [11, f, if (q == 0) t[pick(6, 3)] else if (q == 1) t[f] + pick(7, 3) - 1 else t[f], if (q == 2) 1 else 0] } }
    else if (k < 45) [12, pick(4, 10)]
    else if (k < 46) {
      val a = 1 + pick(4, 3)
      val b = pick(5, 3)
      val c = 1 + pick(6, 3)
      val d = [a, a, a, b, a, b, c, a, c]
      val e = if (pick(7, 3) == 0) d else { val j = pick(8, 9) d.replaceAt(j, max_(0, d[j] + [1, -1, 2][pick(9, 3)])) }
      [13, if (pick(10, 3) == 0) pick(11, 6) else 6].concat(e) }
    else {
      val sh = mpcShapes(1 + pick(4, 2), 1 + pick(5, 2), 1 + pick(6, 2), 1 + pick(7, 2))
      val d = concatAll(sh)
      val j = pick(8, 36)
      // (x0 has no length nor columns; an array of length 0 cannot be built)
      if (pick(9, 4) == 0 or j == 33 or j == 35) [14].concat(d) else [14].concat(d.replaceAt(j, max_(1, d[j] + [1, -1][pick(10, 2)]))) } }
  var case: List[int]
  var world: World
  var left: int
  pure val LEN = 60
  action init = all { case' = [0, 0, 1, 1, 1, 1, 1, 1, 1, 1], world' = W0, left' = LEN }
  action step = {
    nondet p = 0.to(15).setOfMaps(0.to(2147483647)).oneOf()
    val m = p.get(0) % 2
    val d = if (m == 1) tabulate(4, j => 1 + p.get(1 + j) % 2) else [1 + p.get(1) % 3, p.get(2) % 3, 1 + p.get(3) % 3, 0]
    // the other shape: the same, one size different, or anything
    val q = p.get(5) % 6
    val e = if (q == 0) d else if (q < 4) d.replaceAt(if (m == 1) p.get(6) % 4 else p.get(6) % 3, 1 + p.get(7) % 3)
            else if (m == 1) tabulate(4, j => 1 + p.get(8 + j) % 3) else [1 + p.get(8) % 3, p.get(9) % 3, 1 + p.get(10) % 3, 0]
    val o = if (left == 0) [0, m].concat(d).concat(e) else choose(world, p)
    all { case' = o, world' = after(world, o), left' = if (left == 0) LEN else left - 1 } }
  val sound = world.dims.all_(d => positive(totals(world.mpc, d).replaceAt(1, 1)) and totals(world.mpc, d)[1] >= 0)

  // ------------------------------------------------------------------ trace: nOp op.. what happened (0 returned, 1 runtime_error, 2 something else)
  var idx: int
  var bad: List[List[int]]
  var st: World
  action start = all { idx' = 0, bad' = [], st' = W0 }
  action consume(i: int, d: int): bool = {
    val I = ints(i)
    val o = I.slice(1, 1 + I[0])
    val got = I[1 + I[0]]
    val want = if (refused(st, o)) 1 else 0
    val codes = if (got == want) [] else if (got > 1) [2603] else if (want == 1) [2601] else [2602]
    all { idx' = idx + 1, st' = after(st, o), bad' = if (codes.length() == 0) bad else bad.append([idx].concat(codes)) } }
}
