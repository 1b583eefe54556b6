// The sparse factorisation wrapper (tools/qdldl/qdldl_wrapper.h): objects analysed for one sparsity pattern, factored any
// number of times with that pattern, solving with the matrix factored last. Matrices are L D L' with small integers and
// powers of two, so that factorisation and solution are exact in double arithmetic and x is the only answer.
module ldl {
  import linalg.* from "./linalg"
  import decode.* from "./decode"

  // n; pattern of L below the diagonal and of A above and on it, by columns; the symmetric matrix factored last
  type Obj = { n: int, low: List[Vec], up: List[Vec], A: Mat, done: bool }
  pure val NONE: Obj = { n: 0, low: [], up: [], A: [], done: false }
  pure val NS = 3
  pure val W0 = tabulate(NS, i => NONE)
  pure def has(l: List[Vec], i: int, j: int): bool = not(allBelow(l.length(), k => l[k] != [i, j]))
  pure def dense(n: int, up: List[Vec], v: Vec): Mat =
    range(0, up.length()).foldl(tabulate(n, i => tabulate(n, j => 0)), (M, k) => {
      val i = up[k][0]
      val j = up[k][1]
      val R = M.replaceAt(i, M[i].replaceAt(j, v[k]))
      R.replaceAt(j, R[j].replaceAt(i, v[k])) })

  // 1 analyse: s n nnz (i j)*    2 factor: s values*    3 solve: s b*    4 copy: s t
  pure def after(w: List[Obj], o: Vec): List[Obj] =
    if (o[0] == 0) W0
    else if (o[0] == 1) w.replaceAt(o[1], { n: o[2], low: [], up: tabulate(o[3], k => [o[4 + 2 * k], o[5 + 2 * k]]), A: [], done: false })
    else if (o[0] == 2) { val x = w[o[1]]
      w.replaceAt(o[1], x.with("A", dense(x.n, x.up, o.slice(2, o.length()))).with("done", true)) }
    else if (o[0] == 4) w.replaceAt(o[1], w[o[2]])
    else w

  // ------------------------------------------------------------------ generator
  pure def choose(w: List[Obj], p: int -> int): { o: Vec, low: List[Vec] } = {
    pure def pick(k: int, n: int): int = p.get(k) % n
    val s = pick(1, NS)
    val x = w[s]
    val k = pick(0, 12)
    if (x.n == 0 or k == 0) {
      val n = 1 + pick(2, 6)
      val dens = pick(3, 4)
      // (an arrow, a band, or anything)
      val low = concatAll(tabulate(n, j => range(j + 1, n).select(i =>
        if (dens == 0) i == n - 1 else if (dens == 1) i == j + 1 else (p.get(4 + (i + 3 * j) % 9) / (1 + i + 7 * j)) % (dens + 1) == 0).listMap(i => [i, j])))
      val L: Mat = tabulate(n, i => tabulate(n, j => if (i == j or has(low, i, j)) 1 else 0))
      val up = concatAll(tabulate(n, j => range(0, j + 1).select(i => not(allBelow(n, m => L[i][m] * L[j][m] == 0))).listMap(i => [i, j])))
      { o: [1, s, n, up.length()].concat(concatAll(up)), low: low } }
    else if (k < 5 or not(x.done)) {
      val L: Mat = tabulate(x.n, i => tabulate(x.n, j => if (i == j) 1 else if (has(x.low, i, j)) (p.get(2 + (i + 2 * j) % 9) / (1 + i + 5 * j)) % 5 - 2 else 0))
      val D = tabulate(x.n, i => { val q = (p.get(11) / (i + 1)) % 6
                                   [1, 2, 4, -1, -2, -8][q] })
      { o: [2, s].concat(x.up.listMap(e => sumOver(x.n, m => L[e[0]][m] * D[m] * L[e[1]][m]))), low: x.low } }
    else if (k < 11) { o: [3, s].concat(mv(x.A, tabulate(x.n, i => (p.get(2 + i) / 3) % 41 - 20))), low: x.low }
    else { val t = (s + 1 + pick(2, NS - 1)) % NS
           { o: [4, s, t], low: w[t].low } } }
  pure def sumOver(n: int, f: int => int): int = range(0, n).foldl(0, (a, i) => a + f(i))
  var case: List[int]
  var world: List[Obj]
  var left: int
  action init = all { case' = [0], world' = W0, left' = 60 }
  action step = {
    nondet p = 0.to(15).setOfMaps(0.to(2147483647)).oneOf()
    val c = if (left == 0) { o: [0], low: [] } else choose(world, p)
    val w = after(world, c.o)
    all { case' = c.o, left' = if (left == 0) 60 else left - 1,
          world' = if (c.o[0] == 0) w else w.replaceAt(c.o[1], w[c.o[1]].with("low", c.low)) } }
  // the diagonal is part of every pattern, entries are on or above it
  val sound = world.all_(x => x.up.all_(e => e[0] <= e[1]) and allBelow(x.n, i => has(x.up, i, i)))

  // ------------------------------------------------------------------ trace: nOp op.. exception answer.. (integers; 2^60 stands for anything else)
  var idx: int
  var bad: List[List[int]]
  var st: List[Obj]
  action start = all { idx' = 0, bad' = [], st' = W0 }
  action consume(i: int, d: int): bool = {
    val I = ints(i)
    val o = I.slice(1, 1 + I[0])
    val exc = I[1 + I[0]]
    val x = I.slice(2 + I[0], I.length())
    val w = after(st, o)
    val ok = if (exc != 0) false else if (o[0] == 3) x.length() == st[o[1]].n and mv(st[o[1]].A, x) == o.slice(2, o.length()) else true
    all { idx' = idx + 1, st' = w, bad' = if (ok) bad else bad.append([idx, if (exc != 0) 2702 else 2701]) } }
}
