// Exact integer linear algebra. Quint's simulator has unbounded integers, so every
// operator below is exact; rationals are represented by a common scale chosen by the caller.
module linalg {
  type Vec = List[int]
  type Mat = List[Vec]          // list of rows; a matrix with no rows is []

  pure def listMap(l: List[a], f: (a) => b): List[b] = l.foldl([], (acc, e) => acc.append(f(e)))
  pure def tabulate(n: int, f: (int) => b): List[b] = range(0, n).foldl([], (acc, i) => acc.append(f(i)))
  pure def all_(l: List[a], f: (a) => bool): bool = l.foldl(true, (acc, e) => acc and f(e))
  pure def allBelow(n: int, f: (int) => bool): bool = range(0, n).foldl(true, (acc, i) => acc and f(i))
  pure def concatAll(l: List[List[a]]): List[a] = l.foldl([], (acc, e) => acc.concat(e))

  pure def abs_(x: int): int = if (x < 0) -x else x
  pure def max_(a: int, b: int): int = if (a < b) b else a
  pure def min_(a: int, b: int): int = if (b < a) b else a
  pure def pos(x: int): int = max_(x, 0)

  pure def zeros(n: int): Vec = tabulate(n, i => 0)
  pure def dot(a: Vec, b: Vec): int = a.indices().fold(0, (s, i) => s + a[i] * b[i])
  pure def add(a: Vec, b: Vec): Vec = tabulate(a.length(), i => a[i] + b[i])
  pure def sub(a: Vec, b: Vec): Vec = tabulate(a.length(), i => a[i] - b[i])
  pure def scale(s: int, a: Vec): Vec = a.listMap(x => s * x)
  pure def mv(M: Mat, x: Vec): Vec = M.listMap(r => dot(r, x))
  // M' x with n columns (n is needed when M has no rows)
  pure def mtv(M: Mat, x: Vec, n: int): Vec =
    M.indices().fold(zeros(n), (acc, i) => if (x[i] == 0) acc else add(acc, scale(x[i], M[i])))
  pure def sq(a: Vec): int = a.foldl(0, (s, x) => s + x * x)
  pure def sum(a: Vec): int = a.foldl(0, (s, x) => s + x)
  pure def maxElem(a: Vec): int = a.foldl(a[0], (m, x) => max_(m, x))
  pure def minElem(a: Vec): int = a.foldl(a[0], (m, x) => min_(m, x))
  pure def infnorm(a: Vec): int = a.foldl(0, (m, x) => max_(m, abs_(x)))
  pure def matInf(M: Mat): int = M.foldl(0, (m, r) => max_(m, infnorm(r)))
  // row sums of absolute values
  pure def absSum(a: Vec): int = a.foldl(0, (s, x) => s + abs_(x))
  pure def eye(n: int): Mat = tabulate(n, i => tabulate(n, j => if (i == j) 1 else 0))
  pure def matAdd(P: Mat, Q: Mat): Mat = tabulate(P.length(), i => add(P[i], Q[i]))
  pure def transpose(M: Mat, n: int): Mat = tabulate(n, j => M.listMap(r => r[j]))
  pure def matMul(P: Mat, Q: Mat, n: int): Mat = {
    val Qt = transpose(Q, n)
    P.listMap(r => Qt.listMap(c => dot(r, c)))
  }
  pure def gram(M: Mat, n: int): Mat = { val T = transpose(M, n) T.listMap(c => T.listMap(d => dot(c, d))) }

  // Number of binary digits of x >= 0, x < 2^2048.
  pure def digits(x: int): int =
    if (x == 0) 0 else range(0, 11).foldl({ x: x, n: 1 }, (s, k) => {
      val h = 2^(10 - k)
      if (s.x >= 2^h) { x: s.x / 2^h, n: s.n + h } else s }).n
  // Integer square root (floor) of x >= 0, x < 2^2048: Newton's iteration from above, at most twice the root to start with.
  pure def isqrt(x: int, bits: int): int =
    if (x == 0) 0 else {
      val r = range(0, 12).foldl(2^((digits(x) + 1) / 2), (r, k) => (r + x / r) / 2)
      if (r * r > x) r - 1 else r }
}
