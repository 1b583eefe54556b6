// Residual functions of a point with a stored margin, in fixed point (real = int / 2^SB), together with bounds on what
// double arithmetic may make of them.
module kkt {
  import linalg.* from "./linalg"
  import qp.* from "./qp"

  pure def mul(a: int, b: int): int = (a * b) / ONE
  pure def rows(M: Mat): int = M.foldl(0, (m, r) => max_(m, absSum(r)))
  pure def cols(M: Mat, n: int): int = tabulate(n, j => M.foldl(0, (t, r) => t + abs_(r[j]))).foldl(0, (m, e) => max_(m, e))
  pure def eps(m: int, bits: int): int = m / 2^bits + 4          // 2^-bits of a magnitude, and the resolution

  // penalised Fischer-Burmeister function
  pure def root(a: int, b: int): int = isqrt(a * a + b * b, 2 * SB + 8)
  pure def pfb(a: int, b: int, alpha: int): int = mul(alpha, a + b - root(a, b)) + mul(ONE - alpha, mul(pos(a), pos(b)))

  // stationarity and equality part, with the proximal terms (s = 0: without)
  pure def resZ(p: Qp, x: Pt, xb: Pt, s: int): Vec = {
    val r = rz(p, x)
    tabulate(p.nz, i => r[i] / 2^p.ds + (if (s == 0) 0 else mul(s, x.z[i] - xb.z[i]))) }
  pure def resL(p: Qp, x: Pt, xb: Pt, s: int): Vec = {
    val r = rl(p, x)
    tabulate(p.nl, i => r[i] / 2^p.ds + (if (s == 0) 0 else mul(s, x.l[i] - xb.l[i]))) }
  // residual of the proximal subproblem at (z,l,v,y)
  pure def inner(p: Qp, x: Pt, xb: Pt, s: int, alpha: int): Pt =
    { z: resZ(p, x, xb, s), l: resL(p, x, xb, s), v: tabulate(p.nv, i => pfb(x.y[i] + mul(s, x.v[i] - xb.v[i]), x.v[i], alpha)), y: [] }
  // penalised natural residual at (z,l,v,y)
  pure def outer(p: Qp, x: Pt, alpha: int): Pt =
    { z: resZ(p, x, x, 0), l: resL(p, x, x, 0),
      v: tabulate(p.nv, i => mul(alpha, min_(x.y[i], x.v[i])) + mul(ONE - alpha, mul(pos(x.y[i]), pos(x.v[i])))), y: [] }
  // size of the terms of either, and of one component's rounding error
  pure def terms(p: Qp, x: Pt, xb: Pt, s: int): int = {
    val nz = infnorm(x.z)
    val nv = infnorm(x.v)
    val ny = infnorm(x.y)
    val lin = ((rows(p.H) + rows(p.G)) * nz + cols(p.G, p.nz) * infnorm(x.l) + cols(p.A, p.nz) * nv + (infnorm(p.f) + infnorm(p.h)) * ONE) / 2^p.ds
    val prox = mul(s, nz + infnorm(x.l) + infnorm(xb.z) + infnorm(xb.l))
    val c = ny + nv + mul(s, nv + infnorm(xb.v))
    lin + prox + mul(c, ONE + nv) }
  pure def resErr(p: Qp, x: Pt, xb: Pt, s: int): int = eps(terms(p, x, xb, s), 46)

  pure def normSq(r: Pt): int = sq(r.z) + sq(r.l) + sq(r.v)
  pure def norm(r: Pt): int = isqrt(normSq(r), 2 * SB)
  pure def norm1(r: Pt): int = absSum(r.z) + absSum(r.l) + absSum(r.v)
  pure def dimOf(p: Qp): int = p.nz + p.nl + p.nv
  // a value known to within an error
  type Num = { v: int, e: int }
  pure def normNum(p: Qp, r: Pt, err: int): Num = { val n = norm(r) { v: n, e: (dimOf(p)) * err + eps(n, 46) } }
  // merit 0.5 ||r||^2
  pure def meritNum(p: Qp, r: Pt, err: int): Num = {
    val m = normSq(r) / (2 * ONE)
    { v: m, e: mul(2 * norm1(r), err) + mul(dimOf(p) * err, err) + eps(m, 46) } }
  // is a <= b?  1 yes, 0 no, 2 cannot be told
  pure def leq(a: Num, b: Num): int = if (a.v + a.e <= b.v - b.e) 1 else if (a.v - a.e > b.v + b.e) 0 else 2
  pure def sure(x: int): Num = { v: x, e: 0 }
  pure def maxNum(a: Num, b: Num): Num = { v: max_(a.v, b.v), e: max_(a.e, b.e) }
  pure def and3(a: int, b: int): int = if (a == 0 or b == 0) 0 else if (a == 1 and b == 1) 1 else 2
  pure def or3(a: int, b: int): int = if (a == 1 or b == 1) 1 else if (a == 0 and b == 0) 0 else 2
}
