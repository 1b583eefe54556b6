// What a convex QP is, what solves it, what certifies that it has no solution.
// Everything here is exact. A "point" is given in fixed point: real = int / 2^SB.
module qp {
  import linalg.* from "./linalg"

  // Problem data are dyadic: real = int / 2^ds.
  type Qp = { nz: int, nl: int, nv: int, ds: int,
              H: Mat, f: Vec, G: Mat, h: Vec, A: Mat, b: Vec }
  type Stage = { Q: Mat, R: Mat, S: Mat, q: Vec, r: Vec, E: Mat, L: Mat, d: Vec,
                 A: Mat, B: Mat, c: Vec }     // A,B,c unused (empty) in the last stage
  type Mpc = { N: int, nx: int, nu: int, nc: int, ds: int, st: List[Stage], x0: Vec }
  type Pt = { z: Vec, l: Vec, v: Vec, y: Vec }

  pure val SB = 128
  pure val ONE = 2^SB

  // ---------------------------------------------------------------- stacking an MPC problem
  // z = (x0,u0,...,xN,uN);  rows of G: -x(0) ; A x(i-1) + B u(i-1) - x(i);  A rows: E x + L u
  pure def ofMpc(m: Mpc): Qp = {
    val w = m.nx + m.nu
    val n = (m.N + 1) * w
    pure def place(row: Vec, off: int): Vec =
      tabulate(n, j => if (j >= off and j < off + row.length()) row[j - off] else 0)
    { nz: n, nl: (m.N + 1) * m.nx, nv: (m.N + 1) * m.nc, ds: m.ds,
      H: concatAll(tabulate(m.N + 1, i => {
           val s = m.st[i]
           tabulate(m.nx, a => place(s.Q[a].concat(tabulate(m.nu, k => s.S[k][a])), i * w))
             .concat(tabulate(m.nu, k => place(s.S[k].concat(s.R[k]), i * w))) })),
      f: concatAll(tabulate(m.N + 1, i => m.st[i].q.concat(m.st[i].r))),
      G: concatAll(tabulate(m.N + 1, i =>
           if (i == 0) tabulate(m.nx, a => tabulate(n, j => if (j == a) -1 * 2^m.ds else 0))
           else {
             val s = m.st[i - 1]
             tabulate(m.nx, a => {
               val dyn = place(s.A[a].concat(s.B[a]), (i - 1) * w)
               dyn.replaceAt(i * w + a, dyn[i * w + a] - 2^m.ds) }) })),
      h: concatAll(tabulate(m.N + 1, i => if (i == 0) scale(-1, m.x0) else scale(-1, m.st[i - 1].c))),
      A: concatAll(tabulate(m.N + 1, i => tabulate(m.nc, k => place(m.st[i].E[k].concat(m.st[i].L[k]), i * w)))),
      b: concatAll(tabulate(m.N + 1, i => scale(-1, m.st[i].d))) }
  }

  // ---------------------------------------------------------------- KKT residual
  // stationarity H z + f + G' l + A' v, in units 2^-(ds+SB)
  pure def rz(p: Qp, x: Pt): Vec =
    add(add(mv(p.H, x.z), scale(ONE, p.f)), add(mtv(p.G, x.l, p.nz), mtv(p.A, x.v, p.nz)))
  // equality h - G z, same units
  pure def rl(p: Qp, x: Pt): Vec = sub(scale(ONE, p.h), mv(p.G, x.z))
  // margin b - A z, same units
  pure def margin(p: Qp, x: Pt): Vec = sub(scale(ONE, p.b), mv(p.A, x.z))
  // penalized complementarity alpha*min(y,v) + (1-alpha)*max(0,y)*max(0,v) with y = b - A z,
  // in units 2^-(ds+3*SB)... (alpha and v carry SB each, y carries ds+SB)
  pure def rvPenY(p: Qp, x: Pt, y: Vec, alpha: int): Vec =
    tabulate(p.nv, i => {
      val vi = x.v[i] * 2^p.ds
      alpha * min_(y[i], vi) * ONE + (ONE - alpha) * pos(y[i]) * pos(x.v[i])
    })
  // squared norm of the penalized natural residual in units 2^-2(ds+3*SB)
  pure def penSqY(p: Qp, x: Pt, y: Vec, alpha: int): int =
    (sq(rz(p, x)) + sq(rl(p, x))) * 2^(4 * SB) + sq(rvPenY(p, x, y, alpha))
  pure def penSq(p: Qp, x: Pt, alpha: int): int = penSqY(p, x, margin(p, x), alpha)
  pure def RU(p: Qp): int = 2^(p.ds + 3 * SB)        // real 1 in residual units

  // ||(f,h,b)||^2 in units 2^-2ds
  pure def forcingSq(p: Qp): int = sq(p.f) + sq(p.h) + sq(p.b)

  // natural residual is zero: x is a KKT point (exact)
  pure def isKkt(p: Qp, x: Pt): bool = {
    val y = margin(p, x)
    and { infnorm(rz(p, x)) == 0, infnorm(rl(p, x)) == 0,
          allBelow(p.nv, i => y[i] >= 0 and x.v[i] >= 0 and y[i] * x.v[i] == 0) }
  }

  // ---------------------------------------------------------------- certificates (exact, no tolerance)
  pure def farkas(p: Qp, l: Vec, v: Vec): bool = and {
    infnorm(add(mtv(p.G, l, p.nz), mtv(p.A, v, p.nz))) == 0,
    allBelow(p.nv, i => v[i] >= 0),
    dot(p.h, l) + dot(p.b, v) < 0 }
  pure def recession(p: Qp, d: Vec): bool = and {
    infnorm(mv(p.H, d)) == 0, infnorm(mv(p.G, d)) == 0,
    allBelow(p.nv, i => dot(p.A[i], d) <= 0),
    dot(p.f, d) < 0 }
  pure def feasiblePt(p: Qp, z: Vec): bool = and {    // z integer (unscaled), data ds
    allBelow(p.nl, i => dot(p.G[i], z) == p.h[i]),
    allBelow(p.nv, i => dot(p.A[i], z) <= p.b[i]) }

  // ---------------------------------------------------------------- well-formedness
  pure def shapeOk(p: Qp): bool = and {
    p.nz > 0, p.nv > 0, p.nl >= 0,
    p.H.length() == p.nz, p.f.length() == p.nz, p.H.all_(r => r.length() == p.nz),
    p.G.length() == p.nl, p.h.length() == p.nl, p.G.all_(r => r.length() == p.nz),
    p.A.length() == p.nv, p.b.length() == p.nv, p.A.all_(r => r.length() == p.nz) }
  pure def symmetric(M: Mat): bool =
    allBelow(M.length(), i => allBelow(i, j => M[i][j] == M[j][i]))
}
