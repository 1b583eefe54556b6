// Reading a recorded event. An event is two integers: the list of its integer fields (64 bits
// each) and the list of its doubles (fixed point, SB fractional bits, 256 bits each).
module decode {
  import linalg.* from "./linalg"
  import qp.* from "./qp"

  pure val WI = 64
  pure val WD = 256
  pure val NAN = -2^255
  pure val PINF = 2^255 - 1
  pure val NINF = -2^255 + 1
  // a double the specification computes with: finite and not astronomically large
  pure def sane(x: int): bool = -2^228 < x and x < 2^228
  pure def finite(x: int): bool = NINF < x and x < PINF
  pure def saneVec(l: Vec): bool = l.all_(x => sane(x))

  pure def unpack(lit: int, w: int): Vec = {
    val base = 2^w
    val off = 2^(w - 1)
    val n = lit % base
    range(0, n).foldl({ rest: lit / base, out: [] }, (s, i) =>
      { rest: s.rest / base, out: s.out.append((s.rest % base) - off) }).out }
  pure def ints(lit: int): Vec = unpack(lit, WI)
  pure def dbls(lit: int): Vec = unpack(lit, WD)

  // r x c matrix stored by rows from position o
  pure def matAt(xs: Vec, o: int, r: int, c: int): Mat =
    tabulate(r, i => xs.slice(o + i * c, o + i * c + c))
  pure def vecAt(xs: Vec, o: int, n: int): Vec = xs.slice(o, o + n)

  // Problem block: [mpc, N, nx, nu, nc, nz, nl, nv, ds, data...]
  //   dense data: H f G h A b;   MPC data: per stage Q R S q r E L d (A B c), then x0
  pure val PH = 9
  pure def stageLen(nx: int, nu: int, nc: int): int = nx * nx + nu * nu + nu * nx + nx + nu + nc * nx + nc * nu + nc
  pure def dynLen(nx: int, nu: int): int = nx * nx + nx * nu + nx
  pure def probLen(xs: Vec): int =
    PH + (if (xs[0] == 0) { val nz = xs[5] val nl = xs[6] val nv = xs[7]
                            nz * nz + nz + nl * nz + nl + nv * nz + nv }
          else { val N = xs[1] val nx = xs[2] val nu = xs[3] val nc = xs[4]
                 (N + 1) * stageLen(nx, nu, nc) + N * dynLen(nx, nu) + nx })
  pure def denseAt(xs: Vec, o: int): Qp = {
    val nz = xs[o + 5]
    val nl = xs[o + 6]
    val nv = xs[o + 7]
    val oH = o + PH
    val of_ = oH + nz * nz
    val oG = of_ + nz
    val oh = oG + nl * nz
    val oA = oh + nl
    val ob = oA + nv * nz
    { nz: nz, nl: nl, nv: nv, ds: xs[o + 8],
      H: matAt(xs, oH, nz, nz), f: vecAt(xs, of_, nz), G: matAt(xs, oG, nl, nz), h: vecAt(xs, oh, nl),
      A: matAt(xs, oA, nv, nz), b: vecAt(xs, ob, nv) } }
  pure def stageAt(xs: Vec, o: int, nx: int, nu: int, nc: int, last: bool): Stage = {
    val oR = o + nx * nx
    val oS = oR + nu * nu
    val oq = oS + nu * nx
    val or_ = oq + nx
    val oE = or_ + nu
    val oL = oE + nc * nx
    val od = oL + nc * nu
    val oA = od + nc
    val oB = oA + nx * nx
    val oc = oB + nx * nu
    { Q: matAt(xs, o, nx, nx), R: matAt(xs, oR, nu, nu), S: matAt(xs, oS, nu, nx), q: vecAt(xs, oq, nx), r: vecAt(xs, or_, nu),
      E: matAt(xs, oE, nc, nx), L: matAt(xs, oL, nc, nu), d: vecAt(xs, od, nc),
      A: if (last) [] else matAt(xs, oA, nx, nx), B: if (last) [] else matAt(xs, oB, nx, nu), c: if (last) [] else vecAt(xs, oc, nx) } }
  pure def mpcAt(xs: Vec, o: int): Mpc = {
    val N = xs[o + 1]
    val nx = xs[o + 2]
    val nu = xs[o + 3]
    val nc = xs[o + 4]
    val sl = stageLen(nx, nu, nc)
    val dl = dynLen(nx, nu)
    { N: N, nx: nx, nu: nu, nc: nc, ds: xs[o + 8],
      st: tabulate(N + 1, i => stageAt(xs, o + PH + i * (sl + dl), nx, nu, nc, i == N)),
      x0: vecAt(xs, o + PH + (N + 1) * sl + N * dl, nx) } }
  pure def probAt(xs: Vec, o: int): Qp = if (xs[o] == 0) denseAt(xs, o) else ofMpc(mpcAt(xs, o))

  // z l v [y] from position o of the doubles
  pure def ptAt(ds: Vec, o: int, p: Qp, withY: bool): Pt =
    { z: vecAt(ds, o, p.nz), l: vecAt(ds, o + p.nz, p.nl), v: vecAt(ds, o + p.nz + p.nl, p.nv),
      y: if (withY) vecAt(ds, o + p.nz + p.nl + p.nv, p.nv) else [] }
  pure def ptLen(p: Qp, withY: bool): int = p.nz + p.nl + p.nv + (if (withY) p.nv else 0)
  pure def saneP(x: Pt): bool = and { saneVec(x.z), saneVec(x.l), saneVec(x.v), saneVec(x.y) }

  // -------------------------------------------------------------- rounding
  // A bound on what double arithmetic can make of the residual of x: 2^-k times the size of the
  // terms that enter it, in units 2^-SB (real).
  pure def mag(p: Qp, x: Pt): int = {
    val big = max_(infnorm(x.z), max_(infnorm(x.l), infnorm(x.v)))
    val a = p.H.foldl(0, (s, r) => s + absSum(r)) + p.G.foldl(0, (s, r) => s + absSum(r)) + p.A.foldl(0, (s, r) => s + absSum(r))
    val c = absSum(p.f) + absSum(p.h) + absSum(p.b)
    (a * big + c * ONE) / 2^p.ds + big + ONE }
  // the penalty term multiplies margin and dual
  pure def slackE(p: Qp, x: Pt, bits: int): int =
    (mag(p, x) * (2 * ONE + infnorm(x.v))) / ONE / 2^bits + 1

  // termination tolerance abs_tol + rel_tol*(1+||(f,h,b)||), units 2^-SB, rounded up
  pure def comboTol(p: Qp, absTol: int, relTol: int): int = {
    val F = isqrt(forcingSq(p) * 2^(2 * (SB - p.ds)), SB + 40) + 1
    absTol + (relTol * (ONE + F)) / ONE + 1 }

  // Is the penalized residual (exact, squared, units RU^-2) at most e (units 2^-SB)? At least e?
  pure def penAtMost(p: Qp, psq: int, e: int): bool = psq <= (e * 2^(p.ds + 2 * SB)) * (e * 2^(p.ds + 2 * SB))
  pure def penAtLeast(p: Qp, psq: int, e: int): bool =
    e <= 0 or psq >= (e * 2^(p.ds + 2 * SB)) * (e * 2^(p.ds + 2 * SB))
}
