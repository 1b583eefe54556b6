// One solve through the public interface, judged on its own: what was asked (problem, options,
// guess), what came back (exception, flag, counts, residuals, point).
module api_solve {
  import linalg.* from "./linalg"
  import qp.* from "./qp"
  import decode.* from "./decode"

  // integer fields:  fam exc flag newton prox maxNewton maxProx maxInner feas same pure nan prevKind | problem | tz tl tv
  //   same: z,l,v came back bit-identical     pure: 1 default options, 2 reliable options, 0 other
  // C04 is strict where the solver is: infeasibility under the default options, unboundedness under the
  // reliable ones (the other way round the budget may run out first on rare degenerate problems).
  //   nan: the data or the guess (z,l,v) contains a NaN     prevKind: 1 if the previous proximal iterate is attached
  // double fields: alpha absTol relTol stallTol infeasTol residual initial | guess z l v | out z l v y | [prev z l v]
  pure val OI = 13
  pure val SUCCESS = 0
  pure val MAXIT = 2
  pure val PINFEAS = 3
  pure val DINFEAS = 4
  pure val BOTHINF = 5
  pure val BITS = 33

  pure def code(ok: bool, c: int): List[int] = if (ok) [] else [c]

  // ---- C03: certificates, to within tol (units 2^-SB) and rounding
  pure def primalCert(p: Qp, x: Pt, tol: int): bool = {
    val u = max_(infnorm(x.l), infnorm(x.v))
    val g = add(mtv(p.G, x.l, p.nz), mtv(p.A, x.v, p.nz))
    val terms = (p.G.foldl(0, (s, r) => s + absSum(r)) + p.A.foldl(0, (s, r) => s + absSum(r)) + 2^p.ds) * u
    and { u > 0,
          infnorm(g) * ONE <= tol * u * 2^p.ds + (terms * ONE) / 2^45,
          dot(p.h, x.l) + dot(p.b, x.v) < ((absSum(p.h) + absSum(p.b)) * u) / 2^45 + min_(absSum(p.h) + absSum(p.b), 1),     // zero right-hand sides decide exactly
          x.v.all_(e => e * ONE >= -tol * u - (u * ONE) / 2^45) } }
  // a primal certificate that a feasible problem can have, because certificates are accepted to within tol:
  // -(b'v + h'l) <= tol * ||(l,v)|| * ||z||_1 for every feasible z
  pure def weakCert(p: Qp, x: Pt, tol: int): bool =
    -(dot(p.h, x.l) + dot(p.b, x.v)) * ONE <= 100 * tol * max_(infnorm(x.l), infnorm(x.v)) * 2^p.ds
  pure def dualCert(p: Qp, x: Pt, tol: int): bool = {
    val w = infnorm(x.z)
    pure def small(M: Mat): bool = infnorm(mv(M, x.z)) * ONE <=
        tol * w * 2^p.ds + ((M.foldl(0, (s, r) => s + absSum(r)) + 2^p.ds) * w * ONE) / 2^45
    and { w * 2^44 > ONE / 10000 ,                    // ||z|| > 1e-14 up to rounding
          small(p.H), small(p.G),
          p.A.all_(r => dot(r, x.z) * ONE <= tol * w * 2^p.ds + ((absSum(r) + 2^p.ds) * w * ONE) / 2^45),
          dot(p.f, x.z) < (absSum(p.f) * w) / 2^45 + min_(absSum(p.f), 1) } }

  pure def judge(I: Vec, D: Vec): List[int] = {
    val fam = I[0]
    val exc = I[1]
    val flag = I[2]
    val newton = I[3]
    val prox = I[4]
    val feas = I[8] == 1
    val same = I[9] == 1
    val hasNan = I[11] == 1
    val p = probAt(I, OI)
    val ow = OI + probLen(I.slice(OI, I.length()))
    val tz = vecAt(I, ow, p.nz)
    val alpha = D[0]
    val tol = comboTol(p, D[1], D[2])
    val n3 = ptLen(p, false)
    val g = ptAt(D, 7, p, false)
    val x = ptAt(D, 7 + n3, p, true)
    val ran = exc == 0
    val succ = ran and flag == SUCCESS
    if (hasNan)
      // C21: NaN in, never success out; only runtime_error may escape
      code(not(succ), 2101).concat(code(exc <= 1, 2102))
    else if (not(ran))
      code(exc == 1, 2102).concat(code(not(fam == 0 or fam == 2), 1001)).concat(code(exc == 1 implies same, 2103))
        .concat(code(not(fam == 0 or fam == 2 or (fam == 3 and I[10] == 2)), 401))
    else {
      val okX = saneP(x)
      val okG = saneP(g)
      if (not(okX) or not(okG) or not(sane(D[5])) or not(sane(D[6])))
        code(not(succ), 101).concat(code(fam >= 3 and flag != SUCCESS, 201)).concat(code(fam != 0, 402))
          .concat(code(not(flag == 3 or flag == 4 or flag == 5), 301))
      else {
        val y = margin(p, x)
        // the returned margin is updated along the iteration; problems without strong convexity visit
        // iterates of size 1/sigma, whose rounding stays in it
        val sx = slackE(p, x, BITS)
        val sy = slackE(p, x, if (fam == 0 or fam == 2) BITS else 20)
        val yv = scale(2^p.ds, x.y)
        val ysq = penSqY(p, x, yv, alpha)
        val sg = slackE(p, g, BITS)
        val psq = penSq(p, x, alpha)
        val gsq = penSq(p, g, alpha)
        val conv = penAtMost(p, psq, tol + sy) and penAtMost(p, ysq, tol + sx)
        // the last proximal step was no longer than stall_tol
        val stalled = I[12] == 1 and {
          val q = ptAt(D, 7 + 2 * n3 + p.nv, p, false)
          val d = sq(sub(x.z, q.z)) + sq(sub(x.l, q.l)) + sq(sub(x.v, q.v))
          val st = D[3] + D[3] / 2^20 + sx / 2^10
          saneP(q) and d <= st * st }
        val byStall = succ and not(conv) and stalled
        val guessConv = penAtMost(p, gsq, tol - sg) and tol > sg
        val infeasFlag = flag == PINFEAS or flag == DINFEAS or flag == BOTHINF
        List()
        // C01
        .concat(code(succ implies conv or stalled, 102))
        // C02
        .concat(code(allBelow(p.nv, i => abs_(x.y[i] * 2^p.ds - y[i]) <= (sy * 2^p.ds) or infeasFlag), 202))
        .concat(code(penAtMost(p, gsq, D[6] + sg) and penAtLeast(p, gsq, D[6] - sg), 203))
        .concat(code(infeasFlag or (penAtMost(p, ysq, D[5] + sx) and penAtLeast(p, ysq, D[5] - sx)), 204))
        .concat(code(infeasFlag or prox == 0 or minElem(x.v) >= 0, 205))
        // C03
        .concat(code(infeasFlag implies feas, 302))
        .concat(code(flag == PINFEAS or flag == BOTHINF implies primalCert(p, x, D[4]), 303))
        .concat(code(flag == DINFEAS or flag == BOTHINF implies dualCert(p, x, D[4]), 304))
        // C04
        // (a run may end by the stall rule: SUCCESS after a step no longer than stall_tol, whatever the residual)
        .concat(code(fam >= 2 and fam <= 4 implies flag != SUCCESS or byStall, 407))
        .concat(if (I[10] == 0) [] else
           code(fam == 0 implies flag == SUCCESS, 403)
           .concat(code(fam == 0 and succ implies allBelow(p.nz, i =>
                abs_(x.z[i] - tz[i] * ONE) * (if (I[10] == 1) 1000 else 20) <= ONE * (1 + infnorm(tz))), 404))
           .concat(code(fam == 2 implies flag == PINFEAS or byStall or ((not(feas) or I[10] == 2) and flag == MAXIT), 405))
           .concat(code(fam == 3 implies flag == DINFEAS or byStall or (I[10] == 1 and (flag == PINFEAS or flag == BOTHINF) and weakCert(p, x, D[4]))
                              or ((not(feas) or I[10] == 1) and flag == MAXIT), 406)))
        // C05 (the part one run shows)
        .concat(code(newton <= I[5] and prox <= I[6] and newton <= (prox + 1) * I[7], 501))
        .concat(code(flag == MAXIT implies newton == I[5] or prox == I[6], 502))
        .concat(code(List(SUCCESS, MAXIT, PINFEAS, DINFEAS, BOTHINF).indices().exists(i => List(0, 2, 3, 4, 5)[i] == flag), 503))
        // C19: a guess that is already good enough comes straight back
        .concat(code(guessConv implies flag == SUCCESS and newton == 0 and prox == 0 and same, 1901))
        .concat(code(flag == SUCCESS and prox == 0 implies newton == 0 and same, 1902))
      }
    } }

  var idx: int
  var bad: List[List[int]]
  action start = all { idx' = 0, bad' = [] }
  action consume(i: int, d: int): bool = {
    val v = judge(ints(i), dbls(d))
    all { idx' = idx + 1, bad' = if (v.length() == 0) bad else bad.append([idx].concat(v)) } }
}
