// Families of runs of one call under smaller budgets. A run is a prefix of the run with larger budgets,
// so the runs with max_prox_iters = k show the proximal iterates, and those with max_newton_iters = j
// must stop inside the run exactly where the Newton budget ends.
module budget {
  import linalg.* from "./linalg"
  import qp.* from "./qp"
  import decode.* from "./decode"

  // ints: flag newton prox maxNewton maxProx maxInner feas(1: infeasibility check on)
  //       nP, then per proximal run k=1..nP: exc flag newton prox same(1: bit-identical to the base run)
  //       nN, then per Newton run: j exc flag newton prox same isProx(1: its point is that of proximal run prox, bit for bit)
  //             isInner(1: its point is the projected inner iterate; only meaningful if prox = 0 and inner known) innerKnown
  //       problem
  // doubles: alpha | guess z l v | per proximal run z l v y | per Newton run z l v y then inner z l v y
  pure def code(ok: bool, c: int): List[int] = if (ok) [] else [c]
  pure val MAXIT = 2
  pure val HB = 8

  pure def judge(I: Vec, D: Vec): List[int] = {
    val flag = I[0]
    val N = I[1]
    val K = I[2]
    val nP = I[7]
    val nN = I[8 + 5 * nP]
    val oN = 9 + 5 * nP
    val oProb = oN + 9 * nN
    val p = probAt(I, oProb)
    val n4 = ptLen(p, true)
    val n3 = ptLen(p, false)
    val g0 = ptAt(D, 1, p, false)
    val guess = g0.with("y", [])
    pure def proxPt(k: int): Pt = if (k == 0) guess else ptAt(D, 1 + n3 + (k - 1) * n4, p, true)
    pure def newtPt(i: int): Pt = ptAt(D, 1 + n3 + nP * n4 + 2 * i * n4, p, true)
    pure def innerPt(i: int): Pt = ptAt(D, 1 + n3 + nP * n4 + (2 * i + 1) * n4, p, true)
    // cumulative Newton iterations at proximal iterate k (as the run with k proximal iterations reports)
    pure def cum(k: int): int = if (k == 0) 0 else I[8 + 5 * (k - 1) + 2]
    val alpha = D[0]
    // a completed proximal iteration may itself use the whole Newton budget
    val proxCodes = range(0, nP).foldl([], (acc, i) => {
      val o = 8 + 5 * i
      val k = i + 1
      acc.concat(
        if (I[o] != 0) [510]
        else if (k > K and not(k == K and flag == MAXIT)) code(I[o + 4] == 1, 511)
        else if (k == K and flag == MAXIT and N < I[3]) code(I[o + 4] == 1, 511)
        else code(I[o + 1] == MAXIT, 512).concat(code(I[o + 3] == k, 513))
              .concat(code(I[o + 2] >= cum(i), 514)).concat(code(I[o + 2] - cum(i) <= I[5], 515))
              .concat(code(k == K and flag == 0 implies I[o + 2] == N, 516))
              .concat(code(I[o + 2] <= N, 517))) })
    val newtCodes = range(0, nN).foldl([], (acc, i) => {
      val o = oN + 9 * i
      val j = I[o]
      val cnt = 1.to(nP).filter(k => k <= K and cum(k) < j).size()
      acc.concat(
        if (I[o + 1] != 0) [520]
        else if (j > N) code(I[o + 5] == 1, 521)
        else code(I[o + 2] == MAXIT, 522).concat(code(I[o + 3] == j, 523)).concat(code(I[o + 4] == cnt, 524))
          .concat(
            if (I[o + 4] > nP or not(saneP(newtPt(i))) or not(saneP(proxPt(I[o + 4])))) []
            else {
              val q = I[o + 4]
              val xp = proxPt(q)
              val xo = newtPt(i)
              val sp = slackE(p, xp, 33) + slackE(p, xo, 33)
              val ep = penSq(p, xp, alpha)
              val eo = penSq(p, xo, alpha)
              // root of ep, rounded up, units 2^-SB
              val rp = isqrt(ep / 2^(2 * (p.ds + 2 * SB)), 2 * SB) + 1
              code(penAtMost(p, eo, rp + sp), 601)
              .concat(if (I[o + 8] == 0 or q != 0 or not(saneP(innerPt(i)))) [] else {
                 val xi = innerPt(i)
                 val ei = penSq(p, xi, alpha)
                 val si = sp + slackE(p, xi, 33)
                 if (rp > si and penAtMost(p, ei, rp - si)) code(I[o + 7] == 1, 602)
                 else if (penAtLeast(p, ei, rp + si)) code(I[o + 6] == 1, 603)
                 else code(I[o + 6] == 1 or I[o + 7] == 1, 604) }) })) })
    code(N <= I[3] and K <= I[4], 501)
    .concat(code(flag == MAXIT implies N == I[3] or K == I[4], 502))
    .concat(proxCodes).concat(newtCodes) }

  var idx: int
  var bad: List[List[int]]
  action start = all { idx' = 0, bad' = [] }
  action consume(i: int, d: int): bool = {
    val v = judge(ints(i), dbls(d))
    all { idx' = idx + 1, bad' = if (v.length() == 0) bad else bad.append([idx].concat(v)) } }
}
