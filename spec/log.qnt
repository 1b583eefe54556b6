// What a solve prints, per display level, and how it must agree with what the solve returns.
module log {
  import linalg.* from "./linalg"
  import qp.* from "./qp"
  import decode.* from "./decode"

  // Lines are classified by the harness; numbers follow in order.
  //   1 completion message: code of the exit flag it names     3 time: -
  //   4 proximal iterations: a, limit      5 Newton iterations: a, limit     6 final header     7 final numbers: |rz| |rl| |rv| tol
  //   8 iterate header    9 iterate line: prox newton | |rz| |rl| |rv| inner tol
  //   10 block begin: prox newton | residual      11 block header     12 inner line: i | step |rz| |rl| |rv|
  //   13 block end: inner residual, inner tolerance      0 blank      99 anything else
  type Line = { t: int, i: List[int], x: List[int] }
  // ints: level flag newton prox maxNewton maxProx maxInner nP N_1..N_nP problem nLines (type nInts ints nDbls)*
  //   N_k: Newton iterations of the run that stops after k proximal iterations
  // doubles: residual initial abs_tol rel_tol beta alpha | residual of those runs | guess z l v | result z l v y | printed numbers

  pure val ROUND = 9000     // printed with at least five significant digits
  pure def near(a: int, b: int): bool = abs_(a - b) * ROUND <= abs_(b) + ONE / 2^100
  pure def code(ok: bool, c: int): List[int] = if (ok) [] else [c]
  // a^2+b^2+c^2 = r^2 up to printing
  pure def nearNorm(x: List[int], r: int): bool = {
    val s = sq(x.slice(0, 3))
    and { s * 4000 <= r * r * 4001 + ONE * ONE / 2^160, r * r * 4000 <= s * 4001 + ONE * ONE / 2^160 } }

  // the three printed component norms are those of the penalized natural residual at x
  pure def compOk(p: Qp, x: Pt, y: Vec, alpha: int, n: List[int]): bool = {
    val s = slackE(p, x, 24)
    pure def is(e: int, k: int, r: int): bool = {       // e: exact square in units 2^-2(ds + k*SB)
      val lo = max_(r - r / ROUND - s, 0) * 2^(p.ds + (k - 1) * SB)
      val hi = (r + r / ROUND + s) * 2^(p.ds + (k - 1) * SB)
      lo * lo <= e and e <= hi * hi }
    is(sq(rz(p, x)), 1, n[0]) and is(sq(rl(p, x)), 1, n[1]) and is(sq(rvPenY(p, x, y, alpha)), 3, n[2]) }

  pure def parse(I: Vec, D: Vec, o: int, d0: int, n: int): { lines: List[Line], end: int } = {
    val s = range(0, n).foldl({ lines: [], o: o, d: d0 }, (a, k) => {
      val ni = I[a.o + 1]
      val nd = I[a.o + 2 + ni]
      { lines: a.lines.append({ t: I[a.o], i: I.slice(a.o + 2, a.o + 2 + ni), x: D.slice(a.d, a.d + nd) }),
        o: a.o + 3 + ni, d: a.d + nd } })
    { lines: s.lines, end: s.o } }

  // step = beta^j for some j: printed with seven digits
  pure def isPower(step: int, beta: int): bool = {
    val r = range(0, 70).foldl({ p: ONE, hit: false }, (a, k) =>
      { p: a.p * beta / ONE, hit: a.hit or abs_(step - a.p) * 100000 <= a.p })
    r.hit or step * 2^12 <= ONE }
  pure def finalOk(ls: List[Line], flag: int, newton: int, prox: int, maxN: int, maxP: int): bool = and {
    ls.length() == 6,
    allBelow(6, i => ls[i].t == [1, 3, 4, 5, 6, 7][i]),
    ls[0].i[0] == flag,
    ls[2].i[0] == prox, ls[2].i[1] == maxP,
    ls[3].i[0] == newton, ls[3].i[1] == maxN }

  // number of proximal iterates visited: all but a run out of the proximal budget also look at the last one
  pure def visited(flag: int, prox: int, newton: int, maxN: int): int = if (flag == 2 and newton < maxN) prox else prox + 1
  // number of subproblems entered
  pure def entered(flag: int, prox: int, newton: int, maxN: int): int = if (flag == 0) prox else visited(flag, prox, newton, maxN)

  type Blk = { ok: bool, blk: int, line: int, st: int, total: int, last: List[int] }
  // st: 0 between blocks, 1 header expected, 2 inside a block
  // newton iterations of a block: lines-1 if it ended with a footer or the budget ran out, lines if it used up max_inner_iters
  pure def closeBlk(b: Blk, footer: bool, maxInner: int, maxN: int): Blk = {
    val inc = if (footer or b.line < maxInner) b.line - 1 else if (b.total + b.line <= maxN) b.line else b.line - 1
    { ...b, st: 0, total: b.total + inc,
      ok: b.ok and (footer or b.line == maxInner or b.total + b.line - 1 == maxN) } }
  pure def blocks(ls: List[Line], maxInner: int, maxN: int, beta: int, outer: List[int]): Blk =
    ls.foldl({ ok: true, blk: 0, line: 0, st: 0, total: 0, last: [] }, (b, l) =>
      if (l.t == 10) {
        val c = if (b.st == 2) closeBlk(b, false, maxInner, maxN) else b
        { ...c, st: 1, line: 0, blk: c.blk + 1,
          ok: c.ok and b.st != 1 and l.i[0] == c.blk and l.i[1] == c.total and (c.blk < outer.length() implies near(l.x[0], outer[c.blk])) } }
      else if (l.t == 11) { ...b, st: 2, ok: b.ok and b.st == 1 }
      else if (l.t == 12)
        { ...b, line: b.line + 1, last: l.x.slice(1, 4),
          ok: b.ok and b.st == 2 and l.i[0] == b.line and (if (b.line == 0) near(l.x[0], ONE) else isPower(l.x[0], beta)) and b.line < maxInner }
      else if (l.t == 13) {
        val c = closeBlk(b, true, maxInner, maxN)
        { ...c, ok: c.ok and b.st == 2 and b.line > 0 and nearNorm(b.last, l.x[0])
                     and l.x[0] * ROUND <= l.x[1] * (ROUND + 2) } }
      else { ...b, ok: false })

  pure def judge(I: Vec, D: Vec): List[int] = {
    val level = I[0]
    val flag = I[1]
    val newton = I[2]
    val prox = I[3]
    val maxN = I[4]
    val maxP = I[5]
    val maxInner = I[6]
    val nP = I[7]
    val cum = [0].concat(I.slice(8, 8 + nP))
    val p = probAt(I, 8 + nP)
    val oL = 8 + nP + probLen(I.slice(8 + nP, I.length()))
    val nL = I[oL]
    val n3 = ptLen(p, false)
    val g = ptAt(D, 6 + nP, p, false)
    val x = ptAt(D, 6 + nP + n3, p, true)
    val alpha = D[5]
    pure def res(k: int): int = if (k == 0) D[1] else D[5 + k]
    val ps = parse(I, D, oL + 1, 6 + nP + 2 * n3 + p.nv, nL)
    val pl = ps.lines.select(l => l.t != 0)
    val n = pl.length()
    val fin = if (n >= 6) pl.slice(n - 6, n) else []
    val body = if (n >= 6) pl.slice(0, n - 6) else []
    val v = visited(flag, prox, newton, maxN)
    if (level == 0) code(nL == 0, 1202)
    else
      code(allBelow(n, i => pl[i].t != 99), 1203)
      .concat(if (n < 6) [1204] else
        code(finalOk(fin, flag, newton, prox, maxN, maxP), 1205)
        .concat(if (not(finalOk(fin, flag, newton, prox, maxN, maxP))) [] else
          code(flag > 2 or nearNorm(fin[5].x, D[0]), 1206)
          .concat(code(flag > 2 or not(saneP(x)) or compOk(p, x, scale(2^p.ds, x.y), alpha, fin[5].x), 1218))
          .concat(code(near(fin[5].x[3], comboTol(p, D[2], D[3])), 1207)))
        .concat(
          if (level == 1) code(body.length() == 0, 1208)
          else if (level == 2)
            if (body.length() != v + 1 or body[0].t != 8 or not(allBelow(v, k => body[k + 1].t == 9))) [1209]
            else
              code(allBelow(v, k => body[k + 1].i[0] == k), 1210)
              .concat(code(allBelow(v, k => k < cum.length() implies body[k + 1].i[1] == cum[k]), 1211))
              .concat(code(allBelow(v, k => k <= nP implies nearNorm(body[k + 1].x, res(k))), 1212))
              .concat(code(not(saneP(g)) or compOk(p, g, margin(p, g), alpha, body[1].x), 1219))
              .concat(code(flag == 0 implies nearNorm(body[v].x, D[0]) and body[v].i[1] == newton, 1213))
              .concat(code(body[1].x[3] == 0, 1214))
          else {
            val b0 = blocks(body, maxInner, maxN, D[4], tabulate(nP + 1, k => res(k)))
            val b = if (b0.st == 2) closeBlk(b0, false, maxInner, maxN) else b0
            code(b.ok and b.st == 0, 1215)
            .concat(code(b.blk == entered(flag, prox, newton, maxN), 1216))
            .concat(code(b.total == newton, 1217)) })) }

  var idx: int
  var bad: List[List[int]]
  action start = all { idx' = 0, bad' = [] }
  action consume(i: int, d: int): bool = {
    val v = judge(ints(i), dbls(d))
    all { idx' = idx + 1, bad' = if (v.length() == 0) bad else bad.append([idx].concat(v)) } }
}
