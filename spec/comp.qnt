// The building blocks (fbstab/components) as a client may combine them: problem data with its linear
// operators, three primal-dual variables, two residuals, an infeasibility checker and a linear solver,
// all of one size. The state is what is linked to what, whose margin is known to be consistent, what was
// factorised, and the values observed after the last operation; every operation is a transition that
// fixes what may change and to what (up to a stated rounding bound, exactly where arithmetic is exact).
module comp {
  import linalg.* from "./linalg"
  import qp.* from "./qp"
  import decode.* from "./decode"

  type Var = { link: int, cons: bool, err: int }     // err: bound on |y - (b - A z)|, units 2^-SB
  type Res = { link: int, alpha: int }
  type Fac = { ok: bool, d: int, sigma: int, gam: Vec, mu: Vec, gmax: int, kink: int }
  type State = { probs: int -> Qp, pd: int -> int, mpc: int, nz: int, nl: int, nv: int, xs: List[Var], rs: List[Res],
                 flink: int, llink: int, lalpha: int, fac: Fac, snap: Vec }
  pure val NOFAC = { ok: false, d: 0, sigma: 0, gam: [], mu: [], gmax: 0, kink: 0 }
  pure val EMPTY = { probs: Map(), pd: Map(), mpc: 0, nz: 0, nl: 0, nv: 0, xs: [], rs: [], flink: 0, llink: 0, lalpha: 0, fac: NOFAC, snap: [] }

  pure def code(ok: bool, c: int): List[int] = if (ok) [] else [c]

  // ------------------------------------------------------------------ the observed values
  pure def vlen(s: State): int = s.nz + s.nl + 2 * s.nv + 1
  pure def rlen(s: State): int = s.nz + s.nl + s.nv + 5
  pure def xAt(s: State, S: Vec, k: int): Pt = {
    val o = k * vlen(s)
    { z: vecAt(S, o, s.nz), l: vecAt(S, o + s.nz, s.nl), v: vecAt(S, o + s.nz + s.nl, s.nv), y: vecAt(S, o + s.nz + s.nl + s.nv, s.nv) } }
  pure def xNorm(s: State, S: Vec, k: int): int = S[(k + 1) * vlen(s) - 1]
  pure def ro(s: State, k: int): int = 3 * vlen(s) + k * rlen(s)
  pure def rAt(s: State, S: Vec, k: int): Pt = {
    val o = ro(s, k)
    { z: vecAt(S, o, s.nz), l: vecAt(S, o + s.nz, s.nl), v: vecAt(S, o + s.nz + s.nl, s.nv), y: [] } }
  pure def rNorms(s: State, S: Vec, k: int): Vec = vecAt(S, ro(s, k) + s.nz + s.nl + s.nv, 5)

  // ------------------------------------------------------------------ comparisons
  pure def close(a: int, b: int, slack: int): bool = abs_(a - b) <= slack
  pure def closeV(a: Vec, b: Vec, slack: int): bool = a.length() == b.length() and allBelow(a.length(), i => close(a[i], b[i], slack))
  pure def eps(m: int, bits: int): int = m / 2^bits + 4          // 2^-bits of a magnitude, and the resolution
  // n is the Euclidean norm with square sq (2^-2SB): to 2^-40
  pure def isNorm(n: int, s: int): bool = n >= 0 and abs_(n * n - s) <= s / 2^40 + 2^20 * (2 * n + 2^20)
  pure def sq2(x: Vec, y: Vec, z: Vec): int = sq(x) + sq(y) + sq(z)

  // b - A z in units 2^-SB (exact when the data scale divides), and the size of its terms
  pure def yOf(p: Qp, z: Vec): Vec = margin(p, { z: z, l: [], v: [], y: [] }).listMap(e => e / 2^p.ds)
  pure def rows(M: Mat): int = M.foldl(0, (m, r) => max_(m, absSum(r)))
  pure def cols(M: Mat, n: int): int = tabulate(n, j => M.foldl(0, (t, r) => t + abs_(r[j]))).foldl(0, (m, e) => max_(m, e))
  pure def yMag(p: Qp, z: Vec): int = (rows(p.A) * infnorm(z) + infnorm(p.b) * ONE) / 2^p.ds + infnorm(z)

  // Fischer-Burmeister, penalised: a, b in 2^-SB
  pure def root(a: int, b: int): int = isqrt(a * a + b * b, 2 * SB + 8)
  pure def mul(a: int, b: int): int = (a * b) / ONE
  pure def pfb(a: int, b: int, alpha: int): int = mul(alpha, a + b - root(a, b)) + mul(ONE - alpha, mul(pos(a), pos(b)))
  // its gradient, with the documented choice at the origin
  pure def grad(a: int, b: int, alpha: int): { ga: int, gb: int } = {
    val r = root(a, b)
    if (r == 0) { val g = mul(alpha, ONE - isqrt(ONE * ONE / 2, SB + 8)) { ga: g, gb: g } }
    else {
      val fa = mul(alpha, ONE - (a * ONE) / r)
      val fb = mul(alpha, ONE - (b * ONE) / r)
      if (a > 0 and b > 0) { ga: fa + mul(ONE - alpha, b), gb: fb + mul(ONE - alpha, a) } else { ga: fa, gb: fb } } }

  // ------------------------------------------------------------------ frame: everything else as before
  pure def sameX(s: State, S: Vec, k: int): bool = allBelow(vlen(s), i => s.snap[k * vlen(s) + i] == S[k * vlen(s) + i])
  pure def sameR(s: State, S: Vec, k: int): bool = allBelow(rlen(s), i => s.snap[ro(s, k) + i] == S[ro(s, k) + i])
  pure def frame(s: State, S: Vec, wx: int, wr: int, c: int): List[int] =
    code(allBelow(3, k => k == wx or sameX(s, S, k)) and allBelow(2, k => k == wr or sameR(s, S, k)), c)
  // norms always describe what is stored
  pure def normsX(s: State, S: Vec): List[int] =
    code(allBelow(3, k => { val x = xAt(s, S, k) if (saneP(x)) isNorm(xNorm(s, S, k), sq2(x.z, x.l, x.v)) else true }), 1506)
  pure def normsR(s: State, S: Vec): List[int] =
    code(allBelow(2, k => {
      val x = rAt(s, S, k)
      val n = rNorms(s, S, k)
      if (not(saneP(x))) true else {
        val t = sq2(x.z, x.l, x.v)
        and { isNorm(n[0], sq(x.z)), isNorm(n[1], sq(x.l)), isNorm(n[2], sq(x.v)), isNorm(n[3], t),
              abs_(2 * n[4] * ONE - t) <= t / 2^40 + 2^60 * ONE / 2^60 + ONE } } }), 1606)

  // ------------------------------------------------------------------ operators (C13): exact
  // 0 H, 1 A, 2 G, 3 A', 4 G', 5 f, 6 h, 7 b ; a, b, x, y multiples of 2^-12
  pure def opIn(p: Qp, k: int): int = if (k == 3) p.nv else if (k == 4) p.nl else if (k < 3) p.nz else 0
  pure def opOut(p: Qp, k: int): int = if (k == 0 or k == 3 or k == 4 or k == 5) p.nz else if (k == 1 or k == 7) p.nv else p.nl
  pure def apply(p: Qp, k: int, x: Vec): Vec =
    if (k == 0) mv(p.H, x) else if (k == 1) mv(p.A, x) else if (k == 2) mv(p.G, x) else if (k == 3) mtv(p.A, x, p.nz)
    else if (k == 4) mtv(p.G, x, p.nz) else if (k == 5) scale(ONE, p.f) else if (k == 6) scale(ONE, p.h) else scale(ONE, p.b)
  pure def gemv(p: Qp, k: int, a: int, b: int, x: Vec, y: Vec): Vec = {
    val w = apply(p, k, x)
    tabulate(w.length(), i => (a * w[i]) / (ONE * 2^p.ds) + (if (k < 5 and b == 0) 0 else if (k < 5) mul(b, y[i]) else y[i])) }

  // ------------------------------------------------------------------ certificates (C17)
  // lhs <= rhs, three-valued: 1 yes, 0 no, 2 too close to tell in double arithmetic
  pure def le(l: int, r: int, exact: bool, slack: int): int =
    if (exact or abs_(l - r) > slack) (if (l <= r) 1 else 0) else 2
  pure def lt0(l: int, exact: bool, slack: int): int = if (exact or abs_(l) > slack) (if (l < 0) 1 else 0) else 2
  pure def and3(l: List[int]): int = if (l.foldl(false, (t, e) => t or e == 0)) 0 else if (l.foldl(true, (t, e) => t and e == 1)) 1 else 2
  // every product and sum over these numbers is exact in double arithmetic
  pure def onGrid(x: Vec, u: int): bool = x.all_(e => e % u == 0 and abs_(e) <= u * 2^16)
  pure def exactly(p: Qp, x: Pt, tol: int): bool = and {
    matInf(p.H) < 2^12, matInf(p.G) < 2^12, matInf(p.A) < 2^12, infnorm(p.f) < 2^12, infnorm(p.h) < 2^12, infnorm(p.b) < 2^12,
    tol % 2^(SB - 20) == 0, tol <= ONE,
    List(SB, SB - 8, SB - 50).indices().exists(i => { val u = 2^(List(SB, SB - 8, SB - 50)[i]) onGrid(x.z, u) and onGrid(x.l, u) and onGrid(x.v, u) }) }
  pure def dualCert(p: Qp, x: Pt, tol: int): int = {
    val e = exactly(p, x, tol)
    val w = infnorm(x.z)
    val t = tol * w * 2^p.ds                                  // all comparisons in units 2^-(ds+2SB)
    pure def sl(M: Mat): int = (rows(M) + 2^p.ds) * (w + 1) * ONE / 2^44
    and3([ if (w > 0 and w * 10^14 > ONE + ONE / 2^30) 1 else if (w * 10^14 < ONE - ONE / 2^30) 0 else 2,
           le(maxElem(mv(p.A, x.z)) * ONE, t, e, sl(p.A)),
           le(infnorm(mv(p.G, x.z)) * ONE, t, e, sl(p.G)),
           le(infnorm(mv(p.H, x.z)) * ONE, t, e, sl(p.H)),
           lt0(dot(p.f, x.z), e, absSum(p.f) * w / 2^44 + 1) ]) }
  pure def primCert(p: Qp, x: Pt, tol: int): int = {
    val e = exactly(p, x, tol)
    val u = max_(infnorm(x.l), infnorm(x.v))
    val g = add(mtv(p.G, x.l, p.nz), mtv(p.A, x.v, p.nz))
    val s = (cols(p.G, p.nz) + cols(p.A, p.nz) + 2^p.ds) * (u + 1) * ONE / 2^44
    and3([ le(infnorm(g) * ONE, tol * u * 2^p.ds, e, s),
           lt0(dot(p.h, x.l) + dot(p.b, x.v), e, (absSum(p.h) + absSum(p.b)) * u / 2^44 + 1),
           le(-tol * u, minElem(x.v) * ONE, e, u * ONE / 2^44) ]) }
  pure def feasCodes(p: Qp, x: Pt, tol: int, flag: int): List[int] = {
    val d = dualCert(p, x, tol)
    val q = primCert(p, x, tol)
    val saysD = flag == 2 or flag == 3
    val saysP = flag == 1 or flag == 3
    code(flag <= 3, 1701).concat(code(q == 2 or saysP == (q == 1), 1702)).concat(code(d == 2 or saysD == (d == 1), 1703)) }

  // ------------------------------------------------------------------ residuals (C16)
  // kind 0 inner, 1 natural, 2 penalised natural
  pure def resCodes(p: Qp, kind: int, alpha: int, x: Pt, xb: Pt, sigma: int, r: Pt): List[int] = {
    val sh = 2^p.ds
    val dz = if (kind == 0) sub(x.z, xb.z) else zeros(p.nz)
    val dl = if (kind == 0) sub(x.l, xb.l) else zeros(p.nl)
    val rz0 = rz(p, x)
    val rl0 = rl(p, x)
    val wz = tabulate(p.nz, i => rz0[i] / sh + mul(sigma, dz[i]))
    val wl = tabulate(p.nl, i => rl0[i] / sh + mul(sigma, dl[i]))
    val mz = (rows(p.H) * infnorm(x.z) + cols(p.G, p.nz) * infnorm(x.l) + cols(p.A, p.nz) * infnorm(x.v) + infnorm(p.f) * ONE) / sh
    val mb = mul(abs_(sigma), infnorm(x.z) + infnorm(x.l) + (if (kind == 0) infnorm(xb.z) + infnorm(xb.l) else 0))
    val ml = (rows(p.G) * infnorm(x.z) + infnorm(p.h) * ONE) / sh
    code(closeV(r.z, wz, eps(mz + mb, 44)), 1601)
    .concat(code(closeV(r.l, wl, eps(ml + mb, 44)), 1602))
    .concat(code(allBelow(p.nv, i => {
        val v = x.v[i]
        if (kind == 0) {
          val a = x.y[i] + mul(sigma, v - xb.v[i])
          val m = abs_(x.y[i]) + mul(abs_(sigma), abs_(v) + abs_(xb.v[i])) + abs_(v)
          close(r.v[i], pfb(a, v, alpha), eps(mul(m, ONE + abs_(v)), 44))
        } else if (kind == 1) r.v[i] == min_(x.y[i], v)
        else close(r.v[i], mul(alpha, min_(x.y[i], v)) + mul(ONE - alpha, mul(pos(x.y[i]), pos(v))),
                   eps(mul(abs_(x.y[i]) + abs_(v), ONE + abs_(v)), 44)) }), 1603)) }

  // ------------------------------------------------------------------ linear solver (C14)
  pure def factorise(p: Qp, d: int, x: Pt, xb: Pt, sigma: int, alpha: int): Fac = {
    val g = tabulate(p.nv, i => grad(x.y[i] + mul(sigma, x.v[i] - xb.v[i]), x.v[i], alpha))
    val gam = g.listMap(e => e.ga)
    val mu = g.listMap(e => e.gb + mul(sigma, e.ga))
    // away from the origin the gradient is smooth; next to it the rounding of its arguments is magnified (kink, units 2^-SB)
    val kinks = tabulate(p.nv, i => {
      val a = x.y[i] + mul(sigma, x.v[i] - xb.v[i])
      val m = abs_(x.y[i]) + mul(sigma, abs_(x.v[i]) + abs_(xb.v[i])) + abs_(x.v[i])
      val t = max_(abs_(a), abs_(x.v[i]))
      if (t == 0) ONE else ((m + ONE) * ONE) / t + ONE })
    val kink = kinks.foldl(ONE, (m, e) => max_(m, e))
    val smooth = kink < 2^26 * ONE
    { ok: smooth and allBelow(p.nv, i => mu[i] > 0), d: d, sigma: sigma, gam: gam, mu: mu, kink: kink,
      gmax: tabulate(p.nv, i => if (mu[i] > 0) (gam[i] * ONE) / mu[i] else 0).foldl(0, (m, e) => max_(m, e)) } }
  // V dx = r, row by row. Slack: 2^-42 of the size of the terms of the reduced system that is factorised, magnified by
  // the conditioning of its leading block (at worst 1/sigma) and by the distance to a kink.
  type Gap = { gz: int, sz: int, gl: int, sl: int, gv: int, sv: int, gy: int, sy: int }
  pure def gaps(p: Qp, mpc: int, f: Fac, r: Pt, x: Pt): Gap = {
    val sh = 2^p.ds
    val hz = mv(p.H, x.z)
    val gt = mtv(p.G, x.l, p.nz)
    val at = mtv(p.A, x.v, p.nz)
    val gz = mv(p.G, x.z)
    val az = mv(p.A, x.z)
    val ry = yOf(p, x.z)
    val a1 = rows(p.A) * cols(p.A, p.nz) / sh
    val inv = (ONE * ONE) / f.sigma                        // 1/sigma
    val nz = infnorm(x.z)
    val nd = max_(infnorm(x.l), infnorm(x.v))
    val rr = max_(infnorm(r.z), max_(infnorm(r.l), infnorm(r.v)))
    val mumin = minElem(f.mu)
    val base = mul((rows(p.H) * ONE + a1 * f.gmax) / sh + f.sigma + (if (mpc == 1) inv else 0), nz)
             + (cols(p.G, p.nz) + cols(p.A, p.nz)) * nd / sh + rr + (cols(p.A, p.nz) * infnorm(r.v) / sh) * ONE / mumin
    val tl = rows(p.G) * nz / sh + mul(f.sigma, infnorm(x.l)) + infnorm(r.l) + base / 2^8
    val worse = mul(ONE + inv, f.kink)
    { gz: infnorm(tabulate(p.nz, i => (hz[i] + gt[i] + at[i]) / sh + mul(f.sigma, x.z[i]) - r.z[i])),
      sz: mul(base, if (mpc == 1) worse else f.kink),
      gl: infnorm(tabulate(p.nl, i => -gz[i] / sh + mul(f.sigma, x.l[i]) - r.l[i])),
      sl: mul(tl + (if (mpc == 1) mul(inv, nz) else 0), worse),
      gv: infnorm(tabulate(p.nv, i => mul(f.mu[i], x.v[i]) - mul(f.gam[i], az[i] / sh) - r.v[i])),
      sv: mul(infnorm(x.v) * (1 + infnorm(f.mu) / ONE) + mul(infnorm(f.gam) + ONE, rows(p.A) * nz / sh) + infnorm(r.v), f.kink),
      gy: infnorm(sub(x.y, ry)), sy: yMag(p, x.z) } }
  // bits: 42, fewer where an indefinite Hessian leaves the conditioning open
  pure def solveCodes(p: Qp, mpc: int, f: Fac, r: Pt, x: Pt, bits: int): List[int] = {
    val g = gaps(p, mpc, f, r, x)
    code(g.gz <= eps(g.sz, bits), 1411).concat(code(g.gl <= eps(g.sl, bits), 1412)).concat(code(g.gv <= eps(g.sv, 42), 1413))
    .concat(code(g.gy <= eps(g.sy, 44), 1414)) }

  // ------------------------------------------------------------------ transitions
  // ints: op exc flag untouched intact args..     doubles: args.. | y.. | snapshot
  type Step = { s: State, codes: List[int] }
  pure def setX(s: State, k: int, v: Var): State = s.with("xs", s.xs.replaceAt(k, v))
  pure def P(s: State, link: int): Qp = s.probs.get(link - 1)
  pure def refuse(s: State, S: Vec, exc: int, c: int, k: int): Step =       // an operation that must throw
    { s: (if (k >= 0) setX(s, k, s.xs[k].with("cons", false)) else s).with("snap", S), codes: code(exc == 1, c) }

  pure def stepVar(s: State, op: int, I: Vec, D: Vec, S: Vec): Step = {
    val exc = I[1]
    val k = I[5]
    val v = s.xs[k]
    val old = xAt(s, s.snap, k)
    val x = xAt(s, S, k)
    val fr = frame(s, S, k, -1, 1507).concat(normsX(s, S))
    val s1 = s.with("snap", S)
    if (op == 10)                                            // link
      { s: setX(s1, k, if (v.link == I[6] + 1) v else { link: I[6] + 1, cons: false, err: 0 }),
        codes: frame(s, S, -1, -1, 1507) }
    else if (op == 11) {                                     // values through the accessors; the margin is not recomputed
      val w = { z: vecAt(D, 0, s.nz), l: vecAt(D, s.nz, s.nl), v: vecAt(D, s.nz + s.nl, s.nv), y: old.y }
      { s: setX(s1, k, v.with("cons", false)), codes: code(x == w, 1508).concat(fr) } }
    else if (op == 14) {                                     // copy from I[6]
      { s: setX(s1, k, s.xs[I[6]]), codes: code(x == xAt(s, s.snap, I[6]), 1503).concat(fr) } }
    else if (op == 16)                                       // projection
      { s: s1, codes: code(x == old.with("v", old.v.listMap(e => pos(e))), 1504).concat(fr) }
    else if (v.link == 0) refuse(s, S, exc, 1505, k)
    else {
      val p = P(s, v.link)
      if (op == 12) {                                        // margin
        val m = yMag(p, old.z)
        { s: setX(s1, k, { link: v.link, cons: true, err: eps(m, 46) }),
          codes: code(exc == 0, 1509).concat(code(x.z == old.z and x.l == old.l and x.v == old.v, 1510))
                 .concat(code(closeV(x.y, yOf(p, x.z), eps(m, 46)), 1501)).concat(fr) } }
      else if (op == 13) {                                   // fill
        val m = yMag(p, x.z)
        val a = D[0]
        { s: setX(s1, k, { link: v.link, cons: true, err: eps(m, 46) }),
          codes: code(exc == 0, 1509).concat(code(x.z.all_(e => e == a) and x.l.all_(e => e == a) and x.v.all_(e => e == a), 1511))
                 .concat(code(closeV(x.y, yOf(p, x.z), eps(m, 46)), 1501)).concat(fr) } }
      else {                                                 // 15: scaled addition of I[6]
        val a = D[0]
        val t = s.xs[I[6]]
        val w = xAt(s, s.snap, I[6])
        val cons = v.cons and t.cons and t.link == v.link
        val m = max_(yMag(p, x.z), infnorm(old.y)) + mul(abs_(a), infnorm(w.y) + infnorm(p.b) * ONE / 2^p.ds)
        val err = v.err + mul(abs_(a), t.err) + eps(m, 46)
        pure def plus(o: Vec, q: Vec, n: Vec): bool =
          allBelow(o.length(), i => close(n[i], o[i] + mul(a, q[i]), eps(abs_(o[i]) + mul(abs_(a), abs_(q[i])), 48)))
        { s: setX(s1, k, { link: v.link, cons: cons, err: err }),
          codes: code(exc == 0, 1509).concat(code(plus(old.z, w.z, x.z) and plus(old.l, w.l, x.l) and plus(old.v, w.v, x.v), 1502))
                 .concat(if (cons) code(closeV(x.y, yOf(p, x.z), err), 1501) else []).concat(fr) } }
    } }

  pure def stepRes(s: State, op: int, I: Vec, D: Vec, S: Vec): Step = {
    val exc = I[1]
    val k = I[5]
    val r = s.rs[k]
    val old = rAt(s, s.snap, k)
    val x = rAt(s, S, k)
    val fr = frame(s, S, -1, k, 1607).concat(normsR(s, S))
    val s1 = s.with("snap", S)
    if (op == 20) { s: s1.with("rs", s.rs.replaceAt(k, r.with("link", I[6] + 1))), codes: frame(s, S, -1, -1, 1607) }
    else if (op == 21) { s: s1.with("rs", s.rs.replaceAt(k, r.with("alpha", D[0]))), codes: frame(s, S, -1, -1, 1607) }
    else if (op == 22)
      { s: s1, codes: code(x.z.all_(e => e == D[0]) and x.l.all_(e => e == D[0]) and x.v.all_(e => e == D[0]), 1604).concat(fr) }
    else if (op == 23)
      { s: s1, codes: code(x.z == scale(-1, old.z) and x.l == scale(-1, old.l) and x.v == scale(-1, old.v), 1605).concat(fr) }
    else if (r.link == 0) { s: s1, codes: code(exc == 1, 1608) }
    else {
      val a = xAt(s, s.snap, I[6])
      val b = xAt(s, s.snap, I[7])
      val go = saneP(a) and saneP(b)
      { s: s1, codes: code(exc == 0, 1609).concat(fr)
               .concat(if (go) resCodes(P(s, r.link), op - 24, r.alpha, a, b, D[0], x) else []) } } }

  pure def stepLin(s: State, op: int, I: Vec, D: Vec, S: Vec): Step = {
    val exc = I[1]
    val flag = I[2]
    val s1 = s.with("snap", S)
    if (op == 40) { s: s1.with("llink", I[5] + 1).with("fac", if (s.fac.d == I[5] + 1) s.fac else NOFAC), codes: frame(s, S, -1, -1, 1407) }
    else if (op == 41) { s: s1.with("lalpha", D[0]), codes: frame(s, S, -1, -1, 1407) }
    else if (op == 42) {
      val fr = frame(s, S, -1, -1, 1407)
      if (s.llink == 0 or D[0] <= 0) { s: s1.with("fac", NOFAC), codes: code(exc == 1, 1405).concat(fr) }
      else {
        val p = P(s, s.llink)
        val x = xAt(s, S, I[5])
        val xb = xAt(s, S, I[6])
        val go = saneP(x) and saneP(xb)
        val calm = go and infnorm(x.v) < 2^20 * ONE and infnorm(x.y) < 2^20 * ONE and infnorm(xb.v) < 2^20 * ONE
        val f = if (go and exc == 0 and flag == 1) factorise(p, s.llink, x, xb, D[0], s.lalpha) else NOFAC
        { s: s1.with("fac", f),
          codes: code(exc == 0, 1406).concat(fr)
                 .concat(code(s.pd.get(s.llink - 1) == 1 and calm and D[0] * 2^20 >= ONE and D[0] <= ONE implies exc == 0 and flag == 1, 1401)) } } }
    else {                                                   // 43: solve with residual I[5] into variable I[6]
      val k = I[6]
      val fr = frame(s, S, k, -1, 1407)
      val x = xAt(s, S, k)
      val r = rAt(s, s.snap, I[5])
      if (s.fac.ok and exc == 0 and flag == 1 and saneP(r)) {
        val p = P(s, s.fac.d)
        val cs = if (saneP(x)) solveCodes(p, s.mpc, s.fac, r, x, if (s.pd.get(s.fac.d - 1) == 2) 12 else 42) else []
        { s: setX(s1, k, { link: s.xs[k].link, cons: saneP(x) and s.xs[k].link == s.fac.d, err: eps(yMag(p, x.z), 44) }),
          codes: cs.concat(fr).concat(code(saneP(x), 1415)) } }
      else { s: setX(s1, k, s.xs[k].with("cons", false)), codes: fr.concat(code(exc == 0, 1408)) } } }

  pure def transition(s: State, I: Vec, D: Vec): Step = {
    val op = I[0]
    val exc = I[1]
    val nArg = I[I.length() - 1]                             // how many of D are arguments; then the snapshot
    if (op == 0) {
      val s0 = EMPTY.with("mpc", I[5]).with("nz", I[6]).with("nl", I[7]).with("nv", I[8])
        .with("xs", [{ link: 0, cons: false, err: 0 }, { link: 0, cons: false, err: 0 }, { link: 0, cons: false, err: 0 }])
        .with("rs", [{ link: 0, alpha: D[0] }, { link: 0, alpha: D[0] }]).with("lalpha", D[0])
      val S = D.slice(nArg, D.length())
      { s: s0.with("snap", S), codes: normsX(s0, S).concat(normsR(s0, S)) } }
    else if (op == 1) {                                      // problem data: slot pd | problem ; forcing norm
      val p = probAt(I, 7)
      val S = D.slice(nArg, D.length())
      { s: s.with("probs", s.probs.put(I[5], p)).with("pd", s.pd.put(I[5], I[6])).with("snap", S),
        codes: code(exc == 0, 1303).concat(code(exc != 0 or isNorm(D[0], forcingSq(p) * 2^(2 * (SB - p.ds))), 1302)).concat(frame(s, S, -1, -1, 1305)) } }
    else if (op == 2) {                                      // operator: slot kind wellsized lenx leny leny' ; a b x y y'
      val p = s.probs.get(I[5])
      val k = I[6]
      val a = D[0]
      val b = D[1]
      val x = D.slice(2, 2 + I[8])
      val y = D.slice(2 + I[8], 2 + I[8] + I[9])
      val o = D.slice(2 + I[8] + I[9], 2 + I[8] + I[9] + I[10])
      val fits = I[7] == 1 and (k > 4 or I[8] == opIn(p, k)) and I[9] == opOut(p, k)
      val S = D.slice(nArg, D.length())
      { s: s.with("snap", S), codes: (if (fits) code(exc == 0, 1303).concat(code(o == gemv(p, k, a, b, x, y), 1301))
                   else code(exc == 1, 1304)).concat(code(I[3] == 1, 1306)).concat(code(I[4] == 1, 1307)).concat(frame(s, S, -1, -1, 1305)) } }
    else {
      val S = D.slice(nArg, D.length())
      val t = if (op < 20) stepVar(s, op, I, D, S)
              else if (op < 30) stepRes(s, op, I, D, S)
              else if (op == 30) { s: s.with("flink", I[5] + 1).with("snap", S), codes: frame(s, S, -1, -1, 1707) }
              else if (op == 31)
                (if (s.flink == 0) { s: s.with("snap", S), codes: code(exc == 1, 1705) }
                 else { s: s.with("snap", S), codes: code(exc == 0, 1706).concat(frame(s, S, -1, -1, 1707))
                          .concat(if (exc == 0 and saneP(xAt(s, S, I[5]))) feasCodes(P(s, s.flink), xAt(s, S, I[5]), D[0], I[2]) else []) })
              else stepLin(s, op, I, D, S)
      { s: t.s, codes: t.codes.concat(code(I[4] == 1, 1307)) } } }

  var idx: int
  var bad: List[List[int]]
  var st: State
  action start = all { idx' = 0, bad' = [], st' = EMPTY }
  action consume(i: int, d: int): bool = {
    val t = transition(st, ints(i), dbls(d))
    all { idx' = idx + 1, st' = t.s, bad' = if (t.codes.length() == 0) bad else bad.append([idx].concat(t.codes)) } }
}
