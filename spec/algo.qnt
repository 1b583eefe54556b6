// The proximal-point algorithm as its components see it: a run is a sequence of Newton steps (handed to the linear
// solver), feasibility checks and an end. Between two of them the algorithm may do only what is described here:
// a backtracking line search along the direction, the stopping rules, the projection of the duals, the tolerance
// schedule and the budgets.
module algo {
  import linalg.* from "./linalg"
  import qp.* from "./qp"
  import decode.* from "./decode"
  import kkt.* from "./kkt"

  type Opt = { alpha: int, beta: int, eta: int, delta: int, absTol: int, relTol: int, stall: int, infeas: int, inMax: int, inMin: int, sigma: int,
               maxNewton: int, maxProx: int, maxInner: int, maxLs: int, feas: bool, nonmono: bool }
  type Run = { p: Qp, o: Opt, combo: Num, guess: Pt,
               started: bool,            // a Newton step has been taken
               xk: Pt, Ek: Num,          // the proximal iterate of the current subproblem, its residual
               tol: Num,                 // tolerance of the current subproblem (before the first: the initial one)
               x: Pt, dx: Pt,            // the last Newton step of the current subproblem
               merits: List[Num],        // merits of the current subproblem, latest first
               prox: int, newton: int, inner: int,
               verdict: int,             // what the feasibility checker said about this subproblem's step (-1 not asked)
               next: Pt,                 // the next proximal iterate, known once the checker has seen the step
               again: bool,              // the checker was asked twice: a subproblem without a Newton step
               failed: bool, live: bool }
  pure def emptyQp: Qp = { nz: 0, nl: 0, nv: 0, ds: 0, H: [], f: [], G: [], h: [], A: [], b: [] }
  pure val NOPT: Pt = { z: [], l: [], v: [], y: [] }
  pure val Z: Num = { v: 0, e: 0 }
  pure val OPT0: Opt = { alpha: 0, beta: 0, eta: 0, delta: 0, absTol: 0, relTol: 0, stall: 0, infeas: 0, inMax: 0, inMin: 0, sigma: 0,
    maxNewton: 0, maxProx: 0, maxInner: 0, maxLs: 0, feas: false, nonmono: false }
  pure val RUN0: Run = { p: emptyQp, o: OPT0, combo: Z, guess: NOPT, started: false, xk: NOPT, Ek: Z, tol: Z, x: NOPT, dx: NOPT, merits: [],
    prox: 0, newton: 0, inner: 0, verdict: -1, next: NOPT, again: false, failed: false, live: false }

  pure def code(ok: bool, c: int): List[int] = if (ok) [] else [c]
  pure def sat(x: Num, lo: int, hi: int): Num = { v: min_(max_(x.v, lo), hi), e: x.e }

  // ------------------------------------------------------------------ points
  pure def along(x: Vec, t: int, d: Vec): Vec = tabulate(x.length(), i => x[i] + mul(t, d[i]))
  // x + t dx; the margin follows the step:  y + t (dy - b)
  pure def trial(p: Qp, x: Pt, t: int, d: Pt): Pt =
    { z: along(x.z, t, d.z), l: along(x.l, t, d.l), v: along(x.v, t, d.v),
      y: tabulate(p.nv, i => x.y[i] + mul(t, d.y[i] - p.b[i] * ONE / 2^p.ds)) }
  pure def project(x: Pt): Pt = x.with("v", x.v.listMap(e => pos(e)))
  pure def mx(x: Pt): int = max_(infnorm(x.z), max_(infnorm(x.l), infnorm(x.v)))
  pure def near(a: Vec, b: Vec, s: int): bool = a.length() == b.length() and allBelow(a.length(), i => abs_(a[i] - b[i]) <= s)
  pure def nearP(a: Pt, b: Pt, s: int): bool = near(a.z, b.z, s) and near(a.l, b.l, s) and near(a.v, b.v, s)
  pure def same3(a: Pt, b: Pt): bool = a.z == b.z and a.l == b.l and a.v == b.v

  pure def innerRes(s: Run, x: Pt): Pt = inner(s.p, x, s.xk, s.o.sigma, s.o.alpha)
  pure def innerErr(s: Run, x: Pt): int = resErr(s.p, x, s.xk, s.o.sigma)
  pure def outerNum(s: Run, x: Pt): Num = normNum(s.p, outer(s.p, x, s.o.alpha), resErr(s.p, x, x, 0))

  // ------------------------------------------------------------------ stopping rule of the subproblem, at x (1 stop, 0 go on, 2 cannot tell)
  pure def stop3(s: Run, x: Pt): int = {
    val Ei = normNum(s.p, innerRes(s, x), innerErr(s, x))
    val Eo = outerNum(s, x)
    val less = leq(s.Ek, Eo)                              // "outer residual reduced" is strict
    or3(and3(leq(Ei, s.tol), if (less == 1) 0 else if (less == 0) 1 else 2), leq(Ei, sure(s.o.inMin))) }

  // ------------------------------------------------------------------ line search
  // m0: what sufficient decrease is measured from
  pure def m0(s: Run): Num = if (s.o.nonmono) s.merits.slice(0, min_(5, s.merits.length())).foldl(s.merits[0], (m, e) => maxNum(m, e)) else s.merits[0]
  pure def armijo(s: Run, t: int, x: Pt): int = {
    val m = meritNum(s.p, innerRes(s, x), innerErr(s, x))
    val c = s.merits[0]
    val r = mul(2 * t, mul(s.o.eta, c.v))
    val b = m0(s)
    leq(m, { v: b.v - r, e: b.e + mul(2 * t, c.e) + eps(b.v, 48) }) }
  // The point the last step leads to, given that it was observed as w (projected if proj): the first step length beta^j
  // that satisfies the decrease condition or is the last one. Returns the step length, or -1 if w is not that point.
  type Search = { t: int, found: int, over: bool }
  pure def lineSearch(s: Run, w: Pt, proj: bool, extra: int): int =
    range(0, s.o.maxLs + 1).foldl({ t: ONE, found: -1, over: false }, (a, j) =>
      if (a.over) a else {
        val q = trial(s.p, s.x, a.t, s.dx)
        val tol = eps(mx(s.x) + mul(a.t, mx(s.dx)) + mx(w), 42) + extra
        val hit = nearP(if (proj) project(q) else q, w, tol)
        val last = j == s.o.maxLs
        val ok = if (last) 1 else armijo(s, a.t, q)
        if (hit and ok != 0) { t: a.t, found: a.t, over: true }
        else if (ok == 1) { t: a.t, found: -1, over: true }
        else { t: mul(a.t, s.o.beta), found: -1, over: false } }).found

  // ------------------------------------------------------------------ the end of a subproblem, when the next proximal iterate is w
  // timeout: the Newton budget may have ended it
  pure def ended(s: Run, w: Pt, extra: int, timeout: bool): List[int] = {
    val t = lineSearch(s, w, true, extra)
    if (t < 0) [2003]
    else {
      val q = trial(s.p, s.x, t, s.dx)
      val early = stop3(s, q) == 0 and s.inner < s.o.maxInner and not(timeout and s.newton >= s.o.maxNewton)
      code(not(early), 2005) } }

  pure def nextTol(s: Run, Ek: Num): Num = {
    val d = { v: mul(s.tol.v, s.o.delta), e: s.tol.e + eps(s.tol.v, 48) }
    val m = if (d.v <= Ek.v) { v: d.v, e: max_(d.e, Ek.e) } else { v: Ek.v, e: max_(d.e, Ek.e) }
    { v: max_(m.v, s.o.inMin), e: m.e } }

  // ------------------------------------------------------------------ events
  pure def begin(I: Vec, D: Vec): Run = {
    val p = probAt(I, 7)
    val o = { alpha: D[0], beta: D[1], eta: D[2], delta: D[3], absTol: D[4], relTol: D[5], stall: D[6], infeas: D[7], inMax: D[8], inMin: D[9], sigma: D[10],
              maxNewton: I[1], maxProx: I[2], maxInner: I[3], maxLs: I[4], feas: I[5] == 1, nonmono: I[6] == 1 }
    val g = ptAt(D, 11, p, false)
    val c = comboTol(p, o.absTol, o.relTol)
    { ...RUN0, p: p, o: o, guess: g, combo: { v: c, e: eps(c, 44) }, live: true } }

  type Step = { s: Run, codes: List[int] }

  // the tolerance test and the stall test at the proximal iterate w reached by a step from xk: 1 met, 0 not met, 2 cannot tell
  pure def done3(s: Run, w: Pt, Ek: Num): int = {
    val d = isqrt(sq(sub(w.z, s.xk.z)) + sq(sub(w.l, s.xk.l)) + sq(sub(w.v, s.xk.v)), 2 * SB)
    or3(leq(Ek, s.combo), leq({ v: d, e: eps(d, 40) + eps(mx(w) + mx(s.xk), 48) }, sure(s.o.stall))) }

  pure def newtonEvent(s: Run, I: Vec, D: Vec): Step = {
    val p = s.p
    val n4 = ptLen(p, true)
    val n3 = ptLen(p, false)
    val x = ptAt(D, 1, p, true)
    val xb = ptAt(D, 1 + n4, p, true)
    val bad = I[1] == 0 or I[2] == 0                       // the linear solver reported failure
    if (not(s.live)) { s: s, codes: [] }
    else if (not(saneP(x)) or not(saneP(xb)) or (not(bad) and not(saneVec(D)))) { s: s.with("live", false), codes: [] }
    else {
      val r = if (bad) NOPT else ptAt(D, 1 + 2 * n4, p, false)
      val dx = if (bad) NOPT else ptAt(D, 1 + 2 * n4 + n3, p, true)
      val fresh = not(s.started) or not(same3(xb, s.xk))
      // a new subproblem
      val opened = if (not(s.started)) {
          val Ek = normNum(p, outer(p, xb, s.o.alpha), resErr(p, xb, xb, 0))
          val s1 = { ...s, started: true, xk: xb, Ek: Ek, inner: 0, merits: [] }
          val t0 = { ...s1, tol: sat(Ek, s.o.inMin, s.o.inMax) }
          { s: t0.with("tol", nextTol(t0, Ek)),
            codes: code(same3(xb, s.guess) and near(xb.y, margin(p, xb).listMap(e => e / 2^p.ds), eps(terms(p, xb, xb, 0) + rows(p.A) * infnorm(xb.z), 44)), 2011)
                   .concat(code(leq(Ek, s.combo) != 1, 2008)) } }
        else if (fresh) {
          val Ek = outerNum(s, xb)
          val c0 = if (s.verdict >= 0) code(nearP(s.next, xb, eps(mx(xb) + mx(s.xk), 42)), 2004) else ended(s, xb, 0, false)
          val s1 = { ...s, xk: xb, Ek: Ek, inner: 0, merits: [], prox: s.prox + 1, verdict: -1 }
          { s: s1.with("tol", nextTol(s1, Ek)),
            codes: c0.concat(code(s.o.feas == (s.verdict >= 0), 2006)).concat(code(s.verdict <= 0, 2007)).concat(code(done3(s, xb, Ek) != 1, 2008))
                   .concat(code(s.prox + 1 < s.o.maxProx, 2009)) } }
        else
          { s: s, codes: code(s.verdict < 0, 2012).concat(code(lineSearch(s, x, false, 0) >= 0, 2001)) }
      val s2 = opened.s
      val go = code(not(fresh) or (same3(x, xb) and x.y == xb.y), 2013)
               .concat(code(stop3(s2, x) != 1, 2002))
               .concat(code(s2.inner < s.o.maxInner and s2.newton < s.o.maxNewton, 2009))
               .concat(code(D[0] == s.o.sigma, 2010))
      if (bad) { s: { ...s2, failed: true }, codes: opened.codes.concat(go) }
      else {
        val F = innerRes(s2, x)
        val fe = innerErr(s2, x)
        val neg = { z: scale(-1, F.z), l: scale(-1, F.l), v: scale(-1, F.v), y: [] }
        val m = meritNum(p, F, fe)
        { s: { ...s2, x: x, dx: dx, merits: [m].concat(s2.merits), inner: s2.inner + 1, newton: s2.newton + 1 },
          codes: opened.codes.concat(go).concat(code(nearP(r, neg, fe), 2014)) } } } }

  pure def feasEvent(s: Run, I: Vec, D: Vec): Step = {
    val d = ptAt(D, 1, s.p, false)
    if (not(s.live)) { s: s, codes: [] }
    else if (not(saneP(d))) { s: s.with("live", false), codes: [] }
    else if (not(s.started)) { s: s.with("live", false), codes: [] }          // not reached by a Newton step: judged by the end alone
    else if (s.verdict >= 0)                                 // a subproblem that needed no Newton step: its step is zero
      { s: s.with("again", true), codes: code(s.o.feas and not(s.again) and mx(d) == 0 and I[1] == 0, 2006) }
    else {
      val w = { z: add(s.xk.z, d.z), l: add(s.xk.l, d.l), v: add(s.xk.v, d.v), y: [] }
      // the direction is a rounded difference: w is off by the rounding of both ends
      val extra = eps(mx(s.xk) + mx(w), 44)
      { s: { ...s, verdict: I[1], next: w },
        codes: code(s.o.feas and s.verdict < 0, 2006).concat(code(D[0] == s.o.infeas, 2015)).concat(code(s.newton < s.o.maxNewton, 2016))
               .concat(ended(s, w, extra, false)) } } }

  // where the last step leads if that can be told without looking: the first step length whose decrease test is certain
  pure def endpoint(s: Run): { known: bool, q: Pt } =
    range(0, s.o.maxLs + 1).foldl({ t: ONE, over: false, known: false, q: NOPT }, (a, j) =>
      if (a.over) a else {
        val q = trial(s.p, s.x, a.t, s.dx)
        val ok = if (j == s.o.maxLs) 1 else armijo(s, a.t, q)
        if (ok == 1) { t: a.t, over: true, known: true, q: q } else if (ok == 2) { t: a.t, over: true, known: false, q: q }
        else { t: mul(a.t, s.o.beta), over: false, known: false, q: NOPT } }).endOf()
  pure def endOf(a: { t: int, over: bool, known: bool, q: Pt }): { known: bool, q: Pt } = { known: a.known, q: a.q }

  pure val FLAGOF: List[int] = [0, 3, 4, 5]
  pure def endEvent(s: Run, I: Vec, D: Vec): Step = {
    val exc = I[1]
    val flag = I[2]
    val newton = I[3]
    val prox = I[4]
    val untouched = I[5] == 1
    val over = { ...s, live: false }
    if (not(s.live)) { s: over, codes: [] }
    else if (exc != 0) { s: over, codes: code(s.failed and exc == 1, 2104).concat(code(untouched, 2103)) }
    else if (s.failed) { s: over, codes: [2105] }
    else {
      val x = ptAt(D, 2, s.p, true)
      if (not(saneP(x))) { s: over, codes: [] }
      else {
        val counts = code(newton == s.newton, 2017)
        if (not(s.started)) {
          // no Newton step at all
          val Ek = normNum(s.p, outer(s.p, x, s.o.alpha), resErr(s.p, x, x, 0))
          { s: over, codes: counts.concat(if (flag == 0 and prox == 0) code(same3(x, s.guess), 2018).concat(code(leq(Ek, s.combo) != 0, 2019)) else []) } }
        else {
          val dir = { z: sub(s.next.z, s.xk.z), l: sub(s.next.l, s.xk.l), v: sub(s.next.v, s.xk.v), y: [] }
          val c =
            if (flag >= 3) code(s.verdict > 0 and FLAGOF[s.verdict] == flag, 2020).concat(code(prox == s.prox, 2021))
                           .concat(code(s.verdict < 0 or nearP(x, dir, eps(mx(s.xk) + mx(s.next), 50)), 2022))
            else if (newton >= s.o.maxNewton) {
              // the better of the inner and the outer iterate
              val Eo = outerNum(s, x)
              code(flag == 2, 2023).concat(code(prox == s.prox, 2021)).concat(code(s.verdict < 0, 2016))
              .concat(if (same3(x, s.xk)) {
                  val q = endpoint(s)
                  code(q.known and saneP(q.q) implies leq(s.Ek, outerNum(s, project(q.q))) != 0, 605) }
                else ended(s, x, 0, true).concat(code(leq(s.Ek, Eo) != 1, 604))) }
            else {
              val Ek = outerNum(s, x)
              // a further subproblem may have ended without a step
              val idle = prox == s.prox + 2 and s.o.feas == s.again and (flag == 0 or (flag == 2 and prox >= s.o.maxProx)) and {
                val s1 = { ...s, xk: x, Ek: Ek, inner: 0, merits: [] }
                stop3(s1.with("tol", nextTol(s1, Ek)), x) != 0 }
              val e = if (s.verdict >= 0) code(nearP(s.next, x, eps(mx(x) + mx(s.xk), 42)), 2004) else ended(s, x, 0, false)
              e.concat(code(s.o.feas == (s.verdict >= 0), 2006)).concat(code(s.verdict <= 0, 2007)).concat(code(idle or (prox == s.prox + 1 and not(s.again)), 2021))
               .concat(if (idle) [] else if (flag == 0) code(done3(s, x, Ek) != 0, 2019) else code(flag == 2 and s.prox + 1 >= s.o.maxProx, 2024)) }
          { s: over, codes: counts.concat(c) } } } } }

  var idx: int
  var bad: List[List[int]]
  var run_: Run
  action start = all { idx' = 0, bad' = [], run_' = RUN0 }
  action consume(i: int, d: int): bool = {
    val I = ints(i)
    val D = dbls(d)
    val t = if (I[0] == 1) { s: begin(I, D), codes: [] } else if (I[0] == 2) newtonEvent(run_, I, D)
            else if (I[0] == 3) feasEvent(run_, I, D)
            else if (I[0] == 5) { s: run_, codes: code(I[1] == 1, 2106) }      // a used object repeated what a fresh one did, bit for bit
            else endEvent(run_, I, D)
    all { idx' = idx + 1, run_' = t.s, bad' = if (t.codes.length() == 0) bad else bad.append([idx].concat(t.codes)) } }
}
