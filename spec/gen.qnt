// Case generator: a nondeterministic machine whose every state is a QP with an exactly known
// status (optimum, Farkas certificate, recession direction), a guess and an option vector.
// The randomness is one nondeterministic choice per step: a pool of digits.
module gen {
  import linalg.* from "./linalg"
  import qp.* from "./qp"

  // ------------------------------------------------------------------ profile
  const FAMS: List[int]      // problem families to draw from
  const KINDS: List[int]     // 0 dense, 1 MPC
  const MAXZ: int            // largest dense nz
  const OPTMODE: int         // 0 default, 1 reliable, 2 default or reliable, 3 varied
  const BUDGETS: int         // 1: also draw small iteration budgets
  const BIG: int             // 1: longer horizons, more constraints
  const GUESS: int           // 0 zero or v>=0 guesses, 1 arbitrary guesses

  // families
  pure val KKT = 0           // H positive definite, optimum known
  pure val KKTPSD = 1        // H positive semidefinite, a KKT point known
  pure val INFEAS = 2        // H positive definite, Farkas certificate known
  pure val UNBND = 3         // feasible, recession direction known
  pure val BOTH = 4          // Farkas certificate and recession direction known
  pure val ANY = 5           // positive semidefinite, status unknown

  type Pool = int -> int
  type Case = { fam: int, mpc: int, N: int, nx: int, nu: int, nc: int, nz: int, nl: int, nv: int, ds: int,
                H: Mat, f: Vec, G: Mat, h: Vec, A: Mat, b: Vec, st: List[Stage], x0: Vec,
                tz: Vec, tl: Vec, tv: Vec,          // witness: optimum / certificate (meaning depends on fam)
                gs: int, gz: Vec, gl: Vec, gv: Vec, gy: Vec,  // guess, real = int / 2^gs
                om: Vec, oe: Vec, sel: Vec }        // options m*10^e; free selector digits for the harness

  pure val POOLN = 700
  pure def dig(p: Pool, i: int, n: int): int = p.get(i % POOLN) % n
  pure def draw(p: Pool, off: int, n: int, tab: Vec): Vec = tabulate(n, i => tab[dig(p, off + i, tab.length())])
  pure def drawMat(p: Pool, off: int, r: int, c: int, tab: Vec): Mat = tabulate(r, i => draw(p, off + i * c, c, tab))
  pure def pick(p: Pool, i: int, l: List[a]): a = l[dig(p, i, l.length())]

  pure val TSMALL = [-2, -1, 0, 0, 0, 1, 1, 2]
  pure val TC = [-3, -2, -1, -1, 0, 0, 1, 1, 2, 3]
  pure val TP = [-4, -3, -2, -1, 0, 0, 1, 2, 3, 4]
  pure val TPOS = [1, 1, 2, 3, 5]

  // complementary pair tables: status 0 active, 1 inactive, 2 weakly active
  pure def compl(p: Pool, off: int, n: int): { y: Vec, v: Vec } = {
    val s = draw(p, off, n, [0, 1, 0, 1, 0, 1, 2])
    { y: tabulate(n, i => if (s[i] == 1) TPOS[dig(p, off + n + i, 5)] else 0),
      v: tabulate(n, i => if (s[i] == 0) TPOS[dig(p, off + 2 * n + i, 5)] else 0) } }

  // rows orthogonal to d: c*(e_j d_k - e_k d_j)
  pure def orthRow(p: Pool, off: int, n: int, d: Vec): Vec =
    if (n == 1) [0] else {
      val j = dig(p, off, n)
      val k = (j + 1 + dig(p, off + 1, n - 1)) % n
      val c = pick(p, off + 2, [1, 1, -1, 2])
      tabulate(n, i => if (i == j) c * d[k] else if (i == k) -c * d[j] else 0) }

  type Body = { H: Mat, f: Vec, G: Mat, h: Vec, A: Mat, b: Vec, tz: Vec, tl: Vec, tv: Vec }

  pure def denseBody(fam: int, p: Pool, nz: int, nl: int, nv: int): Body = {
    val pd = fam == KKT or fam == INFEAS
    val d0 = draw(p, 10, nz, [-1, 0, 1, 1, 2])
    val d = if (infnorm(d0) == 0) d0.replaceAt(0, 1) else d0
    val rec = fam == UNBND or fam == BOTH
    val rank = if (pd) nz else dig(p, 4, nz + 1)
    val M0 = if (rec) tabulate(rank, i => orthRow(p, 30 + 3 * i, nz, d)) else drawMat(p, 30, rank, nz, TSMALL)
    val HG = if (rank == 0) tabulate(nz, i => zeros(nz)) else gram(M0, nz)
    val H = if (pd) matAdd(HG, eye(nz)) else HG
    val G = if (rec) tabulate(nl, i => orthRow(p, 110 + 3 * i, nz, d)) else drawMat(p, 110, nl, nz, TC)
    val t = if (fam == UNBND) draw(p, 150, nv, [0, 0, 1, 2]) else zeros(nv)
    val A0 = if (rec) tabulate(nv, i => sub(orthRow(p, 170 + 3 * i, nz, d), scale(t[i], d)))
             else drawMat(p, 170, nv, nz, TC)
    // occasionally duplicate a row (degenerate, redundant constraints)
    val A1 = if (nv >= 2 and dig(p, 5, 6) == 0) A0.replaceAt(nv - 1, A0[0]) else A0
    val z = draw(p, 260, nz, TP)
    val l = draw(p, 270, nl, TP)
    val c = compl(p, 280, nv)
    val kkt = fam == KKT or fam == KKTPSD
    val fv = draw(p, 320, nv, [0, 0, 1, 2])          // Farkas multipliers of all rows but the last
    val fl = draw(p, 330, nl, [-1, 0, 1, 2])
    val fark = fam == INFEAS or fam == BOTH
    val v1 = tabulate(nv, i => if (i == nv - 1) 1 else fv[i])
    val A = if (fark) A1.replaceAt(nv - 1, scale(-1, add(mtv(G, fl, nz), mtv(A1, v1.replaceAt(nv - 1, 0), nz)))) else A1
    val h = if (fam == ANY) draw(p, 360, nl, TP) else mv(G, z)
    val b0 = if (fam == ANY) draw(p, 370, nv, TP) else add(mv(A, z), if (kkt) c.y else draw(p, 340, nv, [0, 0, 1, 3]))
    val b = if (fark) b0.replaceAt(nv - 1, -(dot(h, fl) + dot(b0, v1.replaceAt(nv - 1, 0))) - TPOS[dig(p, 6, 5)]) else b0
    val f0 = if (kkt) scale(-1, add(mv(H, z), add(mtv(G, l, nz), mtv(A, c.v, nz)))) else draw(p, 350, nz, TP)
    val fd = dot(f0, d)
    val f = if (rec and fd >= 0) sub(f0, scale(fd / dot(d, d) + 1, d)) else f0
    { H: H, f: f, G: G, h: h, A: A, b: b,
      tz: if (rec) d else z, tl: if (fark) fl else l, tv: if (fark) v1 else c.v } }

  type MBody = { st: List[Stage], x0: Vec, tz: Vec, tl: Vec, tv: Vec }

  // MPC problems: time-varying stages; c and d are chosen so that a known trajectory is feasible.
  // INFEAS: the constraint row nc-1 of stage k is replaced by a Farkas combination of everything else
  //   that involves (x(k),u(k)) only -- obtained by contradicting another row or the pinned x(0).
  // UNBND: the last control is free: no cost curvature, pushed downhill, never limited.
  pure def mpcBody(fam: int, p: Pool, N: int, nx: int, nu: int, nc: int): MBody = {
    val w = nx + nu
    val pd = fam == KKT or fam == INFEAS
    val rec = fam == UNBND or fam == BOTH
    val per = w * w + nx * w + nc * w + w + 3 * nc + nx
    val xs = tabulate(N + 1, i => draw(p, 20 + i * 7, nx, [-2, -1, 0, 1, 1, 2]))
    val us = tabulate(N + 1, i => draw(p, 60 + i * 7, nu, [-2, -1, 0, 1, 2]))
    pure def stage0(i: int): Stage = {
      val o = 100 + i * per
      val rank = if (pd) w else dig(p, o, w + 1)
      val freeU = rec and i == N
      val M1 = drawMat(p, o + 1, rank, w, TSMALL)
      val M0 = if (freeU) M1.listMap(r => r.replaceAt(w - 1, 0)) else M1
      val W0 = if (rank == 0) tabulate(w, k => zeros(w)) else gram(M0, w)
      val W = if (pd) matAdd(W0, eye(w)) else W0
      val A = drawMat(p, o + w * w, nx, nx, [-1, 0, 1, 1, 2])
      val B = drawMat(p, o + w * w + nx * nx, nx, nu, [-1, 0, 1, 1, 2])
      val o2 = o + w * w + nx * w
      val E = drawMat(p, o2, nc, nx, TSMALL)
      val L0 = drawMat(p, o2 + nc * nx, nc, nu, TSMALL)
      val L = if (freeU) L0.listMap(r => r.replaceAt(nu - 1, if (fam == BOTH) 0 else -abs_(r[nu - 1]))) else L0
      val o3 = o2 + nc * w
      val sl = draw(p, o3, nc, [0, 0, 1, 3])
      val x = xs[i]
      val u = us[i]
      val cons = add(mv(E, x), mv(L, u))
      { Q: tabulate(nx, a => W[a].slice(0, nx)), S: tabulate(nu, k => W[nx + k].slice(0, nx)),
        R: tabulate(nu, k => W[nx + k].slice(nx, w)),
        q: draw(p, o3 + nc, nx, TP), r: draw(p, o3 + nc + nx, nu, TP),
        E: E, L: L, d: tabulate(nc, k => -cons[k] - sl[k]),
        A: if (i < N) A else [], B: if (i < N) B else [],
        c: if (i < N) sub(xs[i + 1], add(mv(A, x), mv(B, u))) else [] } }
    val st0 = tabulate(N + 1, i => stage0(i))
    val z = concatAll(tabulate(N + 1, i => xs[i].concat(us[i])))
    val kkt = fam == KKT or fam == KKTPSD
    if (kkt) {
      val l = draw(p, 500, (N + 1) * nx, TP)
      val c = compl(p, 520, (N + 1) * nc)
      val st1 = tabulate(N + 1, i => {
        val s = st0[i]
        val cons = add(mv(s.E, xs[i]), mv(s.L, us[i]))
        s.with("d", tabulate(nc, k => -cons[k] - c.y[i * nc + k])) })
      val p0 = ofMpc({ N: N, nx: nx, nu: nu, nc: nc, ds: 0, st: st1, x0: xs[0] })
      val ff = scale(-1, add(mv(p0.H, z), add(mtv(p0.G, l, p0.nz), mtv(p0.A, c.v, p0.nz))))
      { st: tabulate(N + 1, i => { ...st1[i], q: ff.slice(i * w, i * w + nx), r: ff.slice(i * w + nx, i * w + w) }),
        x0: xs[0], tz: z, tl: l, tv: c.v }
    } else {
      // Farkas: either contradict row 0 of stage k by row nc-1 (needs nc>=2), or demand of x(1)
      // something its dynamics from the pinned x(0) exclude (row on (x0,u0) equal to minus a row on x1).
      val k = dig(p, 7, N + 1)
      val gap = TPOS[dig(p, 8, 5)]
      val useDyn = nc == 1 or dig(p, 9, 2) == 0
      val fark = fam == INFEAS or fam == BOTH
      val s0 = st0[0]
      val s1 = st0[1]
      // row g over x(1): E1 x1 <= -d1 (row 0 of stage 1), with L row zeroed; and row nc-1 of stage 0:
      //   -(E1 A) x0 - (E1 B) u0 <= d1 + E1 c - gap   contradicts x1 = A x0 + B u0 + c
      val e1 = s1.E[0]
      val ea = mtv(s0.A, e1, nx)
      val eb = mtv(s0.B, e1, nu)
      val ks = st0[k]
      val stF = if (not(fark)) st0 else if (useDyn)
          st0.replaceAt(1, { ...s1, L: s1.L.replaceAt(0, zeros(nu)) })
             .replaceAt(0, { ...s0, E: s0.E.replaceAt(nc - 1, scale(-1, ea)),
                                    L: s0.L.replaceAt(nc - 1, scale(-1, eb)),
                                    d: s0.d.replaceAt(nc - 1, -s1.d[0] - dot(e1, s0.c) + gap) })
        else
          st0.replaceAt(k, { ...ks, E: ks.E.replaceAt(nc - 1, scale(-1, ks.E[0])),
                                    L: ks.L.replaceAt(nc - 1, scale(-1, ks.L[0])),
                                    d: ks.d.replaceAt(nc - 1, -ks.d[0] + gap) })
      val sN = stF[N]
      val stU = if (not(rec)) stF else stF.replaceAt(N, sN.with("r", sN.r.replaceAt(nu - 1, -TPOS[dig(p, 3, 5)])))
      val nv = (N + 1) * nc
      val nl = (N + 1) * nx
      val nz = (N + 1) * w
      { st: stU, x0: xs[0],
        tz: if (rec) tabulate(nz, j => if (j == nz - 1) 1 else 0) else z,
        tl: if (fark and useDyn) tabulate(nl, j => if (j >= nx and j < 2 * nx) e1[j - nx] else 0) else zeros(nl),
        tv: if (not(fark)) zeros(nv)
            else if (useDyn) tabulate(nv, j => if (j == nc - 1 or j == nc) 1 else 0)
            else tabulate(nv, j => if (j == k * nc or j == k * nc + nc - 1) 1 else 0) }
    } }

  // ------------------------------------------------------------------ options: m * 10^e
  // order: sigma0 sigma_max sigma_min alpha beta eta delta gamma abs_tol rel_tol stall_tol infeas_tol
  //        inner_tol_max inner_tol_min max_newton max_prox max_inner max_linesearch feas nonmono
  pure val DEFM = [1, 1, 1, 95, 75, 1, 2, 1, 1, 1, 1, 1, 1, 1, 200, 30, 50, 20, 1, 1]
  pure val DEFE = [-8, -6, -12, -2, -2, -8, -1, -1, -6, -12, -10, -8, -2, -12, 0, 0, 0, 0, 0, 0]
  pure val RELM = [1, 1, 1, 95, 9, 1, 2, 1, 1, 1, 1, 1, 1, 1, 500, 100, 50, 40, 1, 0]
  pure val RELE = [-4, -2, -10, -2, -1, -8, -1, -1, -4, -6, -10, -8, -2, -12, 0, 0, 0, 0, 0, 0]
  pure val ALTM = [[1, 1, 1, 1], [1, 1, 1], [1, 1], [5, 1, 999, 3], [5, 1, 9, 99], [1, 1, 499, 1], [5, 1, 9], [5, 1],
                   [1, 1, 1, 1, 1], [0, 1, 1, 1], [1, 1, 1], [1, 1, 1, 1, 1], [1, 1, 1, 1], [1, 1, 1],
                   [7, 50, 3, 1000], [4, 10, 2, 300], [3, 8, 200], [1, 5, 60], [0, 1], [0, 1]]
  pure val ALTE = [[-6, -4, -5, -7], [-2, 0, -4], [-10, -13], [-1, -1, -3, -1], [-1, -1, -1, -2], [-4, -1, -3, -12], [-1, -2, -1], [-1, -2],
                   [-4, -8, -2, -9, -5], [0, -6, -3, -4], [-14, -6, -12], [-6, -4, -10, -2, -1], [-1, 0, -5, 1], [-10, -5, -14],
                   [0, 0, 0, 0], [0, 0, 0, 0], [0, 0, 0], [0, 0, 0], [0, 0], [0, 0]]
  pure def optAlt(p: Pool, i: int): bool = dig(p, 600 + i, 4) == 0 and (i < 14 or i > 17 or BUDGETS == 1)
  pure def opts(p: Pool): { m: Vec, e: Vec } = {
    val rel = OPTMODE == 1 or (OPTMODE >= 2 and dig(p, 630, 3) == 0)
    val bm = if (rel) RELM else DEFM
    val be = if (rel) RELE else DEFE
    if (OPTMODE < 3) { m: bm, e: be }
    else { m: tabulate(20, i => if (optAlt(p, i)) pick(p, 640 + i, ALTM[i]) else bm[i]),
           e: tabulate(20, i => if (optAlt(p, i)) ALTE[i][dig(p, 640 + i, ALTM[i].length())] else be[i]) } }

  pure def mkCase(p: Pool): Case = {
    val mpc = pick(p, 0, KINDS)
    val fam = pick(p, 1, FAMS)
    // a known witness survives scaling of all data, which an MPC problem's identity blocks exclude
    val ds = if (mpc == 1 and fam != ANY) 0 else pick(p, 2, [0, 0, 0, 0, 1, 3])
    val N = pick(p, 661, if (BIG == 1) [3, 5, 6, 8] else [1, 1, 2, 3, 2, 4])
    val nx = pick(p, 662, [1, 2, 2, 3])
    val nu = pick(p, 663, [1, 1, 2])
    val nc = pick(p, 664, [1, 2, 2, 3])
    val dz = 1 + dig(p, 665, MAXZ)
    val dl = dig(p, 666, if (fam == UNBND or fam == BOTH) dz else if (BIG == 1) min_(dz + 1, 7) else min_(dz, 3))
    val dv = 1 + dig(p, 667, if (BIG == 1) 12 else 5)
    val nz = if (mpc == 1) (N + 1) * (nx + nu) else dz
    val nl = if (mpc == 1) (N + 1) * nx else dl
    val nv = if (mpc == 1) (N + 1) * nc else dv
    val o = opts(p)
    val gmode = dig(p, 668, 4)        // 0,1: zero guess; 2: random; 3: the witness perturbed
    val gs = if (gmode == 3) 4 else pick(p, 669, [0, 1])
    val gscale = if (fam > KKTPSD) 1 else pick(p, 670, [1, 1, 1, 40])
    val rz_ = draw(p, 200, nz, TP)
    val rl_ = draw(p, 240, nl, TP)
    val rv_ = draw(p, 280, nv, TP)
    val gy = draw(p, 310, nv, TP)
    val sel = tabulate(12, i => dig(p, 680 + i, 5040))
    val db = denseBody(fam, p, dz, dl, dv)
    val mb = mpcBody(fam, p, N, nx, nu, nc)
    val tz = if (mpc == 1) mb.tz else db.tz
    val tl = if (mpc == 1) mb.tl else db.tl
    val tv = if (mpc == 1) mb.tv else db.tv
    pure def g(t: Vec, r: Vec): Vec =
      if (gmode < 2) zeros(r.length())
      else if (gmode == 2) scale(gscale, r)
      else tabulate(r.length(), i => 2^gs * t[i] + r[i])
    val gv0 = g(tv, rv_)
    { fam: fam, mpc: mpc, N: if (mpc == 1) N else 0, nx: nx, nu: nu, nc: nc, nz: nz, nl: nl, nv: nv, ds: ds,
      H: if (mpc == 1) [] else db.H, f: if (mpc == 1) [] else db.f, G: if (mpc == 1) [] else db.G,
      h: if (mpc == 1) [] else db.h, A: if (mpc == 1) [] else db.A, b: if (mpc == 1) [] else db.b,
      st: if (mpc == 1) mb.st else [], x0: if (mpc == 1) mb.x0 else [],
      tz: tz, tl: tl, tv: tv,
      gs: gs, gz: g(tz, rz_), gl: g(tl, rl_), gv: if (GUESS == 1) gv0 else gv0.listMap(x => pos(x)), gy: gy,
      om: o.m, oe: o.e, sel: sel } }

  // ------------------------------------------------------------------ soundness of the generator
  pure def qpOf(c: Case): Qp =
    if (c.mpc == 1) ofMpc({ N: c.N, nx: c.nx, nu: c.nu, nc: c.nc, ds: c.ds, st: c.st, x0: c.x0 })
    else { nz: c.nz, nl: c.nl, nv: c.nv, ds: c.ds, H: c.H, f: c.f, G: c.G, h: c.h, A: c.A, b: c.b }
  pure def witnessOk(c: Case): bool = {
    val p = qpOf(c)
    val x = { z: scale(ONE, c.tz), l: scale(ONE, c.tl), v: scale(ONE, c.tv), y: [] }
    and { shapeOk(p), symmetric(p.H),
          c.fam == KKT or c.fam == KKTPSD implies isKkt(p, x),
          c.fam == INFEAS or c.fam == BOTH implies farkas(p, c.tl, c.tv),
          c.fam == UNBND or c.fam == BOTH implies recession(p, c.tz) } }

  var case: Case
  action init = { nondet p = 0.to(POOLN - 1).setOfMaps(0.to(5039)).oneOf() case' = mkCase(p) }
  action step = { nondet p = 0.to(POOLN - 1).setOfMaps(0.to(5039)).oneOf() case' = mkCase(p) }
  val sound = witnessOk(case)
}
