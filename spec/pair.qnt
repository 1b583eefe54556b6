// One MPC problem solved through the MPC interface and, stacked by the specification (ofMpc), through
// the dense interface.
module pair {
  import linalg.* from "./linalg"
  import qp.* from "./qp"
  import decode.* from "./decode"

  // ints: fam pure | dense exc flag | mpc exc flag | stacking given to the dense solver equals ofMpc: nStack, stack... | problem
  // doubles: alpha | dense initial, mpc initial | guess z l v | dense z l v y | mpc z l v y | tol
  pure def code(ok: bool, c: int): List[int] = if (ok) [] else [c]
  pure def flatQp(p: Qp): Vec = concatAll(p.H).concat(p.f).concat(concatAll(p.G)).concat(p.h).concat(concatAll(p.A)).concat(p.b)
  pure def judge(I: Vec, D: Vec): List[int] = {
    val fam = I[0]
    val ns = I[6]
    val stack = I.slice(7, 7 + ns)
    val p = ofMpc(mpcAt(I, 7 + ns))
    val g = ptAt(D, 3, p, false)
    val n3 = ptLen(p, false)
    val n4 = ptLen(p, true)
    val xd = ptAt(D, 3 + n3, p, true)
    val xm = ptAt(D, 3 + n3 + n4, p, true)
    val excOk = I[2] == 0 and I[4] == 0
    val strict = fam == 0 or (fam == 2 and I[1] == 1) or (fam == 3 and I[1] == 2)
    code(flatQp(p) == stack, 900)       // the harness gave the dense solver the problem the specification prescribes
    .concat(code(strict implies excOk, 901))
    .concat(if (not(excOk) or not(saneP(xd)) or not(saneP(xm)) or not(sane(D[1])) or not(sane(D[2]))) [] else {
      val sg = slackE(p, g, 36)
      val gsq = penSq(p, g, D[0])
      code(abs_(D[1] - D[2]) <= 2 * sg, 902)
      .concat(code(penAtMost(p, gsq, D[2] + sg) and penAtLeast(p, gsq, D[2] - sg), 903))
      .concat(code(strict implies I[3] == I[5], 904))
      // a strictly convex problem has one primal solution, and both interfaces return it
      .concat(code(fam == 0 and I[3] == 0 and I[5] == 0 implies
           allBelow(p.nz, i => abs_(xd.z[i] - xm.z[i]) * (if (I[1] == 1) 500 else 10) <= ONE * (1 + infnorm(xd.z) / ONE)), 905))
      .concat(code(I[5] == 0 or I[5] == 2 implies
           { val y = margin(p, xm)
             val s = slackE(p, xm, if (fam == 0 or fam == 2) 33 else 20)
             allBelow(p.nv, i => abs_(xm.y[i] * 2^p.ds - y[i]) <= s * 2^p.ds) }, 906)) }) }

  var idx: int
  var bad: List[List[int]]
  action start = all { idx' = 0, bad' = [] }
  action consume(i: int, d: int): bool = {
    val v = judge(ints(i), dbls(d))
    all { idx' = idx + 1, bad' = if (v.length() == 0) bad else bad.append([idx].concat(v)) } }
}
