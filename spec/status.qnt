// The status of a problem is a state that solving does not change: however often it is solved, from whatever guess and
// through whatever interface, each solve has to report it. One event is one problem and many of its solves.
// This machine sees outcomes only; an outcome it does not accept is put before api_solve.qnt, which sees everything.
module status {
  import linalg.* from "./linalg"
  import qp.* from "./qp"
  import decode.* from "./decode"

  // ints: family (0 solvable with optimum tz, 2 infeasible, 3 unbounded, 4 both), options (1 default, 2 reliable),
  //       check_feasibility, nz, number of solves m, (exception flag)^m, tz (nz);  doubles: z of each solve (nz)^m
  pure val SUCCESS = 0
  pure val MAXIT = 2
  pure val PINFEAS = 3
  pure val DINFEAS = 4
  pure val BOTHINF = 5

  pure def allowed(fam: int, reliable: bool, feas: bool): Set[int] =
    if (fam == 0) Set(SUCCESS)
    else if (fam == 2) Set(PINFEAS).union(if (not(feas) or reliable) Set(MAXIT) else Set())
    else if (fam == 3) Set(DINFEAS).union(if (not(feas) or not(reliable)) Set(MAXIT) else Set())
    else Set(MAXIT, PINFEAS, DINFEAS, BOTHINF)

  pure def judge(I: Vec, D: Vec): List[int] = {
    val fam = I[0]
    val nz = I[3]
    val m = I[4]
    val tz = vecAt(I, 5 + 2 * m, nz)
    val ok = allowed(fam, I[1] == 2, I[2] == 1)
    range(0, m).foldl([], (acc, i) => {
      val z = vecAt(D, nz * i, nz)
      val good = I[5 + 2 * i] == 0 and ok.contains(I[6 + 2 * i]) and (fam == 0 implies allBelow(nz, j =>
        sane(z[j]) and abs_(z[j] - tz[j] * ONE) * (if (I[1] == 1) 1000 else 20) <= ONE * (1 + infnorm(tz))))
      if (good) acc else acc.append(i) }) }

  var idx: int
  var bad: List[List[int]]
  action start = all { idx' = 0, bad' = [] }
  action consume(i: int, d: int): bool = {
    val v = judge(ints(i), dbls(d))
    all { idx' = idx + 1, bad' = if (v.length() == 0) bad else bad.append([idx].concat(v)) } }
}
