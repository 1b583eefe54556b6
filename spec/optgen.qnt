// Option vectors: every field below, at, inside and above its admissible range.
module optgen {
  // per field of the options record a table of decimals m * 10^e;  e = 999 stands for an infinity of m's sign
  pure val TABM: List[List[int]] = [
    [-1, 0, 1, 1, 1, 3, 1, 1, 1, 5, 1, 1, 1, 1],            // sigma0
    [-1, 0, 1, 1, 1, 5, 1, 101, 1, 1],                      // sigma_max
    [-5, 0, 1, 1, 5, 1, 1, 1, -1],                          // sigma_min
    [-1, 0, 9, 1, 5, 95, 999, 1, 2, 1],                     // alpha
    [-1, 0, 99, 1, 7, 99, 995, 1, 3],                       // beta
    [-1, 0, 1, 1, 1, 3, 499, 5, 2],                         // eta
    [-1, 0, 1, 1, 2, 99, 1, 7],                             // delta
    [-1, 0, 1, 1, 5, 9, 95, 4],                             // gamma
    [-1, 0, 1, 1, 1, 1, 1, 1],                              // abs_tol
    [-1, -1, 0, 1, 1, 1, 1],                                // rel_tol
    [-1, 0, 1, 1, 1, 1],                                    // stall_tol
    [-1, 0, 1, 1, 1, 1, 3],                                 // infeas_tol
    [-1, 0, 1, 1, 1, 1, 1, 3, 1],                           // inner_tol_max
    [-1, 0, 1, 1, 1, 1, 1, 2, 1],                           // inner_tol_min
    [-3, 0, 1, 2, 7, 200, 500, 2147483647, -2147483648],    // max_newton_iters
    [-3, 0, 1, 2, 30, 100, 2147483647],                     // max_prox_iters
    [-1, 0, 1, 5, 50, 100, 2147483647],                     // max_inner_iters
    [-1, 0, 1, 3, 20, 40, 200, -2147483648],                // max_linesearch_iters
    [0, 1], [0, 1] ]
  pure val TABE: List[List[int]] = [
    [0, 0, -13, -11, -10, -9, -8, -6, -3, 0, 2, 3, 300, 999],
    [0, 0, -7, -6, -3, 1, 2, 0, 10, 999],
    [0, 0, -14, -13, -11, -8, -7, 0, 999],
    [0, 0, -4, -3, -1, -2, -3, 0, 0, 999],
    [0, 0, -3, -1, -1, -2, -3, 0, 0],
    [0, 0, -13, -12, -8, -1, -3, -1, 0],
    [0, 0, -5, -4, -1, -2, 0, 0],
    [0, 0, -4, -3, -1, -1, -2, 0],
    [0, 0, -15, -14, -8, -6, -2, 0],
    [0, -9, 0, -12, -6, -2, 1],
    [0, 0, -15, -14, -10, -3],
    [0, 0, -15, -14, -8, -3, -1],
    [0, 0, -9, -8, -5, -2, 0, 2, 999],
    [0, 0, -15, -14, -12, -4, -2, -2, 0],
    [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0], [0, 0], [0, 0] ]
  pure val NFIELD = 20
  // the default vector, so that a case can change a few fields only
  pure val DEFM = [1, 1, 1, 95, 75, 1, 2, 1, 1, 1, 1, 1, 1, 1, 200, 30, 50, 20, 1, 1]
  pure val DEFE = [-8, -6, -12, -2, -2, -8, -1, -1, -6, -12, -10, -8, -2, -12, 0, 0, 0, 0, 0, 0]

  type Case = { m: List[int], e: List[int], display: int }
  pure def mk(p: int -> int): Case = {
    val dense = p.get(60) % 3        // 0 few fields changed, 1 about half, 2 all
    pure def hit(i: int): bool = dense == 2 or p.get(20 + i) % (if (dense == 1) 2 else 7) == 0
    { m: range(0, NFIELD).foldl([], (a, i) => a.append(if (hit(i)) TABM[i][p.get(i) % TABM[i].length()] else DEFM[i])),
      e: range(0, NFIELD).foldl([], (a, i) => a.append(if (hit(i)) TABE[i][p.get(i) % TABE[i].length()] else DEFE[i])),
      display: p.get(61) % 4 } }
  var case: Case
  action init = { nondet p = 0.to(63).setOfMaps(0.to(5039)).oneOf() case' = mk(p) }
  action step = { nondet p = 0.to(63).setOfMaps(0.to(5039)).oneOf() case' = mk(p) }
  val sound = and { range(0, NFIELD).foldl(true, (a, i) => a and TABM[i].length() == TABE[i].length()), case.m.length() == NFIELD }
}
