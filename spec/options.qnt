// Option validation: every field is replaced by the nearest admissible value.
module options {
  import linalg.* from "./linalg"
  import qp.* from "./qp"
  import decode.* from "./decode"

  // field order: sigma0 sigma_max sigma_min alpha beta eta delta gamma abs_tol rel_tol stall_tol infeas_tol
  //   inner_tol_max inner_tol_min | max_newton max_prox max_inner max_linesearch check_feasibility nonmonotone display
  pure val NF = 14
  pure def dec(m: int, e: int): int = if (e >= 0) m * 10^e * ONE else (m * ONE + 10^(-e) / 2) / 10^(-e)
  pure val NOUP = PINF
  // admissible range of field i, given the already admissible sigma bounds and inner_tol_min
  type Range = { lo: int, hi: int }
  pure def range_(i: int, o: Vec): Range =
    if (i == 0) { lo: max_(o[2], dec(1, -10)), hi: o[1] }
    else if (i == 1) { lo: dec(1, -6), hi: dec(1, 2) }
    else if (i == 2) { lo: dec(1, -13), hi: dec(1, -8) }
    else if (i == 3) { lo: dec(1, -3), hi: dec(999, -3) }
    else if (i == 4) { lo: dec(1, -1), hi: dec(99, -2) }
    else if (i == 5) { lo: dec(1, -12), hi: dec(499, -3) }
    else if (i == 6) { lo: dec(1, -4), hi: dec(99, -2) }
    else if (i == 7) { lo: dec(1, -3), hi: dec(9, -1) }
    else if (i == 9) { lo: 0, hi: NOUP }
    else if (i == 12) { lo: max_(dec(1, -8), o[13]), hi: dec(1, 2) }
    else if (i == 13) { lo: dec(1, -14), hi: dec(1, -2) }
    else { lo: dec(1, -14), hi: NOUP }
  // equal up to the rounding of a decimal constant
  pure def close(a: int, b: int): bool = abs_(a - b) * 2^50 <= abs_(b) + 2^50
  pure def clampTo(x: int, r: Range): int = if (x < r.lo) r.lo else if (x > r.hi) r.hi else x
  // b is what validation makes of a; bounds that depend on other fields use their validated values
  pure def fieldOk(i: int, a: Vec, b: Vec): bool = {
    val r = range_(i, b)
    val inside = r.lo < a[i] and a[i] < r.hi and not(close(a[i], r.lo)) and not(close(a[i], r.hi))
    if (inside) b[i] == a[i] else close(b[i], clampTo(a[i], r)) }
  pure def intsOk(a: Vec, b: Vec): bool =
    allBelow(4, i => b[i] == max_(a[i], 1)) and allBelow(3, i => b[4 + i] == a[4 + i])
  pure def admissible(b: Vec): bool = allBelow(NF, i => {
    val r = range_(i, b)
    (r.lo <= b[i] or close(b[i], r.lo)) and (b[i] <= r.hi or close(b[i], r.hi)) })

  pure val DEFAULTS = [dec(1, -8), dec(1, -6), dec(1, -12), dec(95, -2), dec(75, -2), dec(1, -8), dec(2, -1), dec(1, -1), dec(1, -6),
                       dec(1, -12), dec(1, -10), dec(1, -8), dec(1, -2), dec(1, -12)]
  pure val DEFAULTI = [200, 30, 50, 20, 1, 1, 1]
  pure val RELIABLE = [dec(1, -4), dec(1, -2), dec(1, -10), dec(95, -2), dec(9, -1), dec(1, -8), dec(2, -1), dec(1, -1), dec(1, -4),
                       dec(1, -6), dec(1, -10), dec(1, -8), dec(1, -2), dec(1, -12)]
  pure val RELIABLEI = [500, 100, 50, 40, 1, 0, 1]

  // event: ints [kind, exc, exc2, idem, 7 before, 7 after]; doubles [14 before, 14 after]
  //   kind 0 validation, 1 default preset (before = after), 2 reliable preset, 3 stored parameters after an update
  pure def judge(I: Vec, D: Vec): List[int] = {
    val a = D.slice(0, NF)
    val b = D.slice(NF, 2 * NF)
    val ai = I.slice(4, 11)
    val bi = I.slice(11, 18)
    pure def c(ok: bool, n: int): List[int] = if (ok) [] else [n]
    if (I[0] == 0 or I[0] == 3)
      c(I[1] == 0, 1002)
       .concat(if (I[1] != 0) [] else
         range(0, NF).foldl([], (acc, i) => acc.concat(c(fieldOk(i, a, b), 1010 + i)))
          .concat(c(intsOk(ai, bi), 1030)).concat(c(admissible(b), 1031))
          .concat(c(I[0] == 3 or (I[2] == 0 and I[3] == 1), 1032)))
    else {
      val wd = if (I[0] == 1) DEFAULTS else RELIABLE
      val wi = if (I[0] == 1) DEFAULTI else RELIABLEI
      c(allBelow(NF, i => close(b[i], wd[i])), 1040).concat(c(allBelow(7, i => bi[i] == wi[i]), 1041)).concat(c(admissible(b), 1042)) } }

  var idx: int
  var bad: List[List[int]]
  action start = all { idx' = 0, bad' = [] }
  action consume(i: int, d: int): bool = {
    val v = judge(ints(i), dbls(d))
    all { idx' = idx + 1, bad' = if (v.length() == 0) bad else bad.append([idx].concat(v)) } }
}
