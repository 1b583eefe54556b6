// Solver objects as a client sees them. The outcome of a solve is a function of the current options
// (without the display level), the problem and the (z,l,v) guess: the machine remembers every outcome
// it has seen and any later solve with the same arguments must repeat it, whatever happened between.
module session {
  import linalg.* from "./linalg"
  import decode.* from "./decode"

  type Slot = { kind: int, dims: List[int], opt: List[int] }
  var idx: int
  var bad: List[List[int]]
  var slots: int -> Slot
  var memo: List[int] -> List[int]
  var defaults: List[int]       // the default preset, read once from the library
  var held: int                 // memory in use when all objects were last destroyed

  // ------------------------------------------------------------------ shapes
  // dense: Hr Hc f Gr Gc h Ar Ac b | z l v y       solver dims nz nl nv
  pure def denseOk(s: Vec, d: Vec): bool = and {
    s[0] == d[0], s[1] == d[0], s[2] == d[0], s[3] == d[1], s[4] == d[0], s[5] == d[1], s[6] == d[2], s[7] == d[0], s[8] == d[2],
    s[9] == d[0], s[10] == d[1], s[11] == d[2], s[12] == d[2] }
  // MPC: (len rows cols) of Q R S q r A B c E L d, then x0 | z l v y      solver dims N nx nu nc
  pure def mpcOk(s: Vec, d: Vec): bool = {
    val N = d[0]
    val x = d[1]
    val u = d[2]
    val c = d[3]
    val want = [N + 1, x, x, N + 1, u, u, N + 1, u, x, N + 1, x, 1, N + 1, u, 1, N, x, x, N, x, u, N, x, 1, N + 1, c, x, N + 1, c, u, N + 1, c, 1,
                x, (N + 1) * (x + u), (N + 1) * x, (N + 1) * c, (N + 1) * c]
    allBelow(want.length(), i => s[i] == want[i]) }
  pure def dimsOk(kind: int, d: Vec): bool =
    if (kind == 0) d[0] > 0 and d[1] >= 0 and d[2] > 0 else d[0] > 0 and d[1] > 0 and d[2] > 0 and d[3] > 0
  pure def code(ok: bool, c: int): List[int] = if (ok) [] else [c]

  // ------------------------------------------------------------------ actions
  // 1 New: slot kind d0..d3 exc
  pure def newCodes(I: Vec): List[int] = {
    val ok = dimsOk(I[2], I.slice(3, 7))
    code(if (ok) I[7] == 0 else I[7] == 1, 1101) }
  // 2 Options: slot exc | 21 doubles   (the last is the display level)
  // 5 Preset | 21 doubles      9 a new process
  // 7 Released: bytes          all objects have been destroyed; memory still in use since, -1 unknown
  // 8 End: status              the process ended: 0 normally, 1 after an access outside its memory or another fault
  // 10 Observe: nKey key.. observation..      anything else that has one outcome (what a program of component calls shows)
  // 3 Solve: slot prob guess exc canary intact untouched quiet mustRun nShape shape.. nOut out..
  //   quiet: nothing reached stdout that the chosen stream did not send there
  //   mustRun: the problem is strictly convex, so a well-formed call must not throw
  type Verdict = { codes: List[int], key: List[int], out: List[int], remember: bool }
  pure def solve(I: Vec, s: Slot, m: List[int] -> List[int]): Verdict = {
    val ns = I[10]
    val shape = I.slice(11, 11 + ns)
    val no = I[11 + ns]
    val out = I.slice(12 + ns, 12 + ns + no)
    val good = if (s.kind == 0) denseOk(shape, s.dims) else mpcOk(shape, s.dims)
    val exc = I[4]
    val key = [s.kind].concat(s.dims).concat(s.opt).concat([I[2], I[3]])
    val common = code(I[5] == 1, 801).concat(code(I[6] == 1, 802)).concat(code(exc == 0 or I[7] == 1, if (good) 2103 else 1103))
    if (not(good))
      { codes: common.concat(code(exc == 1, 1102)), key: key, out: out, remember: false }
    else
      { codes: common.concat(code(exc <= 1, 2102)).concat(code(I[9] == 1 implies exc == 0, 1104))
                 .concat(code(I[8] == 1, 1201))
                 .concat(if (m.keys().contains(key)) code(m.get(key) == out, 701) else []),
        key: key, out: out, remember: not(m.keys().contains(key)) } }

  pure def observe(I: Vec, m: List[int] -> List[int]): Verdict = {
    val key = [-10].concat(I.slice(2, 2 + I[1]))
    val out = I.slice(2 + I[1], I.length())
    { codes: if (m.keys().contains(key)) code(m.get(key) == out, 701) else [], key: key, out: out, remember: not(m.keys().contains(key)) } }

  action start = all { idx' = 0, bad' = [], slots' = Map(), memo' = Map(), defaults' = [], held' = -1 }
  action consume(i: int, d: int): bool = {
    val I = ints(i)
    val D = dbls(d)
    val k = I[0]
    val v = if (k == 3) solve(I, slots.get(I[1]), memo) else if (k == 10) observe(I, memo) else { codes: [], key: [], out: [], remember: false }
    val cs = if (k == 1) newCodes(I) else if (k == 2) code(I[2] == 0, 1003)
             else if (k == 7) code(held < 0 or I[1] <= held, 2502) else if (k == 8) code(I[1] == 0, 2501) else v.codes
    all {
      idx' = idx + 1,
      bad' = if (cs.length() == 0) bad else bad.append([idx].concat(cs)),
      slots' = if (k == 9) Map() else if (k == 1 and I[7] == 0)
                 slots.put(I[1], { kind: I[2], dims: I.slice(3, 7), opt: defaults })    // a new object has the default options
               else if (k == 2 and I[2] == 0)
                 slots.put(I[1], slots.get(I[1]).with("opt", D.slice(0, 20)))
               else slots,
      defaults' = if (k == 5) D.slice(0, 20) else defaults,
      held' = if (k == 7) I[1] else if (k == 9) -1 else held,
      memo' = if (k == 9) Map() else if (v.remember) memo.put(v.key, v.out) else memo } }
}
