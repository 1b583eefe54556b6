// The structures through which problems and guesses are passed (FBstabDense::, FBstabMpc:: Variable, VariableRef,
// ProblemData, ProblemDataRef) and the small tools. Three blocks of user memory, two groups of owned MPC arrays, four
// slots holding a reference structure each. A reference structure is a list of windows: it always shows what the
// memory holds now, in the documented order of its fields, and writing through it changes exactly that memory.
module objs {
  import linalg.* from "./linalg"
  import decode.* from "./decode"

  type Seg = { b: int, off: int, len: int, r: int, c: int }      // b < NB: user memory; NB + 12 g + k: array k of group g
  type Slot = { kind: int, segs: List[Seg] }   // 0 none, 1 dense guess, 2 MPC guess, 3 dense data, 4 MPC data
  type World = { mem: List[Vec], slot: List[Slot] }
  pure val NB = 3
  pure val NG = 2
  pure val NS = 4
  pure val MEM = 48
  pure val NONE: Slot = { kind: 0, segs: [] }
  pure val W0: World = { mem: tabulate(NB, b => tabulate(MEM, i => 1000 * (b + 1) + i)).concat(tabulate(NG * 12, k => [])),
                         slot: tabulate(NS, i => NONE) }

  pure def poke(w: World, b: int, i: int, v: int): World = w.with("mem", w.mem.replaceAt(b, w.mem[b].replaceAt(i, v)))
  pure def setSlot(w: World, s: int, x: Slot): World = w.with("slot", w.slot.replaceAt(s, x))
  pure def sizeOf(g: Seg): int = g.len * g.r * g.c
  pure def vec_(b: int, off: int, n: int): Seg = { b: b, off: off, len: 1, r: n, c: 1 }
  pure def mat_(b: int, off: int, r: int, c: int): Seg = { b: b, off: off, len: 1, r: r, c: c }
  // Q R S q r A B c E L d x0: (length, rows, columns)
  pure def mpcShapes(N: int, x: int, u: int, c: int): List[Vec] =
    [[N + 1, x, x], [N + 1, u, u], [N + 1, u, x], [N + 1, x, 1], [N + 1, u, 1], [N, x, x], [N, x, u], [N, x, 1], [N + 1, c, x], [N + 1, c, u], [N + 1, c, 1], [1, x, 1]]

  // ------------------------------------------------------------------ operations
  type Next = { w: World, out: Vec }
  pure def act(w: World, o: Vec): Next = {
    val op = o[0]
    val s = if (o.length() > 1) o[1] else 0
    if (op == 0) { w: W0, out: [] }
    else if (op == 1) {                          // construct an owned structure: sizes, and the number of nonzero entries
      val d = o.slice(2, 6)
      val n = if (s == 0) [d[0], d[1], d[2], d[2]] else [(d[0] + 1) * (d[1] + d[2]), (d[0] + 1) * d[1], (d[0] + 1) * d[3], (d[0] + 1) * d[3]]
      { w: w, out: if (s == 3) [d[0], d[0], d[1], d[0], d[2], d[0], d[0], d[1], d[2]] else n.concat([0]) } }
    else if (op == 2)                            // reference to a guess: slot kind block (offset length) of z l v y
      { w: setSlot(w, s, { kind: o[2], segs: tabulate(4, k => vec_(o[3], o[4 + 2 * k], o[5 + 2 * k])) }), out: [] }
    else if (op == 3)                            // fill a guess: slot value
      { w: w.slot[s].segs.foldl(w, (u, g) => range(0, sizeOf(g)).foldl(u, (v, i) => poke(v, g.b, g.off + i, o[2]))), out: [] }
    else if (op == 4) { w: poke(w, s, o[2], o[3]), out: [] }                            // the user writes: block index value
    else if (op == 5) { val g = w.slot[s].segs[o[2]] { w: poke(w, g.b, g.off + o[3], o[4]), out: [] } }   // through a guess
    else if (op == 6)                            // reference to dense data: slot block nz nl nv and six offsets
      { w: setSlot(w, s, { kind: 3, segs: [mat_(o[2], o[6], o[3], o[3]), mat_(o[2], o[8], o[4], o[3]), mat_(o[2], o[10], o[5], o[3]),
                                           vec_(o[2], o[7], o[3]), vec_(o[2], o[9], o[4]), vec_(o[2], o[11], o[5])] }), out: [] }
    else if (op == 7) {                          // new arrays for group g and a reference to them: slot g N nx nu nc first value
      val b = NB + 12 * o[2]
      val sh = mpcShapes(o[3], o[4], o[5], o[6])
      val u = w.with("slot", w.slot.listMap(x => if (x.kind == 4 and x.segs.select(g => g.b >= b and g.b < b + 12).length() > 0) NONE else x))
      val m = u.with("mem", tabulate(u.mem.length(), i => if (i >= b and i < b + 12) {
                val h = sh[i - b]
                tabulate(h[0] * h[1] * h[2], j => o[7] + 100 * (i - b) + j) } else u.mem[i]))
      { w: setSlot(m, s, { kind: 4, segs: tabulate(12, k => { b: b + k, off: 0, len: sh[k][0], r: sh[k][1], c: sh[k][2] }) }), out: [] } }
    else if (op == 8)                            // point x0 at user memory: slot block offset length
      { w: setSlot(w, s, w.slot[s].with("segs", w.slot[s].segs.replaceAt(11, vec_(o[2], o[3], o[4])))), out: [] }
    else if (op == 9) { w: poke(w, NB + 12 * s + o[2], o[3], o[4]), out: [] }           // the user writes an owned array: group array index value
    else if (op == 10)                           // an empty reference to MPC data
      { w: setSlot(w, s, { kind: 4, segs: tabulate(11, k => { b: 0, off: 0, len: 0, r: 1, c: 1 }).append(vec_(0, 0, 0)) }), out: [] }
    else if (op == 11) { w: setSlot(w, s, w.slot[o[2]]), out: [] }                     // copies are shallow
    else if (op == 12)                           // saturate x to [a, b]
      { w: w, out: if (o[2] > o[3]) [1] else [0, max_(o[2], min_(o[3], s))] }
    else { w: setSlot(w, s, NONE), out: [] } }

  pure def seen(w: World): Vec =
    concatAll(w.mem.slice(0, NB)).concat(concatAll(w.slot.listMap(x => [x.kind].concat(concatAll(x.segs.listMap(g =>
      [g.len, g.r, g.c].concat(w.mem[g.b].slice(g.off, g.off + sizeOf(g)))))))))

  // ------------------------------------------------------------------ generator
  pure def choose(w: World, p: int -> int): Vec = {
    pure def pick(k: int, n: int): int = p.get(k) % n
    val s = pick(1, NS)
    val x = w.slot[s]
    val v = 10000 + pick(3, 100000)
    val k = pick(0, 40)
    pure def nonempty(l: List[Seg]): List[int] = range(0, l.length()).select(i => sizeOf(l[i]) > 0)
    if (k < 5) { val t = pick(2, 4) [1, t, 1 + pick(4, 4), if (t == 0 or t == 3) pick(5, 3) else 1 + pick(5, 3), 1 + pick(6, 4), 1 + pick(7, 3)] }
    else if (k < 12) {
      // four disjoint windows in a random cyclic order, with gaps
      val n = [pick(4, 6), pick(5, 5), pick(6, 6), pick(7, 6)]
      val c = pick(8, 4)
      val at = range(0, 4).foldl({ pos: pick(9, 4), off: [0, 0, 0, 0] }, (a, i) => {
        val f = (c + i * (if (pick(2, 2) == 0) 1 else 3)) % 4
        { pos: a.pos + n[f] + pick(10 + i, 3), off: a.off.replaceAt(f, a.pos) } }).off
      [2, s, 1 + pick(14, 2), pick(15, NB), at[0], n[0], at[1], n[1], at[2], n[2], at[3], n[3]] }
    else if (k < 16) { if (x.kind == 1 or x.kind == 2) [3, s, v] else [12, pick(4, 40) - 20, pick(5, 30) - 15, pick(6, 30) - 10] }
    else if (k < 19) [4, pick(4, NB), pick(5, MEM), v]
    else if (k < 22) {
      val q = if (x.kind == 1 or x.kind == 2) nonempty(x.segs) else []
      if (q.length() == 0) [4, pick(4, NB), pick(5, MEM), v]
      else { val f = q[pick(4, q.length())] [5, s, f, pick(5, sizeOf(x.segs[f])), v] } }
    else if (k < 26) {
      val nz = 1 + pick(4, 3)
      val nl = pick(5, 3)
      val nv = 1 + pick(6, 4)
      [6, s, pick(15, NB), nz, nl, nv, pick(7, MEM - nz * nz), pick(8, MEM - nz), pick(9, MEM - nl * nz), pick(10, MEM - nl), pick(11, MEM - nv * nz), pick(12, MEM - nv)] }
    else if (k < 30) [7, s, pick(4, NG), 1 + pick(5, 2), 1 + pick(6, 2), 1 + pick(7, 2), 1 + pick(8, 2), v]
    else if (k < 32) { if (x.kind == 4) { val n = pick(4, 5) [8, s, pick(5, NB), pick(6, MEM - n), n] } else [12, pick(4, 40) - 20, pick(5, 30) - 15, pick(6, 30) - 10] }
    else if (k < 35) {
      val g = pick(4, NG)
      val f = pick(5, 12)
      val n = w.mem[NB + 12 * g + f].length()
      if (n == 0) [4, pick(4, NB), pick(5, MEM), v] else [9, g, f, pick(6, n), v] }
    else if (k < 36) [10, s]
    else if (k < 38) [11, s, (s + 1 + pick(4, NS - 1)) % NS]
    else if (k < 39) [12, pick(4, 40) - 20, pick(5, 30) - 15, pick(6, 30) - 10]
    else [13, s] }
  pure def mask(w: World): Vec = w.slot.listMap(x => if (x.kind == 0) 0 else 1)
  var case: List[int]
  var world: World
  var left: int
  action init = all { case' = [0].concat(mask(W0)), world' = W0, left' = 60 }
  action step = {
    nondet p = 0.to(15).setOfMaps(0.to(2147483647)).oneOf()
    val o = if (left == 0) [0] else choose(world, p)
    val n = act(world, o)
    all { case' = o.concat(mask(n.w)), world' = n.w, left' = if (left == 0) 60 else left - 1 } }
  // every window lies inside the memory it shows, and the windows of a guess do not overlap
  val sound = world.slot.all_(x => and {
    x.segs.all_(g => g.off >= 0 and g.off + sizeOf(g) <= world.mem[g.b].length()),
    x.kind == 1 or x.kind == 2 implies allBelow(4, i => allBelow(4, j => i == j or sizeOf(x.segs[i]) == 0 or sizeOf(x.segs[j]) == 0
      or x.segs[i].off + sizeOf(x.segs[i]) <= x.segs[j].off or x.segs[j].off + sizeOf(x.segs[j]) <= x.segs[i].off)) })

  // ------------------------------------------------------------------ trace: nOp op.. nOut out.. seen..
  var idx: int
  var bad: List[List[int]]
  var st: World
  action start = all { idx' = 0, bad' = [], st' = W0 }
  action consume(i: int, d: int): bool = {
    val I = ints(i)
    val o = I.slice(1, 1 + I[0])
    val n = act(st, o)
    val no = I[1 + I[0]]
    val out = I.slice(2 + I[0], 2 + I[0] + no)
    val got = I.slice(2 + I[0] + no, I.length())
    val codes = (if (out == n.out) [] else [2301]).concat(if (got == seen(n.w)) [] else [2302])
    all { idx' = idx + 1, st' = n.w, bad' = if (codes.length() == 0) bad else bad.append([idx].concat(codes)) } }
}
