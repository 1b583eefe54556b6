// Owned and mapped matrix sequences (tools/matrix_sequence.h): three of each and two blocks of user memory.
// An owned sequence is a value: dimensions and contents. A mapped one is a reference into user memory or into an
// owned sequence, alive until the memory behind it goes away, and it always shows what that memory holds now.
module seq {
  import linalg.* from "./linalg"
  import decode.* from "./decode"

  type Own = { len: int, r: int, c: int, d: Vec }
  type Ref = { kind: int, src: int, off: int, len: int, r: int, c: int }     // kind 0 empty, 1 user memory, 2 owned, 3 dangling
  type World = { own: List[Own], ref: List[Ref], mem: List[Vec] }
  pure val NOOWN: Own = { len: 0, r: 1, c: 1, d: [] }
  pure val NOREF: Ref = { kind: 0, src: 0, off: 0, len: 0, r: 1, c: 1 }
  pure val MEM = 40
  pure val W0: World = { own: [NOOWN, NOOWN, NOOWN], ref: [NOREF, NOREF, NOREF],
                         mem: [tabulate(MEM, i => 1000 + i), tabulate(MEM, i => 2000 + i)] }

  pure def kill(w: World, s: int): World =
    w.with("ref", w.ref.listMap(m => if (m.kind == 2 and m.src == s) m.with("kind", 3) else m))
  pure def setOwn(w: World, s: int, o: Own): World = kill(w, s).with("own", w.own.replaceAt(s, o))
  pure def setRef(w: World, m: int, o: Ref): World = w.with("ref", w.ref.replaceAt(m, o))
  pure def poke(w: World, s: int, i: int, v: int): World =          // a write changes the value and keeps references alive
    w.with("own", w.own.replaceAt(s, w.own[s].with("d", w.own[s].d.replaceAt(i, v))))

  // ------------------------------------------------------------------ operations
  // exc: 0 none, 1 runtime_error, 2 out_of_range
  type Next = { w: World, exc: int }
  pure def act(w: World, o: Vec): Next = {
    val op = o[0]
    val s = o[1]
    val t = o[2]
    if (op == 0) { w: W0, exc: 0 }
    else if (op == 1) {                       // construct slot s: len r c twoArgs base
      val c = if (o[5] == 1) 1 else o[4]
      if (o[2] < 0 or o[3] <= 0 or c <= 0) { w: w, exc: 1 }
      else { w: setOwn(w, s, { len: o[2], r: o[3], c: c, d: tabulate(o[2] * o[3] * c, i => o[6] + i) }), exc: 0 } }
    else if (op == 2) {                       // write element: s k i j v
      val q = w.own[s]
      if (t < 0 or t >= q.len) { w: w, exc: 2 }
      else { w: poke(w, s, t * q.r * q.c + o[4] * q.r + o[3], o[5]), exc: 0 } }
    else if (op == 3) { w: poke(w, s, t, o[3]), exc: 0 }                                  // write linear storage: s index v
    else if (op == 4 or op == 5) { w: if (s == t) w else setOwn(w, s, w.own[t]), exc: 0 } // copy
    else if (op == 6 or op == 7) { w: setOwn(setOwn(w, s, w.own[t]), t, NOOWN), exc: 0 }  // move (the source is then reset)
    else if (op == 8) {                       // map memory: m block off len r c null
      if (o[4] <= 0 or o[5] <= 0 or o[6] <= 0 or o[7] == 1) { w: w, exc: 1 }
      else { w: setRef(w, s, { kind: 1, src: t, off: o[3], len: o[4], r: o[5], c: o[6] }), exc: 0 } }
    else if (op == 9) {                       // map an owned sequence
      val q = w.own[t]
      { w: setRef(w, s, { kind: 2, src: t, off: 0, len: q.len, r: q.r, c: q.c }), exc: 0 } }
    else if (op == 10 or op == 11) { w: setRef(w, s, w.ref[t]), exc: 0 }                  // copies of references are shallow
    else if (op == 12) { w: w.with("mem", w.mem.replaceAt(s, w.mem[s].replaceAt(t, o[3]))), exc: 0 }
    else { w: setOwn(w, s, NOOWN), exc: 0 } }

  // ------------------------------------------------------------------ what a client sees
  pure def refData(w: World, m: Ref): Vec = {
    val n = m.len * m.r * m.c
    if (m.kind == 1) w.mem[m.src].slice(m.off, m.off + n) else if (m.kind == 2) w.own[m.src].d else [] }
  // len rows cols size, index errors at -1, len and far outside, elements (twice for owned: both accessors), storage
  pure def seen(w: World): Vec =
    concatAll(w.own.listMap(q => [q.len, q.r, q.c, q.d.length(), 2, 2, 2].concat(q.d).concat(q.d).concat(q.d)))
    .concat(concatAll(w.ref.listMap(m => if (m.kind == 3) [-7]
      else [m.len, m.r, m.c, m.len * m.r * m.c, 2, 2, 2]
        .concat(if (m.len == 0) [0, 0, 0] else [m.kind, m.src, m.off]).concat(refData(w, m)).concat(refData(w, m)))))

  // ------------------------------------------------------------------ generator
  pure def choose(w: World, p: int -> int): Vec = {
    pure def pick(k: int, n: int): int = p.get(k) % n
    val s = pick(1, 3)
    val t = pick(2, 3)
    val u = if (pick(2, 2) == 0) (s + 1) % 3 else (s + 2) % 3
    val v = 10000 + p.get(3)
    val q = w.own[s]
    val k = pick(0, 32)
    pure def dim(j: int): int = { val x = pick(j, 16) if (x == 0) 0 else if (x == 1) -1 else 1 + x % 3 }
    if (k < 6) [1, s, dim(4), dim(5), dim(6), pick(7, 3) % 2, v]
    else if (k < 11) {
      val x = pick(4, 12)
      [2, s, if (x == 0) -1 - pick(5, 2) else if (x == 1) q.len + pick(5, 3) else if (q.len == 0) 0 else pick(5, q.len), pick(6, q.r), pick(7, q.c), v] }
    else if (k < 13) { val n = q.d.length() if (n == 0) [12, pick(1, 2), pick(4, MEM), v] else [3, s, pick(4, n), v] }
    else if (k < 15) [4, s, u]
    else if (k < 17) [5, s, t]
    else if (k < 18) [6, s, u]
    else if (k < 19) [7, s, u]
    else if (k < 23) [8, s, pick(4, 2), pick(5, 13), dim(6), dim(7), dim(8), if (pick(9, 12) == 0) 1 else 0]
    else if (k < 27) [9, s, t]
    else if (k < 28) [10, s, u]
    else if (k < 29) [11, s, t]
    else if (k < 31) [12, pick(1, 2), pick(4, MEM), v]
    else [13, s] }
  // which references may be used after the operation (the driver cannot know)
  pure def mask(w: World): Vec = w.ref.listMap(m => if (m.kind == 3) 0 else if (m.kind == 0) 2 else 1)
  var case: List[int]
  var world: World
  var left: int
  action init = all { case' = [0, 2, 2, 2], world' = W0, left' = 60 }
  action step = {
    nondet p = 0.to(9).setOfMaps(0.to(2147483647)).oneOf()
    val o = if (left == 0) [0] else choose(world, p)
    val n = act(world, o)
    all { case' = o.concat(mask(n.w)), world' = n.w, left' = if (left == 0) 60 else left - 1 } }
  // references stay inside the memory they refer to, and agree with the owned sequence they show
  val sound = world.ref.all_(m => and {
    m.kind == 1 implies m.off + m.len * m.r * m.c <= MEM,
    m.kind == 2 implies m.len * m.r * m.c == world.own[m.src].d.length() })

  // ------------------------------------------------------------------ trace: nOp op.. exc seen..
  var idx: int
  var bad: List[List[int]]
  var st: World
  action start = all { idx' = 0, bad' = [], st' = W0 }
  action consume(i: int, d: int): bool = {
    val I = ints(i)
    val o = I.slice(1, 1 + I[0])
    val n = act(st, o)
    val got = I.slice(2 + I[0], I.length())
    val codes = (if (I[1 + I[0]] == n.exc) [] else [1801]).concat(if (got == seen(n.w)) [] else [1802])
    all { idx' = idx + 1, st' = n.w, bad' = if (codes.length() == 0) bad else bad.append([idx].concat(codes)) } }
}
