// Runs a Quint state machine with Quint's own evaluator (the one behind `quint run --backend typescript`), without
// repeating the type and effect analysis for every process. The resolved module is cached; a trace machine is fed
// its events directly, a generator machine is stepped with Quint's random number generator.
// usage: node qsim.js job.json
'use strict'
const fs = require('fs'), path = require('path'), v8 = require('v8')
const bin = fs.realpathSync(process.env.QUINT_JS || '/opt/veriftools/quint/node_modules/@informalsystems/quint/dist/src/cli.js')
const base = path.dirname(bin)
const job = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'))

async function load() {
  if (job.cache && fs.existsSync(job.cache)) return v8.deserialize(fs.readFileSync(job.cache))
  const cmd = require(base + '/cliCommands'), help = require(base + '/cliHelpers')
  const args = { input: job.file, main: job.main, verbosity: 0 }
  const l = await cmd.load(args)
  if (l.isLeft()) throw new Error(l.value.msg)
  const p = await cmd.parse(l.value)
  if (p.isLeft()) throw new Error(p.value.msg + ' ' + JSON.stringify(p.value.stage.errors, (k, v) => typeof v === 'bigint' ? String(v) : v))
  const exprs = {}
  for (const e of job.exprs) {
    const r = help.toExpr(p.value, e)
    if (r.isLeft()) throw new Error(e + ': ' + r.value.message)
    exprs[e] = r.value
  }
  const out = { table: p.value.resolver ? p.value.resolver.table : p.value.table, exprs }
  if (job.cache) { const t = job.cache + '.' + process.pid; fs.writeFileSync(t, v8.serialize(out)); fs.renameSync(t, job.cache) }
  return v8.deserialize(v8.serialize(out))
}

let fresh = -1n
function ir(x) {
  if (Array.isArray(x)) return { id: fresh--, kind: 'app', opcode: 'List', args: x.map(ir) }
  return { id: fresh--, kind: 'int', value: BigInt(x) }
}
function plain(e) {               // QuintEx value -> JSON (big integers as decimal strings)
  switch (e.kind) {
    case 'int': { const n = Number(e.value); return Number.isSafeInteger(n) ? n : String(e.value) }
    case 'bool': case 'str': return e.value
    case 'app':
      if (e.opcode === 'Rec') { const o = {}; for (let i = 0; i < e.args.length; i += 2) o[e.args[i].value] = plain(e.args[i + 1]); return o }
      return e.args.map(plain)
  }
  throw new Error('value ' + e.kind)
}

async function main() {
  const { table, exprs } = await load()
  if (job.mode === 'parse') return
  if (job.consts) for (const def of table.values()) {
    const inst = def.importedFrom
    if (inst && inst.kind === 'instance') for (const o of inst.overrides) if (o[0].name in job.consts) o[1] = ir(job.consts[o[0].name])
  }
  const { Evaluator } = require(base + '/runtime/impl/evaluator'), { newRng } = require(base + '/rng')
  const { buildExpr, buildDef } = require(base + '/runtime/impl/builder'), { rv } = require(base + '/runtime/impl/runtimeValue')
  const { zerog } = require(base + '/idGenerator')
  const recorder = { onUserOperatorCall() {}, onUserOperatorReturn() {}, onRunCall() {}, onRunReturn() {}, onNextState() {}, onAnyReturn() {}, onAnyOptionCall() {}, onAnyOptionReturn() {}, clear() {} }
  const ev = new Evaluator(table, recorder, newRng(BigInt(job.seed || 1)))
  const ctx = ev.ctx, vars = ev.builder.varStorage
  const check = (r, what) => {
    if (r.isLeft()) throw new Error(what + ': ' + r.value.code + ' ' + r.value.message)
    return r.value
  }
  const read = name => {
    for (const reg of vars.vars.valueSeq().toArray()) if (reg.name === name || reg.name.endsWith('::' + name)) return plain(check(reg.value, name).toQuintEx(zerog))
    throw new Error('no variable ' + name)
  }
  const run = (f, what) => { if (!check(f(ctx), what).toBool()) return false; vars.shiftVars(); return true }
  let result
  if (job.mode === 'trace') {
    if (!run(buildExpr(ev.builder, exprs['start']), 'start')) throw new Error('start is not enabled')
    const events = JSON.parse(fs.readFileSync(job.events, 'utf8'))
    const arrow = buildDef(ev.builder, table.get(exprs['consume(0, 0)'].id))
    let n = 0
    for (const [i, d] of events) {
      const a = [rv.mkInt(BigInt('0x' + i)), rv.mkInt(BigInt('0x' + d))]
      if (!run(c => arrow(c).chain(l => l.toArrow()(c, a)), 'event ' + n)) throw new Error('event ' + n + ' is not enabled')
      n++
    }
    result = { idx: read('idx'), bad: read('bad') }
  } else {
    const step = buildExpr(ev.builder, exprs[job.step]), inv = job.invariant ? buildExpr(ev.builder, exprs[job.invariant]) : null
    const out = []
    let ok = run(buildExpr(ev.builder, exprs[job.init]), 'init')
    while (ok) {
      if (inv && !check(inv(ctx), 'invariant').toBool()) throw new Error('generated state violates ' + job.invariant + ': ' + JSON.stringify(read(job.var)))
      out.push(read(job.var))
      if (out.length >= job.n) break
      ok = run(step, 'step')
    }
    result = out
  }
  fs.writeFileSync(job.out, JSON.stringify(result))
}
main().catch(e => { console.error(String(e && e.stack || e)); process.exit(1) })
