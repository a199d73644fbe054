// Runs the wasm module and performs the calls it is told, one JSON line each way.
// argv: wasm_exec.js keyaddr.wasm
'use strict'
globalThis.fs = require('fs')
globalThis.path = require('path')
globalThis.TextEncoder = require('util').TextEncoder
globalThis.TextDecoder = require('util').TextDecoder
globalThis.performance ??= require('perf_hooks').performance
globalThis.crypto ??= require('crypto').webcrypto
require(process.argv[2])
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[3]))
let logged = []
console.log = (...m) => { logged.push(m.map(String).join(' ')) }
let handled = []
let running = false
const own = m => { handled.push(String(m)) }
globalThis.KeyaddrErrorHandler = own
function start () {
  const go = new Go()
  go.exit = () => {}
  const inst = new WebAssembly.Instance(mod, go.importObject)
  running = true
  go.run(inst).then(() => { running = false }, () => { running = false })
}
process.on('uncaughtException', e => { if (process.env.JS_DEBUG) console.error(e); running = false })
process.on('unhandledRejection', e => { if (process.env.JS_DEBUG) console.error(e); running = false })
function value (a) {
  switch (a.t) {
    case 'undefined': return undefined
    case 'null': return null
    case 'bool': return a.v === 'true'
    case 'num': return Number(a.v)
    case 'big': return BigInt(a.v)
    case 'sym': return Symbol('x')
    case 'obj': return { key: a.v }
    case 'arr': return [a.v]
    case 'fn': return function () { throw new Error('called') }
  }
  return a.v
}
// one call: {fn, args, cb (a callback is added), then (a call made in the callback)}
function perform (call, out) {
  const me = { answers: [], cb: call.cb, threw: '' }
  out.push(me)
  const args = (call.args || []).map(value)
  if (call.cb) {
    args.push((...r) => {
      me.answers.push({ err: r[0] ? String(r[0].message === undefined ? r[0] : r[0].message) : '', object: r[0] instanceof Error, iserr: r[0] !== null && r[0] !== undefined, type: r[1] === null ? 'null' : typeof r[1], n: r.length,
        value: r[1] !== null && typeof r[1] === 'object' ? JSON.stringify(r[1]) : String(r[1]) })
      if (call.then) perform(call.then, out)
    })
  }
  try { KeyaddrNS[call.fn](...args) } catch (e) { me.threw = String(e) }
  return me
}
function history (calls, done) {
  const out = []
  handled = []
  for (const c of calls) perform(c, out)
  let waited = 0
  const look = () => {
    // calls with a callback are answered at once, but need not be
    const open = out.some(o => o.cb && o.answers.length === 0) || handled.length < out.filter(o => !o.cb).length
    if (open && running && waited++ < 200) { setTimeout(look, 5); return }
    setImmediate(() => done({ out, handled, alive: running }))
  }
  setImmediate(look)
}
let buf = ''
const queue = []
let busy = false
function next () {
  if (busy || queue.length === 0) return
  busy = true
  const r = JSON.parse(queue.shift())
  logged = []
  if (r.start) {
    // what the page had set before the module is loaded
    delete globalThis.KeyaddrErrorHandler
    delete globalThis.KeyaddrLogLevel
    if (r.start.handler !== 'none') globalThis.KeyaddrErrorHandler = { own, null: null, undefined }[r.start.handler]
    if (r.start.level !== 'none') globalThis.KeyaddrLogLevel = r.start.level
    start()
  } else if (!running || r.fresh) {
    globalThis.KeyaddrErrorHandler = own
    start()
  }
  if (r.level !== '') globalThis.KeyaddrLogLevel = r.level
  history(r.calls, o => {
    o.logged = logged
    o.handler = globalThis.KeyaddrErrorHandler === own ? 'own' : typeof globalThis.KeyaddrErrorHandler
    o.level = String(globalThis.KeyaddrLogLevel)
    o.levels = [globalThis.KeyaddrLogLevelDebug, globalThis.KeyaddrLogLevelInfo, globalThis.KeyaddrLogLevelError].join()
    if (r.start) globalThis.KeyaddrErrorHandler = own
    fs.writeSync(1, JSON.stringify(o) + '\n')
    busy = false
    setImmediate(next)
  })
}
process.stdin.on('data', d => {
  buf += d
  let i
  while ((i = buf.indexOf('\n')) >= 0) { queue.push(buf.slice(0, i)); buf = buf.slice(i + 1) }
  next()
})
process.stdin.on('end', () => process.exit(0))
