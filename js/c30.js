// C30: drives the script of pwned-lookup-web/index.html against a stand-in browser page.
// usage: node c30.js PAGE run SEED N OUT | node c30.js PAGE replay FILE
'use strict'
const fs = require('fs'), vm = require('vm'), crypto = require('crypto')
const fc = require('/opt/veriftools/node/node_modules/fast-check')
const html = fs.readFileSync(process.argv[2], 'utf8')
process.on('unhandledRejection', () => {})          // a page shrugs these off

const md5 = s => crypto.createHash('md5').update(String(s), 'utf8').digest('hex')
const scripts = [...html.matchAll(/<script\b([^>]*)>([\s\S]*?)<\/script>/g)].filter(m => !/\bsrc\s*=/.test(m[1])).map(m => new vm.Script(m[2]))
const tags = [...html.matchAll(/<([a-zA-Z]+)\b([^>]*?)\/?>/g)].filter(m => /\bid\s*=/.test(m[2]))
const attr = (s, n) => (new RegExp('(?:^|\\s)' + n + '\\s*=\\s*"([^"]*)"').exec(s) || [])[1]
const LOOKUP = 'https://ersatzworld.net/v1/pwned/api/lookup?hash=', INFO = 'https://ersatzworld.net/v1/pwned/api/info'
const group = n => { let s = String(n), r = ''; while (s.length > 3) { r = ',' + s.slice(-3) + r; s = s.slice(0, -3) } return s + r }
class Violation extends Error {}
const need = (ok, msg) => { if (!ok) throw new Violation(msg) }
const settle = () => new Promise(r => setImmediate(r))

class Target {
  constructor() { this.listeners = {} }
  addEventListener(t, f) { (this.listeners[t] = this.listeners[t] || []).push(f) }
  removeEventListener(t, f) { this.listeners[t] = (this.listeners[t] || []).filter(g => g !== f) }
  fire(t, more) {
    const e = Object.assign({ type: t, target: this, currentTarget: this, preventDefault() {}, stopPropagation() {} }, more)
    for (const f of this.listeners[t] || []) typeof f === 'function' ? f.call(this, e) : f.handleEvent(e)
    if (typeof this['on' + t] === 'function') this['on' + t](e)
  }
}
class Element extends Target {
  constructor(tag, attrs) {
    super()
    this.tagName = tag.toUpperCase(); this.id = attr(attrs, 'id'); this.title = attr(attrs, 'title') || ''; this.value = ''
    this.type = attr(attrs, 'type'); this.checked = /\schecked\b/.test(attrs); this.text = ''; this.dataset = {}; this.style = {}; this.attrs = {}
    const c = this.classes = new Set((attr(attrs, 'class') || '').split(/\s+/).filter(Boolean))
    this.classList = { add: (...n) => n.forEach(x => c.add(x)), remove: (...n) => n.forEach(x => c.delete(x)), contains: x => c.has(x),
      toggle: (x, f) => { const on = f === undefined ? !c.has(x) : !!f; on ? c.add(x) : c.delete(x); return on }, replace: (a, b) => { if (c.delete(a)) c.add(b) } }
  }
  get innerText() { return this.text } set innerText(v) { this.text = String(v) }
  get textContent() { return this.text } set textContent(v) { this.text = String(v) }
  get innerHTML() { return this.text } set innerHTML(v) { this.text = String(v).replace(/&hellip;/g, '\u2026') }
  get className() { return [...this.classes].join(' ') } set className(v) { this.classes.clear(); String(v).split(/\s+/).filter(Boolean).forEach(x => this.classes.add(x)) }
  setAttribute(n, v) { if (n === 'title') this.title = String(v); else if (n === 'class') this.className = v; else this.attrs[n] = String(v) }
  getAttribute(n) { return n === 'title' ? this.title : n === 'class' ? this.className : this.attrs[n] }
  get visible() { return !this.classes.has('invisible') && this.style.display !== 'none' && !this.hidden }
}

class Page {
  constructor() {
    const byId = this.byId = {}
    for (const m of tags) { const e = new Element(m[1], m[2]); byId[e.id] = e }
    this.requests = []
    const page = this
    const other = kind => function (...a) { page.requests.push({ kind, url: a.map(String).join(' ') }) }
    const document = new Target()
    Object.assign(document, { getElementById: i => byId[i] || null, querySelector: s => byId[String(s).replace(/^#/, '')] || null, createElement: t => new Element(t, ''), cookie: '', readyState: 'complete', body: new Element('body', '') })
    const win = this.window = new Target()
    class XHR extends Target { open(m, u) { this.u = u } setRequestHeader(k, v) { this.u += ' ' + k + ':' + v } send(b) { page.requests.push({ kind: 'xhr', url: this.u, body: b }) } }
    Object.assign(win, { document, md5, console: { log() {}, error() {}, warn() {}, info() {}, debug() {} }, setTimeout, clearTimeout, setInterval, clearInterval, queueMicrotask,
      fetch: (u, o) => page.fetch(u, o), XMLHttpRequest: XHR, WebSocket: other('websocket'), EventSource: other('eventsource'), Image: class { set src(u) { page.requests.push({ kind: 'image', url: String(u) }) } },
      navigator: { sendBeacon: other('beacon'), userAgent: 'x' }, location: { href: 'https://example.org/', protocol: 'https:' }, localStorage: { setItem() {}, getItem() { return null } },
      TextEncoder, URL, URLSearchParams, AbortController, encodeURIComponent })
    win.window = win; win.self = win; win.globalThis = win
    const ctx = vm.createContext(win)
    for (const s of scripts) s.runInContext(ctx)
    document.fire('DOMContentLoaded'); win.fire('load')
  }
  fetch(u, o) {
    const r = { kind: 'fetch', url: typeof u === 'string' ? u : String((u && u.url) || u), options: JSON.stringify(o || {}), phase: 0 }
    this.requests.push(r)
    return new Promise((ok, no) => { r.ok = ok; r.no = no })
  }
  // first half of a reply: the status line arrives, or the connection fails
  respond(r, a) {
    r.answer = a; r.phase = 1
    if (a.kind === 'reject') { r.phase = 2; r.no(new TypeError('Failed to fetch')); return }
    const status = a.kind === 'status' ? a.status : 200
    const body = new Promise((ok, no) => { r.bodyOk = ok; r.bodyNo = no })
    r.ok({ ok: status === 200, status, statusText: 'x', headers: { get: () => 'application/json' },
      json: () => body.then(t => JSON.parse(t)), text: () => body })
  }
  body(r, data) {
    r.phase = 2
    if (r.answer.kind === 'broken') r.bodyNo(new TypeError('body cut off'))
    else if (r.answer.kind === 'garbage') r.bodyOk('<html>')
    else r.bodyOk(JSON.stringify(data))
  }
}

async function runCase(c) {
  const labels = new Set()
  const page = new Page(), E = page.byId
  await settle()
  need(page.requests.length === 1 && page.requests[0].kind === 'fetch' && page.requests[0].url === INFO, 'at load: requests ' + JSON.stringify(page.requests.map(r => r.url)))
  const info = page.requests[0]
  let used = 1, last = null, overlap = false, options = null
  E['on-every-keypress'].checked = c.every
  // every new request must be the lookup of the current password
  const newRequests = (wanted) => {
    const fresh = page.requests.slice(used); used = page.requests.length
    for (const r of fresh) {
      need(r.kind === 'fetch' && r.url === LOOKUP + md5(E.password.value), 'request ' + r.kind + ' ' + r.url + ' while the password ' + JSON.stringify(E.password.value) + ' has the hash ' + md5(E.password.value))
      r.hash = md5(E.password.value)
      const o = r.options.split(r.hash).join('#')
      if (options === null) options = o
      need(o === options, 'the requests differ in more than the hash: ' + o + ' / ' + options)
    }
    need(wanted ? fresh.length >= 1 : fresh.length === 0, wanted ? 'no lookup is made' : 'a lookup is made without being asked for: ' + fresh.map(r => r.url))
    if (fresh.length) {
      if (page.requests.some(r => r.hash && r.hash !== fresh[0].hash && r.phase < 2)) overlap = true
      last = fresh[0].hash
    }
  }
  const lookups = () => page.requests.filter(r => r.hash)
  const failed = a => a.kind !== 'ok'
  const known = new Map()
  let finished = []                                   // delivered replies in order
  const inspect = () => {
    if (last === null) { need(!E['result-container'].visible, 'a result is shown before any lookup'); return }
    const shown = E.hash.title
    need(shown === last, 'the page displays the hash ' + shown + ' instead of ' + last)
    need(E.hash.innerText.replace(/[^0-9a-f]/g, '') === last.slice(0, 8) + last.slice(-8), 'short form of the hash: ' + E.hash.innerText)
    const mine = finished.filter(r => r.hash === shown), good = mine.filter(r => !failed(r.answer))
    const text = E.found.innerText, digits = text.replace(/[^0-9,.]/g, '')
    const says = E.found.classList
    if (text !== '')
      need(good.some(r => r.answer.count > 0 ? digits === group(r.answer.count) : digits === '' && text !== ''), 'hash ' + shown + ' is shown as ' + JSON.stringify(text) + ' while the answers for it so far are ' + JSON.stringify(mine.map(r => r.answer)))
    need(!(says.contains('found') && says.contains('notfound')), 'shown both as found and not found')
    if (says.contains('found')) need(good.some(r => r.answer.count > 0), 'marked as found without such an answer')
    if (says.contains('notfound')) need(good.some(r => r.answer.count === 0), 'marked as not found without such an answer')
    const pending = lookups().some(r => r.hash === shown && r.phase < 2)
    if (mine.length && !pending) {
      // several replies for one hash: any of them may be the one that is shown
      const isError = E['error-container'].visible && E['error-container'].innerText !== '' && !E['result-container'].visible
      const isAnswer = a => E['result-container'].visible && !E['error-container'].visible && E['lookup-time-ms'].innerText.includes(String(a.ms)) &&
        (a.count > 0 ? digits === group(a.count) && says.contains('found') : digits === '' && text !== '' && says.contains('notfound'))
      need(mine.some(r => failed(r.answer) ? isError : isAnswer(r.answer)), 'after the replies ' + JSON.stringify(mine.map(r => r.answer)) + ' the page shows ' +
        JSON.stringify({ found: text, time: E['lookup-time-ms'].innerText, marks: [...says.contains('found') ? ['found'] : [], ...says.contains('notfound') ? ['notfound'] : []], result: E['result-container'].visible, error: E['error-container'].visible && E['error-container'].innerText }))
    }
  }
  const deliver = async (r, a, whole) => {
    if (a.kind === 'ok' && r.phase === 0) {           // the database does not change under the page
      if (!known.has(r.hash)) known.set(r.hash, a.count)
      a = { ...a, count: known.get(r.hash) }
    }
    if (r.phase === 0) { page.respond(r, a); await settle(); if (r.phase === 2) finished.push(r); if (!whole) return }
    if (r.phase === 1) {
      page.body(r, r.answer.kind === 'status' ? { error: 'x' } : { hash: r.hash, found: r.answer.count, 'lookup-time-ms': r.answer.ms })
      finished.push(r)
      await settle()
    }
  }
  const type = async text => {
    E.password.value = text
    E.password.fire('keydown', { key: 'a' }); E.password.fire('keypress', { key: 'a' }); E.password.fire('input'); E.password.fire('keyup', { key: 'a' })
    newRequests(E['on-every-keypress'].checked)
    await settle()
    newRequests(false)
  }
  for (const s of c.steps) {
    if (s.do === 'type') await type(s.text)
    else if (s.do === 'append') await type(E.password.value + s.text)
    else if (s.do === 'delete') await type(E.password.value.slice(0, -1))
    else if (s.do === 'click') {
      E.password.fire('change'); E.password.fire('focusout'); E.password.fire('blur')
      newRequests(false)
      E.submit.fire('click')
      newRequests(true)
      await settle()
      newRequests(false)
    } else if (s.do === 'toggle') {
      E['on-every-keypress'].checked = !E['on-every-keypress'].checked
      E['on-every-keypress'].fire('click'); E['on-every-keypress'].fire('input'); E['on-every-keypress'].fire('change')
      await settle()
      newRequests(false)
      labels.add('typing toggled')
    } else if (s.do === 'reply') {
      const open = lookups().filter(r => r.phase < 2)
      if (open.length) {
        const r = open[s.which % open.length]
        await deliver(r, s.answer, s.whole)
        if (r.hash !== last) labels.add('reply to an earlier password')
        if (r.phase === 2 && failed(r.answer)) labels.add('failing reply')
        newRequests(false)
      }
    } else if (s.do === 'info' && info.phase < 2) {
      page.respond(info, s.answer)
      if (info.phase === 1) { await settle(); page.body(info, info.answer.kind === 'status' ? { error: 'x' } : { count: s.answer.count, 'last-update': 1500000000 }) }
      await settle()
      if (s.answer.kind === 'ok') need(E['hash-count'].innerText === group(s.answer.count), 'database size ' + s.answer.count + ' is shown as ' + E['hash-count'].innerText)
      else need(!/\d/.test(E['hash-count'].innerText), 'unknown database size is shown as ' + E['hash-count'].innerText)
      newRequests(false)
      labels.add('database size')
    }
    inspect()
  }
  for (const r of c.reverse ? lookups().reverse() : lookups())
    if (r.phase < 2) { await deliver(r, c.rest, true); newRequests(false); inspect() }
  return { nontrivial: overlap && finished.length > 1, labels }
}

const count = fc.oneof(fc.constant(0), fc.constantFrom(1, 9, 10, 999, 1000, 9999, 100000, 999999, 1000000, 4294967295), fc.nat(4294967295), fc.nat(5000))
const ok = fc.record({ kind: fc.constant('ok'), count, ms: fc.constantFrom(0, 0.25, 17, 1.5) })
const bad = fc.oneof(fc.constantFrom({ kind: 'reject' }, { kind: 'broken' }, { kind: 'garbage' }), fc.constantFrom(400, 404, 500, 502, 503).map(status => ({ kind: 'status', status })))
const answer = fc.oneof({ weight: 3, arbitrary: ok }, { weight: 1, arbitrary: bad })
const text = fc.oneof(fc.constantFrom('a', 'b', 'abc', '123456', 'pass word', '\u00e4\u00f6', '', ' ', '%41', '&x=1', '<b>'), fc.string({ maxLength: 12 }), fc.string({ unit: 'grapheme', maxLength: 6 }), fc.string({ maxLength: 200 }))
const step = fc.oneof(
  { weight: 4, arbitrary: fc.record({ do: fc.constant('type'), text }) },
  { weight: 2, arbitrary: fc.record({ do: fc.constant('append'), text: fc.constantFrom('a', 'b', '1') }) },
  { weight: 1, arbitrary: fc.constant({ do: 'delete' }) },
  { weight: 3, arbitrary: fc.constant({ do: 'click' }) },
  { weight: 1, arbitrary: fc.constant({ do: 'toggle' }) },
  { weight: 7, arbitrary: fc.record({ do: fc.constant('reply'), which: fc.nat(7), answer, whole: fc.boolean() }) },
  { weight: 1, arbitrary: fc.record({ do: fc.constant('info'), answer: fc.oneof(ok, bad) }) })
const caseArb = fc.record({ every: fc.boolean(), steps: fc.array(step, { maxLength: 24 }), reverse: fc.boolean(), rest: answer })

async function outcome(c) { try { const r = await runCase(c); return { r } } catch (e) { return { m: e instanceof Violation ? e.message : 'the page fails: ' + (e && e.stack || e).toString().slice(0, 600) } } }

async function main() {
  if (process.argv[3] === 'replay') {
    const o = await outcome(JSON.parse(fs.readFileSync(process.argv[4], 'utf8')).case)
    console.log(o.m ? 'FAILS: ' + o.m : 'holds')
    process.exit(o.m ? 1 : 0)
  }
  const seed = +process.argv[4], n = +process.argv[5], out = process.argv[6]
  const st = { evals: 0, distinct: [], labels: {}, samples: [] }, seen = new Set()
  let failing = false
  const res = await fc.check(fc.asyncProperty(caseArb, async c => {
    const o = await outcome(c)
    if (o.m) { failing = true; throw new Error(o.m) }
    if (failing) return
    st.evals++
    for (const l of o.r.labels) st.labels[l] = (st.labels[l] || 0) + 1
    if (o.r.nontrivial) {
      const t = JSON.stringify(c)
      seen.add(crypto.createHash('sha1').update(t).digest('hex').slice(0, 16))
      if (st.samples.length < 4 && t.length < 1200) st.samples.push(c)
    }
  }), { seed, numRuns: n, maxSkipsPerRun: 1000, interruptAfterTimeLimit: 780000, markInterruptAsFailure: false })
  st.distinct = [...seen]
  if (res.failed && res.counterexample) {
    const c = JSON.parse(JSON.stringify(res.counterexample[0]))
    const ms = []
    for (let i = 0; i < 3; i++) ms.push((await outcome(c)).m)
    if (ms.every(Boolean)) st.fail = { case: c, message: ms[0] }; else st.unconfirmed = 1
  }
  fs.writeFileSync(out, JSON.stringify(st))
  process.exit(0)
}
main()
