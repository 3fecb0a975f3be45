// Concrete runs: random histories of the real code (bundled from the current sources, with the real libraries) against
// the contract, and the lemmas against the real code. Used to find failing inputs for obligations that fail.
import { join, dirname } from 'node:path'
import { readFileSync } from 'node:fs'
import vm from 'node:vm'
import esbuild from '/opt/veriftools/node/node_modules/esbuild/lib/main.js'
import ts from '/opt/veriftools/node/node_modules/typescript/lib/typescript.js'
import { REPO, HERE, packages } from './modules.mjs'

// ------------------------------------------------------------ random numbers
export function rng(seed) {
	let a = seed >>> 0
	const next = () => { a = (a + 0x6d2b79f5) >>> 0; let t = a; t = Math.imul(t ^ (t >>> 15), t | 1); t ^= t + Math.imul(t ^ (t >>> 7), t | 61); return ((t ^ (t >>> 14)) >>> 0) / 4294967296 }
	const r = { next, int: n => Math.floor(next() * n), pick: xs => xs[Math.floor(next() * xs.length)], chance: p => next() < p }
	return r
}
const hash = (...xs) => { let h = 2166136261; for (const c of xs.join('|')) { h ^= c.charCodeAt(0); h = Math.imul(h, 16777619) } return h >>> 0 }

// ------------------------------------------------------------ bundling
const ENV = join(HERE, 'env')
const stubs = { history: join(ENV, 'history.js'), '@formatjs/intl': join(ENV, 'intl.js'), mousetrap: join(ENV, 'mousetrap.js'), platform: join(ENV, 'platform.js') }
const plugin = {
	name: 'just-web',
	setup(b) {
		b.onResolve({ filter: /.*/ }, async a => {
			if (a.pluginData === 'again') return undefined
			if (stubs[a.path]) return { path: stubs[a.path] }
			if (packages().has(a.path)) return { path: join(packages().get(a.path), 'src/index.ts') }
			if (/^@just-web\/[\w-]+\//.test(a.path)) { const [, n, sub] = /^(@just-web\/[\w-]+)\/(.*)$/.exec(a.path); if (packages().has(n)) return { path: join(packages().get(n), 'src', sub, 'index.ts') } }
			if (!a.path.startsWith('.') && !a.path.startsWith('/') && (a.importer.startsWith(HERE) || a.importer === '/__entry.js')) {
				for (const d of packages().values()) { const r = await b.resolve(a.path, { resolveDir: join(d, 'src'), kind: 'import-statement', pluginData: 'again' }); if (!r.errors.length) return r }
			}
			return undefined
		})
	}
}
const GLOBALS = ['globalThis', 'window', 'self', 'location', 'navigator', 'addEventListener', 'removeEventListener', 'sessionStorage', 'localStorage', 'fetch', 'document', 'console', 'Math', '__page']
const bundles = new Map()
/** code of the given exports as a function of the page */
export async function bundle(key, entries) {
	if (bundles.has(key)) return bundles.get(key)
	const contents = entries.map(([name, file, local]) => `export { ${local} as ${name} } from ${JSON.stringify(file)}`).join('\n')
	const r = await esbuild.build({ stdin: { contents, resolveDir: HERE, loader: 'js', sourcefile: '/__entry.js' }, bundle: true, write: false, format: 'iife', globalName: '__exports', platform: 'browser', mainFields: ['module', 'main'], conditions: ['import'], plugins: [plugin], logLevel: 'silent', target: 'es2022', metafile: true })
	const code = r.outputFiles[0].text
	const script = new vm.Script(`(function (${GLOBALS.join(',')}) {${code}\nreturn __exports })`)
	const make = script.runInThisContext()
	const out = { make: page => make(...GLOBALS.map(g => page[g])), inputs: Object.keys(r.metafile.inputs) }
	bundles.set(key, out)
	return out
}
// ------------------------------------------------------------ literals of the source
const STRINGS = ['', 'a', 'b', 'c', 'a.b', 'b.c.d', 'constructor', 'toString', '__proto__', 'hasOwnProperty', '0', '1', 'A b', 'é', '/', '/a', 'x:y', ' ', 'undefined', 'null']
const SYMBOLS = [Symbol('s'), Symbol('t')]
const KEYS = ['ctrl+k', 'cmd+k', 'command+k', 'cmd+shift+cmd+k', 'a', 'cmd+a', 'command+a', 'ctrl+cmd+a', '']
const NUMBERS = [0, 1, -1, 2, 10, NaN, Infinity, -0, 0.5]
export function harvest(files) {
	const s = new Set(), n = new Set()
	for (const f of files) {
		const visit = x => {
			if (ts.isImportDeclaration(x) || ts.isExportDeclaration(x)) return
			if (ts.isStringLiteral(x) || ts.isNoSubstitutionTemplateLiteral(x)) { if (x.text.length < 40) s.add(x.text) }
			else if (ts.isTemplateHead(x) || ts.isTemplateMiddle(x) || ts.isTemplateTail(x)) { if (x.text.length < 40) s.add(x.text) }
			else if (ts.isNumericLiteral(x)) n.add(Number(x.text))
			ts.forEachChild(x, visit)
		}
		visit(ts.createSourceFile(f, readFileSync(f, 'utf8'), ts.ScriptTarget.ESNext, true))
	}
	return { strings: [...s], numbers: [...n] }
}
// ------------------------------------------------------------ snapshots of values
const tagOf = new WeakMap()
const tag = (o, t) => { tagOf.set(o, t); return o }
class Snap {
	constructor() { this.ids = new Map() }
	of(v, depth = 0) {
		if (typeof v === 'function') { if (tagOf.has(v)) return { k: 'tag', t: tagOf.get(v) }; return { k: 'fn', id: this.id(v) } }
		if (typeof v === 'object' && v !== null) {
			if (v instanceof Promise) return { k: 'promise', id: this.id(v) }
			if (v instanceof Error) return depth > 6 ? { k: 'deep' } : { k: 'error', name: v.name, t: tagOf.get(v), e: [['message', { k: 'prim', v: v.message }], ...(v.cause === undefined ? [] : [['cause', this.of(v.cause, depth + 1)]]), ...Object.keys(v).sort().map(k => [k, this.of(v[k], depth + 1)])] }
			let keys
			try { keys = Reflect.ownKeys(v).filter(k => Object.prototype.propertyIsEnumerable.call(v, k)) } catch { return { k: 'revoked' } }
			if (depth > 6) return { k: 'deep' }
			const t = tagOf.get(v)
			if (t?.startsWith('lib.')) return { k: 'tag', t }
			const proto = Object.getPrototypeOf(v)
			return { k: 'obj', t, id: this.id(v), array: Array.isArray(v), proto: proto === null ? 'null' : proto.constructor?.name ?? '?', frozen: Object.isFrozen(v), e: keys.map(k => { const d = Object.getOwnPropertyDescriptor(v, k); return [k, 'value' in d ? this.of(d.value, depth + 1) : { k: 'accessor' }] }) }
		}
		return { k: 'prim', v }
	}
	id(v) { if (!this.ids.has(v)) this.ids.set(v, this.ids.size); return this.ids.get(v) }
}
class Differ {
	constructor() { this.r2g = new Map(); this.g2r = new Map() }
	same(a, b, opts = {}) {
		if (a.k !== b.k) return `${str(a)} where ${str(b)} is required`
		switch (a.k) {
			case 'prim': return Object.is(a.v, b.v) ? null : `${str(a)} where ${str(b)} is required`
			case 'tag': return a.t === b.t ? null : `${a.t} where ${b.t} is required`
			case 'error': {
				if (a.name !== b.name || a.t !== b.t) return `${str(a)} where ${str(b)} is required`
				if (opts.thrown) return null
				for (const [k, x] of b.e) { const y = a.e.find(z => z[0] === k); if (!y) return `error lacks ${k}`; const d = this.same(y[1], x, opts); if (d) return `.${k}: ${d}` }
				return a.e.length === b.e.length ? null : 'error with further properties'
			}
			case 'fn': if (opts.looks && (this.r2g.has(a.id) || this.g2r.has(b.id))) return null // one function or two that do the same
				return this.ident(a, b)
			case 'promise': return this.ident(a, b)
			case 'obj': {
				if (a.t !== b.t) return `${a.t ?? 'another object'} where ${b.t ?? 'a new object'} is required`
				if (this.r2g.has(a.id) || this.g2r.has(b.id)) { if (this.r2g.get(a.id) !== b.id) return 'a different object than required' }
				this.r2g.set(a.id, b.id); this.g2r.set(b.id, a.id)
				if (a.array !== b.array || a.proto !== b.proto) return `${a.proto} where ${b.proto} is required`
				if (b.frozen && !a.frozen) return 'not frozen'
				if (a.array) { if (a.e.length !== b.e.length) return `${str(a)} where ${str(b)} is required` }
				const m = new Map(a.e)
				for (const [k, x] of b.e) { if (!m.has(k)) return `lacks ${String(k)}: ${str(a)} where ${str(b)} is required`; const d = this.same(m.get(k), x, opts); if (d) return `.${String(k)}: ${d}` }
				if (!opts.subset && a.e.length !== b.e.length) return `${str(a)} where ${str(b)} is required`
				if (!opts.subset && !a.e.some(x => ['fn', 'tag'].includes(x[1].k))) { const ka = a.e.map(x => x[0]), kb = b.e.map(x => x[0]); if (ka.some((k, i) => k !== kb[i])) return `keys in another order` }
				return null
			}
		}
		return null
	}
	ident(a, b) {
		if (this.r2g.has(a.id) || this.g2r.has(b.id)) return this.r2g.get(a.id) === b.id ? null : 'a different object than required'
		this.r2g.set(a.id, b.id); this.g2r.set(b.id, a.id)
		return null
	}
}
export function str(a) {
	switch (a?.k) {
		case 'prim': return typeof a.v === 'string' ? JSON.stringify(a.v) : Object.is(a.v, -0) ? '-0' : String(a.v)
		case 'tag': return a.t
		case 'fn': return 'a function'
		case 'error': return `error ${a.name}`
		case 'obj': return a.array ? `[${a.e.map(x => str(x[1])).join(', ')}]` : `{${a.e.map(x => `${String(x[0])}: ${str(x[1])}`).join(', ')}}`
	}
	return a?.k ?? String(a)
}
// ------------------------------------------------------------ one side of one history
class Abandon extends Error { }
export class AssertFail extends Error { }
const flush = async () => { for (let i = 0; i < 25; i++) await Promise.resolve() }
const ERRORS = new Set(['emergency', 'alert', 'critical', 'error', 'warn'])
const LOG_METHODS = ['emergency', 'alert', 'critical', 'error', 'warn', 'notice', 'info', 'debug', 'trace', 'planck']

export class Side {
	constructor(comp, lib, harness, seed, lits) {
		this.comp = comp; this.lib = lib; this.h = harness; this.seed = seed; this.lits = lits
		this.trace = []; this.snap = new Snap(); this.pool = new Map(); this.pending = []; this.calls = 0; this.quiet = false; this.depth = 0; this.n = 0; this.path = ''
		this.made = 0
		this.sym = this.makeSym()
		this.sym.page = this.page = this.makePage()
		this.subs = lib.make(this.page)
	}
	log(e) { this.trace.push(e) }
	rand(...k) { return rng(hash(this.seed, this.path, ...k)) }
	// a value that differs per name and step, often one that was used before
	fromPool(kind, name, make) {
		const key = `${this.path}|${name}`
		const at = (this.stepMemo ??= new Map())
		if (at.has(kind + key)) return at.get(kind + key)
		const pool = this.pool.get(kind) ?? []
		this.pool.set(kind, pool)
		const r = this.rand(name, kind)
		let v
		if (pool.length && r.chance(0.4)) v = pool[r.int(pool.length)]
		else { v = make(r, `${name}@${this.path}`); pool.push(v) }
		at.set(kind + key, v)
		return v
	}
	string(r) { const L = this.lits.strings; return L.length && r.chance(0.35) ? (r.chance(0.8) ? r.pick(L) : r.pick(L) + r.pick(STRINGS)) : r.chance(0.9) ? r.pick(STRINGS) : r.pick(STRINGS) + r.pick(STRINGS) }
	key(r) { return r.chance(0.85) ? this.string(r) : r.pick(SYMBOLS) }
	number(r) { const L = this.lits.numbers; return L.length && r.chance(0.2) ? r.pick(L) : r.pick(NUMBERS) }
	prim(r) { switch (r.int(8)) { case 0: return undefined; case 1: return null; case 2: return r.chance(0.5); case 3: return this.number(r); case 4: return r.int(5); default: return this.string(r) } }
	json(r, name, depth = 0) {
		const k = r.int(depth > 2 ? 5 : 8)
		if (k < 5) { const v = this.prim(r); return v === undefined || (typeof v === 'number' && (!Number.isFinite(v) || Object.is(v, -0))) ? null : v }
		if (k < 7) { const o = {}; for (let i = r.int(3); i >= 0; i--) { const key = this.string(r); if (key !== '__proto__') o[key] = this.json(r, name, depth + 1) } return tag(o, `{${name}.${this.made++}}`) }
		const a = []; for (let i = r.int(4); i > 0; i--) a.push(this.json(r, name, depth + 1)); return tag(a, `[${name}.${this.made++}]`)
	}
	data(r, name) { const k = r.int(10); if (k < 5) return this.prim(r); return this.json(r, name) }
	fn(r, name, kind) {
		const self = this
		let n = 0
		const f = tag(function (...args) {
			const i = n++
			self.log({ t: 'call', fn: name, args: args.map(a => self.snap.of(a)) })
			if (self.calls++ > 400) return undefined
			return self.act(kind, rng(hash(self.seed, name, i)), args, `${name}()${i}`)
		}, name)
		return f
	}
	act(kind, r, args, name) {
		if (!this.quiet && this.depth < 2 && this.s && this.h.reenter && r.chance(0.35) && !this.skip?.has('re ' + name)) {
			this.depth++
			const save = this.path
			this.path = `${save}/${name}`
			const sp = this.sym
			try { const re = kind === 'updater' && this.depth === 1 ? { ...this.h.reenter, ...this.h.reenterUpdater } : this.h.reenter, names = Object.keys(re); const k = r.pick(names); this.log({ t: 're', name: k, path: 're ' + name }); try { re[k](sp, this.s, this.mem ?? {}) } catch (e) { if (e instanceof AssertFail) throw e; this.log(e instanceof Abandon ? { t: 'skip' } : { t: 'threw', v: this.snap.of(e) }) } } finally { this.path = save; this.depth-- }
		}
		if (kind === 'handler') return undefined
		const value = () => { const v = this.data(r, name); return v }
		if (kind === 'updater' || kind === 'adder') {
			const d = args[0]
			if (typeof d === 'object' && d !== null && r.chance(0.6)) { this.edit(d, r, name); if (kind === 'adder' || r.chance(0.7)) return undefined; return this.maybeLater(r, () => undefined) }
			if (kind === 'adder') return undefined
			const x = r.int(5)
			const v = x === 0 ? undefined : x === 1 ? (this.nothing ?? undefined) : value()
			return this.maybeLater(r, () => v)
		}
		if (kind === 'value') return value()
		if (kind === 'text') { const x = r.int(6); const v = x === 0 ? undefined : x === 1 ? this.nothing : this.string(r); return this.maybeLater(r, () => v) }
		if (kind === 'json') {
			const x = r.int(6), d = args[0]
			if (typeof d === 'object' && d !== null && x < 3) { this.edit(d, r, name); return this.maybeLater(r, () => undefined) }
			const v = x === 0 ? undefined : x === 1 ? this.nothing : this.json(r, name)
			return this.maybeLater(r, () => v)
		}
		if (kind === 'string') return this.string(r)
		return r.chance(0.5) ? undefined : this.maybeLater(r, value)
	}
	maybeLater(r, f) {
		if (!r.chance(0.35)) return f()
		return new Promise(ok => { if (r.chance(0.5)) ok(f()); else this.pending.push(() => ok(f())) })
	}
	edit(d, r, name) {
		for (let i = r.int(2); i >= 0; i--) {
			if (Array.isArray(d)) { const k = r.int(4); if (k === 0) d.pop(); else if (k === 1 && d.length) d[0] = this.prim(r); else d.push(this.prim(r)) }
			else { const ks = Object.keys(d); const k = r.int(4); if (k === 0 && ks.length) delete d[r.pick(ks)]; else if (k === 1 && ks.length && typeof d[ks[0]] === 'object' && d[ks[0]] !== null) this.edit(d[ks[0]], r, name); else { const key = this.string(r); if (key !== '__proto__') d[key] = this.prim(r) } }
		}
	}
	logger(id) {
		const self = this
		const l = { id, on(level, fn) { fn(() => { }, level) }, count() { } }
		for (const m of LOG_METHODS) l[m] = (...args) => self.logged(m, id, args)
		return l
	}
	logged(level, id, args) {
		const e = { t: 'log', level, id, args: args.map(a => (typeof a === 'object' && a !== null ? this.snap.of(a) : { k: 'prim', v: a })), text: args.map(a => { try { return String(a) } catch { return '' } }).join(' ') }
		if (this.comp.logs ? this.comp.logs(e) : ERRORS.has(level)) this.log(e)
	}
	makeSym() {
		const self = this
		const log = id => { const l = self.logger(id ?? 'app'); l.getLogger = l.getNonConsoleLogger = i => self.logger(i === undefined ? id ?? 'app' : `${id ?? 'app'}:${i}`); return l }
		return {
			val: n => self.fromPool('val', n, (r, t) => (r.chance(0.2) ? self.fn(r, t, 'updater') : r.chance(0.1) ? new Date(0) && Symbol.for('x') : self.data(r, t))),
			data: n => self.fromPool('data', n, (r, t) => self.data(r, t)),
			json: n => self.fromPool('json', n, (r, t) => self.json(r, t)),
			str: n => self.fromPool('str', n, r => self.string(r)),
			key: n => self.fromPool('str', n, r => self.key(r)),
			int: n => self.fromPool('int', n, r => r.int(20) - 3),
			bool: n => self.fromPool('bool', n, r => r.chance(0.5)),
			fn: (n, kind) => self.fromPool('fn' + (kind ?? ''), n, (r, t) => self.fn(r, t, kind)),
			obj: (n, kind) => self.fromPool('obj' + (kind ?? ''), n, (r, t) => self.objOf(kind, r, t)),
			pick: (n, l) => l[self.fromPool('pick' + n, n, r => r.int(l.length))],
			generic: (on = true) => { self.page.Math.generic = on },
			optional: (n, v) => (self.fromPool('opt' + n, n + '?', r => r.chance(0.5)) ? v : undefined),
			list: (n, kind) => self.fromPool('list' + (kind ?? ''), n, (r, t) => Array.from({ length: r.int(4) }, (_, i) => self.one(r, kind, `${t}.${i}`))).slice(),
			args: (n) => self.fromPool('args', n, (r, t) => Array.from({ length: r.int(4) }, (_, i) => self.one(r, undefined, `${t}.${i}`))),
			dict: (n, kind) => { const r = self.rand(n, 'dict'); const o = Object.create(null); for (let i = r.int(4); i > 0; i--) o[self.string(r)] = self.one(r, kind, n); return o },
			record: (n, kind) => self.fromPool('record' + (kind ?? ''), n, (r, t) => { const o = {}; for (let i = r.int(4); i > 0; i--) { const k = self.key(r); if (k !== '__proto__') o[k] = self.one(r, kind, `${t}.${i}`) } return tag(o, `{${t}}`) }),
			logger: id => self.logger(id ?? 'app'),
			log,
			event: (n, ...args) => self.log({ t: 'event', name: n, args: args.map(a => self.snap.of(a)) }),
			read: (n, v) => self.log({ t: 'event', name: 'read ' + n, args: [self.snap.of(v)] }),
			assume: v => { if (!v) throw new Abandon() },
			assert: (v, label) => { self.asserted = true; if (!v) throw new AssertFail(label ?? 'assertion') },
			same: (a, b) => Object.is(a, b),
			isFunction: v => typeof v === 'function',
			quiet: () => { self.quiet = true }
		}
	}
	one(r, kind, t) { return kind === 'fn' ? this.fn(r, t) : kind === 'str' ? this.string(r) : kind === 'obj' || kind === 'contribution' || this.h.objects?.[kind] ? this.objOf(kind, r, t) : this.data(r, t) }
	/** an object of the environment: known by its name */
	objOf(kind, r, t) {
		const self = this
		const o = { r, name: t, fn: (n, k) => self.fn(r, `${t}.${n}`, k), str: () => self.string(r), some: f => (r.chance(0.6) ? f() : undefined), chance: p => r.chance(p), page: self.page, event: self.sym?.event }
		if (this.h.objects?.[kind]) return tag(this.h.objects[kind](o), `lib.${t}`)
		if (kind === 'contribution') {
			const c = { id: this.string(r) }
			for (const [k, f] of Object.entries({ title: () => self.string(r), description: () => self.string(r), key: () => r.pick(KEYS), mac: () => r.pick(KEYS) })) if (r.chance(0.5)) c[k] = f()
			return tag(c, `lib.${t}`)
		}
		return tag({ mark: t }, `lib.${t}`)
	}
	makePage() {
		const self = this
		const opaque = name => tag(function (...args) { self.log({ t: 'call', fn: name, args: args.map(a => self.snap.of(a)) }); return tag({}, `lib.result of ${name}`) }, name)
		const obj = name => tag({}, 'lib.' + name)
		const page = { location: obj('location'), navigator: obj('navigator'), sessionStorage: obj('sessionStorage'), localStorage: obj('localStorage'), addEventListener: opaque('addEventListener'), removeEventListener: opaque('removeEventListener'), fetch: opaque('fetch'), document: obj('document'), Math, console: Object.fromEntries(['log', 'debug', 'info', 'warn', 'error', 'trace'].map(m => [m, (...args) => self.logged(m, 'console', args)])), effect: (name, args) => self.log({ t: 'event', name, args: args.map(a => self.snap.of(a)) }) }
		Object.assign(page, this.h.page?.(name => opaque(name), this) ?? {}, this.h.globals?.(this.sym) ?? {})
		page.__page = page
		const g = Object.create(globalThis)
		for (const k of Object.keys(page)) Object.defineProperty(g, k, { value: page[k], configurable: true, writable: true })
		page.globalThis = page.window = page.self = g
		return page
	}
	async outcome(label, f) {
		let e
		try {
			const v = f()
			e = { t: 'outcome', label, v: this.snap.of(v) }
			if (v instanceof Promise) { this.watch ??= []; const w = { label, state: 'pending' }; v.then(x => { w.state = 'fulfilled'; w.v = this.snap.of(x) }, x => { w.state = 'rejected'; w.v = this.snap.of(x) }); this.watch.push(w) }
		} catch (x) { if (x instanceof AssertFail) throw x; e = x instanceof Abandon ? { t: 'skip', threw: true } : { t: 'outcome', label, threw: this.snap.of(x), error: x } }
		this.log(e)
		return e
	}
	async settled() { for (const w of this.watch ?? []) if (!w.done && w.state !== 'pending') { w.done = true; this.log({ t: 'settled', label: w.label, state: w.state, v: w.v }) } }
	async construct(variant) {
		this.path = 'init'
		this.nothing = this.subs.nothing
		try { let s = this.h.construct(this.sym, this.subs, variant); if (s instanceof Promise) s = await s; this.s = s; this.log({ t: 'outcome', label: 'construct', subset: true, v: this.snap.of(s) }) } catch (x) { if (x instanceof Abandon) { this.log({ t: 'skip' }); return false } this.log({ t: 'outcome', label: 'construct', threw: this.snap.of(x), error: x }); return false }
		return true
	}
	async phases(name, phases, path, depth, r) {
		const mem = {}
		let n = 0
		for (const ph of Array.isArray(phases) ? phases : [phases]) {
			n++
			this.path = `${path}.${n}`
			if (ph === 'others') { const k = r.int(3); for (let i = 0; i < k && depth < 2; i++) await this.step(`${path}.${n}.${i}`, depth + 1); continue }
			if (ph === 'tick' || ph === 'settle') { if (ph === 'settle') for (const p of this.pending.splice(0)) p(); await flush(); await this.settled(); continue }
			const save = this.mem
			this.mem = mem
			const o = await this.outcome(`${name}#${n}`, () => ph(this.sym, this.s, mem, this.subs))
			this.mem = save
			if (o.threw) break
		}
		for (const p of this.pending.splice(0)) p()
		await flush()
		await this.settled()
	}
	async step(path, depth, only) {
		const r = rng(hash(this.seed, 'step', path))
		const ops = { ...this.h.ops, ...this.h.nativeOps }
		const name = only ?? r.pick(Object.keys(ops))
		if (this.skip?.has(path)) return
		this.log({ t: 'op', name, path })
		await this.phases(name, ops[name], path, depth, r)
	}
}
// ------------------------------------------------------------ comparing two histories
export function compareTraces(R, G) {
	const d = new Differ()
	const n = Math.max(R.length, G.length)
	let op = 'construct'
	for (let i = 0; i < n; i++) {
		const a = R[i], b = G[i]
		if (b?.t === 'op' || a?.t === 'op') op = (b?.t === 'op' ? b : a).name
		const bad = why => ({ at: i, op, why })
		if (!a) return bad(`${describe(b)} is required and missing`)
		if (!b) return bad(`${describe(a)} is not allowed`)
		if (a.t !== b.t || (a.name ?? a.fn) !== (b.name ?? b.fn)) return bad(`${describe(a)} where ${describe(b)} is required`)
		const looks = a.t === 'event' && !!a.name?.startsWith('read ')
		const list = (x, y) => { if (x.length !== y.length) return `${x.length} arguments where ${y.length} are required`; for (const [j, p] of x.entries()) { const w = d.same(p, y[j], { looks }); if (w) return `argument ${j}: ${w}` } return null }
		let why = null
		switch (a.t) {
			case 'call': case 'event': why = list(a.args, b.args); break
			case 'outcome':
				if (!!a.threw !== !!b.threw) why = a.threw ? `throws ${str(a.threw)} ${a.error?.message ?? ''} where ${str(b.v)} is required` : `returns ${str(a.v)} where ${str(b.threw)} is required`
				else why = a.threw ? d.same(a.threw, b.threw, { thrown: true }) : d.same(a.v, b.v, { subset: a.subset, looks: true })
				if (why) why = `${a.label}: ${why}`
				break
			case 'settled': why = a.label !== b.label ? `${a.label} settles where ${b.label} is required` : a.state !== b.state ? `${a.label} is ${a.state} where ${b.state} is required` : d.same(a.v, b.v, { thrown: a.state === 'rejected', looks: true }); break
			case 'threw': why = d.same(a.v, b.v, { thrown: true }); break
			case 'log':
				if (a.level !== b.level) why = `${a.level} log where ${b.level} is required`
				else if ((a.id === 'console') !== (b.id === 'console')) why = `logged to ${a.id} where it is to be logged to ${b.id}`
				else for (const x of b.args) if (x.k === 'prim' ? !a.text.includes(String(x.v)) : !a.args.some(y => !new Differ().same(y, x))) why = `log does not mention ${str(x)}`
		}
		if (why) return bad(a.t === 'outcome' ? why : `${describe(a)}: ${why}`)
	}
	return null
}
const describe = e => { switch (e.t) { case 'call': return `call of ${e.fn}(${e.args.map(str).join(', ')})`; case 'event': return `${e.name}(${e.args.map(str).join(', ')})`; case 'outcome': return `outcome of ${e.label}`; case 'settled': return `${e.label} ${e.state} with ${str(e.v)}`; case 'log': return `${e.level} log`; case 'op': return `operation ${e.name}`; case 'skip': return 'operation abandoned'; case 're': return `nested ${e.name}`; case 'threw': return `exception ${str(e.v)}` } }
export const describeTrace = t => t.map(e => (e.t === 'outcome' ? `${e.label} -> ${e.threw ? 'throws ' + str(e.threw) : str(e.v)}` : describe(e)))

// ------------------------------------------------------------ a component
export async function loadComponent(comp) {
	const subj = side => Object.entries(comp.subjects).map(([n, s]) => { const [f, l] = side === 'R' ? s.real : s.spec; return [n, join(side === 'R' ? REPO : HERE, f), l] })
	const extra = [['nothing', 'immer', 'nothing']]
	const real = await bundle(comp.id + '/R', [...subj('R'), ...extra])
	const spec = await bundle(comp.id + '/G', [...subj('G'), ...extra])
	const harness = await import(join(HERE, comp.harness))
	const files = Object.values(comp.subjects).map(s => join(REPO, s.real[0]))
	const dirs = new Set(files.map(f => dirname(f)))
	const srcs = real.inputs.map(f => (f.startsWith('/') ? f : join(process.cwd(), f))).filter(f => [...dirs].some(d => dirname(f) === d))
	return { comp, real, spec, harness, lits: harvest(srcs.length ? srcs : files) }
}
async function runSide(L, which, seed, variant, len, skip) {
	const s = new Side(L.comp, L[which], L.harness, seed, L.lits)
	s.skip = skip
	if (!(await s.construct(variant))) return s.trace
	for (let i = 0; i < len; i++) await s.step(`${i}`, 0)
	return s.trace
}
async function differ(L, seed, variant, len, skip) {
	const R = await runSide(L, 'real', seed, variant, len, skip)
	const G = await runSide(L, 'spec', seed, variant, len, skip)
	const d = compareTraces(R, G)
	return d && { d, R, G }
}
/** leaves out every step that the difference does not need */
async function shrink(L, seed, variant, len, first) {
	let best = first, skip = new Set()
	const steps = f => f.G.slice(0, f.d.at + 1).filter(e => e.path !== undefined).map(e => e.path).reverse()
	for (let again = true, n = 0; again && n < 4; n++) {
		again = false
		for (const p of steps(best)) {
			const f = await differ(L, seed, variant, len, new Set([...skip, p]))
			if (f) { best = f; skip = new Set([...skip, p]); again = true }
		}
	}
	return { ...best, skip: [...skip] }
}
export async function history(L, seed, variant, len, skip) {
	const first = await differ(L, seed, variant, len, new Set(skip))
	if (!first) return null
	const { d, R, G, skip: left } = skip ? { ...first, skip } : await shrink(L, seed, variant, len, first)
	const involved = [...new Set([d.op, ...G.slice(0, d.at + 1), ...R.slice(0, d.at + 1)].filter(e => e === d.op || e.path !== undefined).map(e => e.name ?? e))]
	return { ...d, kind: 'history', seed, variant, len, skip: left, involved, real: describeTrace(R.slice(0, d.at + 1)), contract: describeTrace(G.slice(0, d.at + 1)) }
}
export async function lemma(L, which, name, seed, variant, len) {
	const s = new Side(L.comp, L[which], L.harness, seed, L.lits)
	try {
		if (!(await s.construct(variant))) return { skipped: true }
		for (let i = 0; i < len; i++) await s.step(`${i}`, 0)
		const mem = {}
		let n = 0
		for (const ph of Array.isArray(s.h.lemmas[name]) ? s.h.lemmas[name] : [s.h.lemmas[name]]) {
			n++
			s.path = `lemma.${n}`
			if (ph === 'others') { for (let i = s.rand('others').int(3); i > 0; i--) await s.step(`l${n}.${i}`, 1); continue }
			if (ph === 'tick' || ph === 'settle') { if (ph === 'settle') for (const p of s.pending.splice(0)) p(); await flush(); continue }
			s.trace.push({ t: 'op', name: `lemma ${name}` })
			let v = ph(s.sym, s.s, mem, s.subs)
			if (v instanceof Promise) {
				let done = false
				const w = v.then(() => { done = true }, e => { done = true; throw e })
				w.catch(() => { })
				for (let i = 0; i < 8 && !done; i++) { await flush(); for (const p of s.pending.splice(0)) p() }
				await flush()
				if (!done) throw new AssertFail('does not finish')
				await w
			}
		}
		return { ok: true, asserted: s.asserted }
	} catch (e) {
		if (e instanceof Abandon) return { skipped: true }
		return { op: name, kind: 'lemma', why: e instanceof AssertFail ? e.message : `exception ${e?.stack?.split('\n').slice(0, 3).join(' ') ?? e}`, seed, variant, len, real: describeTrace(s.trace) }
	}
}
/** search for a failing input; deterministic in the seed */
export async function search(comp, { seed = 1, runs = 400, onlyOps, budgetMs = 60000 } = {}) {
	const L = await loadComponent(comp)
	const t0 = Date.now()
	const found = []
	const stats = { histories: 0, lemmaRuns: 0, lemmaAsserted: {}, variants: 0 }
	const onRejection = () => { }
	process.on('unhandledRejection', onRejection)
	const variants = L.harness.variants ?? [undefined]
	const failedLemma = new Set(), failedOp = new Set()
	for (let i = 0; i < runs && Date.now() - t0 < budgetMs; i++) {
		for (const v of variants) {
			const s = hash(seed, comp.id, i)
			const len = 1 + Math.floor(i / (runs / 8))
			const d = await history(L, s, v, len)
			stats.histories++
			if (d && !failedOp.has(d.involved.join())) { failedOp.add(d.involved.join()); found.push(d) }
			if (found.length >= 12) return { found, stats, files: L.real.inputs }
			for (const name of Object.keys(L.harness.lemmas ?? {})) {
				if (failedLemma.has(name) || (name.includes(':') && name.split(':')[0] !== v)) continue
				const r = await lemma(L, 'real', name, s, v, len - 1)
				stats.lemmaRuns++
				if (r.asserted) stats.lemmaAsserted[name] = (stats.lemmaAsserted[name] ?? 0) + 1
				if (r.kind) { failedLemma.add(name); found.push(r) }
			}
		}
	}
	process.off('unhandledRejection', onRejection)
	return { found, stats, files: L.real.inputs }
}
