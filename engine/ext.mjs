// Assumed contracts of the libraries and of the platform. Everything here is trusted and listed in the evidence.
import { join } from 'node:path'
import * as S from './smt.mjs'
import { M, Obj, SV, Sy, Thrown, Unsupported, decide, assume, toVal, fromTerm, external, setFieldQuiet, setPieces, pushEvent, quoteName, isFnTerm, born } from './machine.mjs'
import * as O from './objects.mjs'
import { EXT, natives, HERE } from './modules.mjs'

export const assumed = {
	immer: 'immer produce(): runs the recipe on a draft, leaves the base untouched, returns the edited copy (or the value the recipe returned), frozen',
	tersify: 'tersify(): returns a string and has no other effect',
	'standard-log': 'standard-log: getLogger(id) gives a logger that records entries under that id, a method for each standard and custom level; on(level, f) calls f at most once, and nothing else has an effect',
	'sentence-case': 'sentence-case: a function of its argument',
	'js-base64': 'js-base64: decode(encode(s)) = s for every well-formed string',
	mousetrap: 'mousetrap: bind/reset record the binding; the bound handler is called with the event of that key',
	platform: 'platform: os.family names the operating system',
	history: 'history: the factories return a history object',
	'@formatjs/intl': '@formatjs/intl: createIntl() returns an intl object made of its arguments',
	eventemitter3: 'eventemitter3: EventEmitter',
	'iso-error': 'iso-error: errors carry their message, the module and the cause they are given (the library also gives the cause a name)',
	'@unional/events-plus': '@unional/events-plus: trapError() wraps an emitter'
}
/** an exported function of a library that is not looked into: a fixed unknown function */
export function foreign(name) {
	const id = S.constant(quoteName('lib.' + name), S.INT)
	assume(S.lt(id, S.int(0)))
	assume(S.ufun('fn?', [S.INT], S.BOOL)(id))
	return new SV(S.V('VRef', id))
}
const sym = (id, desc) => { const s = M.symbols.get(id) ?? new Sy(id, desc); M.symbols.set(id, s); return s }
const NOTHING = O.NOTHING
const memoSide = (key, make) => { const m = ((M.extra.sideMemo ??= new Map())); const k = M.side + key; if (!m.has(k)) m.set(k, make()); return m.get(k) }

// ------------------------------------------------------------ immer
function markDraft(v, base, seen = new Set()) {
	if (!(v instanceof Obj) || seen.has(v)) return
	seen.add(v)
	if (v.kind !== 'Array' && v.kind !== 'Object') return
	v.isDraft = true
	if (v.pieces) for (const p of v.pieces) if ('e' in p) markDraft(p.e, base, seen)
	for (const s of v.props.values()) if ('v' in s) markDraft(s.v, base, seen)
}
const sameSlot = (a, b) => a === b || (a instanceof SV && b instanceof SV && a.t === b.t) || (!(a instanceof Obj) && !(a instanceof SV) && Object.is(a, b))
/** replace drafts by what they stand for; parts that were not changed keep their identity */
function finalise(v, toBase, done = new Map()) {
	if (!(v instanceof Obj)) return v
	if (done.has(v)) return done.get(v)
	if (!v.isDraft) { // new data: may contain drafts
		done.set(v, v)
		if ((v.kind === 'Array' || v.kind === 'Object') && !v.frozen) {
			if (v.pieces) { const ps = v.pieces.map(p => { if (!('e' in p)) return p; const e = finalise(p.e, toBase, done); return e === p.e ? p : { e } }); if (ps.some((p, i) => p !== v.pieces[i])) setPieces(v, ps) }
			for (const [k, s] of v.props) if ('v' in s) { const e = finalise(s.v, toBase, done); if (e !== s.v) O.define(v, k, e) }
		}
		return v
	}
	done.set(v, v)
	const base = toBase.get(v)
	if (v.pieces) { const ps = v.pieces.map(p => { if (!('e' in p)) return p; const e = finalise(p.e, toBase, done); return e === p.e ? p : { e } }); if (ps.some((p, i) => p !== v.pieces[i])) setPieces(v, ps) }
	for (const [k, s] of v.props) if ('v' in s) { const e = finalise(s.v, toBase, done); if (e !== s.v) v.props.set(k, { ...s, v: e }) }
	v.isDraft = false
	if (base) {
		const samePieces = !v.pieces || (v.pieces.length === base.pieces.length && v.pieces.every((p, i) => p === base.pieces[i] || ('e' in p && 'e' in base.pieces[i] && sameSlot(p.e, base.pieces[i].e)) || ('s' in p && 's' in base.pieces[i] && p.s === base.pieces[i].s)))
		const sameDict = (!v.dict && !base.dict) || (v.dict && base.dict && ['dom', 'map', 'keys', 'syms'].every(f => v.dict[f] === base.dict[f]))
		const sameProps = v.props.size === base.props.size && [...v.props].every(([k, s]) => { const b = base.props.get(k); return b && 'v' in b && sameSlot(s.v, b.v) })
		if (samePieces && sameDict && sameProps) { done.set(v, base); return base }
	}
	return v
}
function freezeDeep(v, seen = new Set()) {
	if (v instanceof SV) { if (v.t.sort === S.VAL) O.freeze(v); return v }
	if (!(v instanceof Obj) || seen.has(v)) return v
	seen.add(v)
	if (v.kind !== 'Array' && v.kind !== 'Object') return v
	O.freeze(v)
	if (v.pieces) for (const p of v.pieces) if ('e' in p) freezeDeep(p.e, seen)
	for (const s of v.props.values()) if ('v' in s) freezeDeep(s.v, seen)
	return v
}
const isNothing = v => v instanceof Sy ? v.id === NOTHING : v instanceof SV && v.t.sort === S.VAL ? decide(S.eq(v.t, S.V('VSym', S.int(NOTHING)))) : false
const immerError = () => { throw O.makeThrown('Error', '[Immer]') }
function produce(base, recipe) {
	base = O.resolve(base)
	const n = memoSide('produce', () => ({ n: 0 })).n++
	if (base instanceof Obj && (base.kind === 'Array' || (base.kind === 'Object' && (base.proto === undefined || base.proto === null)))) {
		const memo = new Map()
		const draft = O.cloneValue(base, memo)
		const toBase = new Map([...memo].map(([b, d]) => [d, b]))
		markDraft(draft)
		let r = O.resolve(O.call(recipe, undefined, [draft]))
		if (r instanceof SV && r.t.sort === S.VAL && decide(S.is('VUndef', r.t))) r = undefined
		if (r !== undefined && r !== draft) {
			const changed = finalise(draft, toBase) !== base
			if (changed) {
				if (!M.extra.editedByCall?.has(draft)) immerError()
				// the environment may or may not have edited the draft
				const t = S.constant(quoteName(`modified!${n}`), S.BOOL)
				if (decide(t)) immerError()
			}
			if (isNothing(r)) return undefined
			return freezeDeep(finalise(r, toBase))
		}
		return freezeDeep(finalise(draft, toBase))
	}
	if (base instanceof Obj && !O.isFunction(base)) throw new Unsupported('produce on ' + base.kind)
	if (base instanceof SV && base.t.sort === S.VAL && decide(S.and(S.is('VRef', base.t), S.not(isFnTerm(base.t))))) {
		if (!decide(S.ufun('draftable?', [S.VAL], S.BOOL)(base.t))) immerError()
		const draft = S.ufun('draft', [S.VAL, S.INT], S.VAL)(base.t, S.int(n))
		external(draft); assume(S.is('VRef', draft)); assume(S.not(isFnTerm(draft)))
		assume(S.not(S.ufun('prom?', [S.INT], S.BOOL)(S.sel('VRef', draft))))
		born(draft)
		let r = O.resolve(O.call(recipe, undefined, [fromTerm(draft)]))
		const t = toVal(r)
		if (decide(S.or(S.is('VUndef', t), S.eq(t, draft)))) {
			const fin = S.ufun('edited', [S.VAL, S.INT], S.VAL)(base.t, S.int(n))
			external(fin); assume(S.is('VRef', fin)); assume(S.not(isFnTerm(fin)))
			assume(S.not(S.ufun('prom?', [S.INT], S.BOOL)(S.sel('VRef', fin))))
			O.freeze(new SV(fin))
			return fromTerm(fin)
		}
		if (decide(S.constant(quoteName(`modified!${n}`), S.BOOL))) immerError()
		if (isNothing(r)) return undefined
		return freezeDeep(r)
	}
	let r = O.resolve(O.call(recipe, undefined, [base]))
	if (O.isUndef(r)) r = base
	if (isNothing(r)) return undefined
	return freezeDeep(r)
}
natives.set('native:immer', () => ({ produce: O.native('produce', (_, [b, f]) => produce(b, f)), nothing: sym(NOTHING, 'immer-nothing') }))

// ------------------------------------------------------------ logging
export const LOG_METHODS = ['fatal', 'error', 'alert', 'critical', 'emergency', 'warn', 'notice', 'info', 'debug', 'trace', 'planck']
/** `via`: the logger (or what it was made of) that the entry goes through */
export function logEvent(level, id, args, via) { pushEvent({ type: 'log', level, id, args: args.pieces ?? args.map(e => ({ e })), ...(via ? { via: via.map(e => ({ e })) } : {}) }) }
const LEVELS = { none: 0, emergency: 100, alert: 200, critical: 300, error: 400, warn: 500, notice: 600, info: 700, debug: 800, trace: 900, planck: Infinity, all: Infinity }
export function nativeLogger(id, extra = {}, via, write) {
	const o = O.makeObject()
	const levels = { ...LEVELS, ...extra }
	const method = m => O.native(m, (_, args) => { logEvent(m, id, args, via); write?.(id, levels[m.replace(/^on /, '')], args) })
	const put = (k, f) => o.props.set(k, { v: f, enumerable: true, writable: true })
	for (const m of Object.keys(levels)) if (m !== 'none' && m !== 'all') put(m, method(m))
	put('id', id)
	put('on', O.native('on', (_, [level, fn]) => {
		logEvent('on', id, [level], via)
		if (write?.silent(levels[level])) return undefined
		const log = method('on ' + (typeof level === 'string' ? level : 'some level'))
		const r = O.call(fn, undefined, [log, fromTerm(external(S.ufun('log.level', [S.VAL], S.VAL)(toVal(level))))])
		if (O.truthy(r)) O.call(log, undefined, [r])
		return undefined
	}))
	put('count', O.native('count', (_, args) => { logEvent('count', id, args, via); if (write) write(id, LEVELS.debug, { pieces: [{ e: fromTerm(external(S.ufun('log.count', [S.VAL], S.VAL)(toVal(id)))) }, ...(args.pieces ?? args.map(e => ({ e })))] }) }))
	return o
}
natives.set('native:standard-log', () => {
	const levels = O.makeObject()
	for (const [k, v] of Object.entries(LEVELS)) levels.props.set(k, { v, enumerable: true, writable: true })
	const names = ['emergency', 'alert', 'critical', 'error', 'warn', 'notice', 'info', 'debug', 'trace', 'planck']
	const out = { logLevels: levels, DEFAULT_LOG_METHOD_NAMES: O.listToArray(names), getLogger: O.native('getLogger', (_, [id]) => nativeLogger(id)) }
	const make = which => O.native(which, (_, [options]) => {
		const o = O.makeObject()
		const custom = {}
		const forTest = which === 'createStandardLogForTest'
		options ??= forTest ? O.makeObject() : undefined
		const given = n => (options === undefined || O.isNullish(options) ? undefined : O.get(options, n))
		const c = given('customLevels')
		if (!O.isNullish(c)) for (const p of O.ownKeyPieces(O.toObj(c), 'string')) { if (!('e' in p)) throw new Unsupported('symbolic custom levels'); custom[p.e] = O.get(c, p.e) }
		const put = (k, v) => o.props.set(k, { v, enumerable: true, writable: true })
		const logLevel = given('logLevel') ?? (which === 'createStandardLog' ? LEVELS.info : LEVELS.debug)
		const reporters = []
		let rs = given('reporters')
		if (forTest) {
			if (!(options instanceof Obj)) throw new Unsupported('symbolic log options')
			O.set(options, 'logLevel', logLevel)
			rs ??= O.makeArray([])
			O.set(options, 'reporters', rs)
		}
		if (rs instanceof Obj && rs.kind === 'Array') for (const p of rs.pieces) { if (!('e' in p)) throw new Unsupported('symbolic reporters'); reporters.push(p.e) }
		if (forTest) {
			let r = reporters.find(r => O.truthy(O.strictEq(O.get(r, 'id'), 'memory')))
			if (!r) {
				r = O.makeObject()
				const logs = O.makeArray([])
				const on = (k, v) => r.props.set(k, { v, enumerable: true, writable: true })
				on('id', 'memory'); on('isConsoleReporter', false); on('logs', logs); on('write', O.native('write', (_, [e]) => { O.call(O.get(logs, 'push'), logs, [e]) }))
				reporters.push(r)
				O.call(O.get(rs, 'push'), rs, [r])
			}
			put('reporter', r)
		}
		const silent = level => { if (typeof logLevel !== 'number' || typeof level !== 'number') throw new Unsupported('symbolic log level'); return level > logLevel }
		const write = kind => Object.assign((id, level, args) => {
			if (silent(level)) return
			for (const r of reporters) {
				if (kind === 'getNonConsoleLogger' && O.truthy(O.get(r, 'isConsoleReporter'))) continue
				const e = O.makeObject()
				for (const [k, v] of Object.entries({ id, level, args: O.makeArray(args.pieces ?? args.map(e => ({ e }))), timestamp: fromTerm(external(S.constant('now', S.VAL))) })) e.props.set(k, { v, enumerable: true, writable: true })
				O.freeze(O.get(e, 'args')); O.freeze(e)
				O.call(O.get(r, 'write'), r, [e])
			}
		}, { silent })
		// loggers use the object that they are got from
		const logger = kind => O.native(kind, (self, [id, opt]) => { O.get(self, 'getLogger'); return nativeLogger(id, custom, [which, options, kind, opt], write(kind)) })
		put('logLevel', logLevel)
		put('getLogger', logger('getLogger'))
		put('getNonConsoleLogger', logger('getNonConsoleLogger'))
		put('toLogLevelName', foreign('toLogLevelName')); put('toLogLevel', foreign('toLogLevel'))
		return o
	})
	out.createStandardLog = make('createStandardLog')
	out.createStandardLogForTest = make('createStandardLogForTest')
	for (const n of ['createConsoleLogReporter', 'createMemoryLogReporter', 'createTimestampFormatter', 'formatLogLevel', 'InvalidId', 'plainLogFormatter', 'StandardLogError', 'suppressLogs', 'toConsoleMethod', 'toLogLevel', 'toLogLevelName', 'toMessageWithLevel']) out[n] = foreign('standard-log.' + n)
	return out
})
natives.set('native:tersify', () => ({ tersify: O.native('tersify', (_, [v]) => fromTerm(S.ufun('tersify', [S.VAL], S.STR)(v instanceof Obj ? S.VNULL : toVal(v)))) }))
natives.set('native:sentence-case', () => ({ sentenceCase: O.native('sentenceCase', (_, [s]) => fromTerm(S.ufun('sentenceCase', [S.STR], S.STR)(O.toStringTerm(s)))) }))
natives.set('native:js-base64', () => ({
	encode: O.native('encode', (_, [s]) => { const t = O.toStringTerm(s); const r = S.ufun('b64enc', [S.STR], S.STR)(t); assume(S.eq(S.ufun('b64dec', [S.STR], S.STR)(r), t)); return fromTerm(r) }),
	decode: O.native('decode', (_, [s]) => { const t = O.toStringTerm(s); return fromTerm(t.op === 'b64enc' ? t.args[0] : S.ufun('b64dec', [S.STR], S.STR)(t)) })
}))
natives.set('native:platform', () => { const os = memoSide('platform', () => fromTerm(external(S.constant('platform.os', S.VAL)))); return { os, default: os } })
natives.set('native:mousetrap', () => {
	const o = O.makeObject()
	for (const m of ['bind', 'reset', 'unbind', 'trigger']) o.props.set(m, { v: O.native(m, (_, args) => { pushEvent({ type: 'effect', name: 'mousetrap.' + m, args: args.pieces ?? args.map(e => ({ e })) }) }), enumerable: true, writable: true })
	return { default: o }
})
for (const [spec, list] of Object.entries({ history: ['createBrowserHistory', 'createMemoryHistory', 'createHashHistory'], '@formatjs/intl': ['createIntl', 'createIntlCache'], eventemitter3: ['EventEmitter'], '@unional/events-plus': ['trapError', 'justEvent'] })) {
	natives.set('native:' + spec, () => Object.fromEntries(list.map(n => [n, foreign(`${spec}.${n}`)])))
	EXT.set(spec, 'native:' + spec)
}
for (const s of ['immer', 'standard-log', 'tersify', 'sentence-case', 'js-base64', 'platform', 'mousetrap']) EXT.set(s, 'native:' + s)
EXT.set('standard-log/testing', 'native:standard-log')
EXT.set('iso-error', join(HERE, 'env/iso-error.js'))

// ------------------------------------------------------------ the page
export function pageGlobals() {
	const lazy = (n, make) => M.globals.set(n, new O.Lazy(make))
	const obj = n => { const t = external(S.constant(quoteName('page.' + n), S.VAL)); assume(S.is('VRef', t)); assume(S.not(isFnTerm(t))); return fromTerm(t) }
	const objs = ['sessionStorage', 'localStorage', 'navigator', 'location'], fns = ['addEventListener', 'removeEventListener', 'fetch', 'setTimeout']
	for (const n of objs) lazy(n, () => obj(n))
	for (const n of fns) lazy(n, () => foreign('page.' + n))
	const whole = M.extra.page = () => memoSide('page', () => { const g = O.makeObject(); for (const [n, v] of M.extra.sideGlobals?.[M.side] ?? []) g.props.set(n, { v, enumerable: true, writable: true }); for (const n of [...objs, ...fns]) if (!g.props.has(n)) g.props.set(n, { v: O.globalValue(n), enumerable: true, writable: true }); return g })
	for (const n of ['globalThis', 'window', 'self']) lazy(n, whole)
}
