// Runtime semantics: properties, calls, arrays as lists of pieces, dictionaries, strings, promises, builtins.
import ts from '/opt/veriftools/node/node_modules/typescript/lib/typescript.js'
import * as S from './smt.mjs'
import { M, Obj, Cell, SV, Sy, TDZ, Thrown, Prune, Unsupported, setCell, initCell, setSlot, delSlot, setPieces, setDict, setFieldQuiet, decide, toVal, fromTerm, assume, keyTerm, convertToDict, external, freshTerm, freshVal, isFnTerm, pushEvent, quoteName, feasible, valid, born } from './machine.mjs'
import { genInterp, syncInterp, isAsync } from './interp.mjs'
import * as L from './loops.mjs'

const K = ts.SyntaxKind
// ------------------------------------------------------------ objects and functions
export function makeObject(proto) { return new Obj('Object', proto) } // undefined: Object.prototype, null: none
export function makeArray(pieces) { const o = new Obj('Array'); o.pieces = pieces; return o }
export const listToArray = vs => makeArray(vs.map(e => ({ e })))
export function makeFunction(node, env, name, home) {
	M.made++
	const o = new Obj('Function')
	o.node = node; o.env = env; o.home = home
	o.fname = name ?? (node.name && ts.isIdentifier(node.name) ? node.name.text : '')
	return o
}
export function native(name, fn) { const o = new Obj('Function'); o.native = fn; o.fname = name; return o }
export function makeClass(node, env, parent, proto, ctorNode) {
	M.made++
	const o = new Obj('Function')
	o.node = ctorNode; o.env = env; o.fname = node.name?.text ?? ''; o.home = proto
	o.cls = { node, parent: parent || null, proto }
	define(o, 'prototype', proto)
	o.props.get('prototype').enumerable = false
	proto.props.set('constructor', { v: o, enumerable: false, writable: true })
	if (parent instanceof Obj) o.proto = parent
	return o
}
export function initFields(f, obj) {
	for (const m of f.cls.node.members) {
		if (!ts.isPropertyDeclaration(m)) continue
		if (m.modifiers?.some(x => x.kind === K.StaticKeyword || x.kind === K.DeclareKeyword)) continue
		if (!m.initializer && m.questionToken) continue
		const key = m.name.text ?? syncInterp.propName(m.name, f.env)
		const env = f.env
		let v
		if (m.initializer) {
			// field initialisers see `this`
			const e = Object.create(Object.getPrototypeOf(env)); e.vars = new Map(); e.parent = env; e.declare('#this', obj)
			v = syncInterp.ev(m.initializer, e)
		}
		define(obj, key, v)
	}
}
export function define(o, key, v) {
	if (o.kind === 'Proxy') return set(o, key, v)
	if (o.dict) return dictSet(o, key, v)
	if (key instanceof SV) { convertToDict(o); return dictSet(o, key, v) }
	setSlot(o, key, { v, enumerable: true, writable: true })
}
export function defineHidden(o, key, v) { setSlot(o, key, { v, enumerable: false, writable: true }) }
export function defineAccessor(o, key, g, s, enumerable = false) {
	const old = o.props.get(key)
	setSlot(o, key, { get: g ?? old?.get, set: s ?? old?.set, enumerable })
}
export const isFunction = v => v instanceof Obj && (v.kind === 'Function' || v.kind === 'Bound' || (v.kind === 'Proxy' && isFunction(v.target)))
// ------------------------------------------------------------ errors
export function makeError(name, msg) {
	const o = new Obj('Error')
	o.ename = name
	o.props.set('message', { v: msg, enumerable: false, writable: true })
	return o
}
export const makeThrown = (name, msg) => new Thrown(makeError(name, msg))
export const typeError = msg => makeThrown('TypeError', msg)
// ------------------------------------------------------------ resolving symbolic values
/** a value with its outermost structure decided: an engine object, a primitive, or an opaque value */
export function resolve(v) {
	if (!(v instanceof SV) || v.t.sort !== S.VAL) return v
	let t = v.t
	for (let i = 0; i < 60; i++) {
		const c = fromTerm(t)
		if (!(c instanceof SV) || c.t !== t) return c instanceof SV ? resolve(c) : c
		if (t.op === 'ite') { t = decide(t.args[0]) ? t.args[1] : t.args[2]; continue }
		const view = viewOf(t)
		if (view) return view
		const refs = M.refs.get(t)
		if (refs) for (const id of refs) if (decide(S.eq(t, S.V('VRef', S.int(id))))) return M.objs.get(id)
		return v.t === t ? v : new SV(t)
	}
	throw new Unsupported('resolve')
}
// ------------------------------------------------------------ frozen plain objects and arrays as values
// A frozen plain object (or array) made by the verified code never changes: where the state holds one, it is described by a
// value whose content is a function of the value. `viewOf` gives the object such a value stands for.
const clsOf = t => S.ufun('cls', [S.INT], S.INT)(S.sel('VRef', t))
const plainOr = t => S.or(S.eq(clsOf(t), S.int(1)), S.eq(clsOf(t), S.int(2)))
const isArrT = t => S.eq(clsOf(t), S.int(3))
const RC = { dom: t => S.ufun('rdom', [S.VAL], S.SETV)(t), map: t => S.ufun('rmap', [S.VAL], S.MAPV)(t), keys: t => S.ufun('rkeys', [S.VAL], S.SEQ)(t), syms: t => S.ufun('rsyms', [S.VAL], S.SEQ)(t), elems: t => S.ufun('relems', [S.VAL], S.SEQ)(t) }
/** the number of the symbol `nothing` of immer */
export const NOTHING = 90
const noPromise = t => S.not(S.ufun('prom?', [S.INT], S.BOOL)(S.sel('VRef', t)))
const notFn = t => S.not(S.ufun('fn?', [S.INT], S.BOOL)(S.sel('VRef', t)))
export function viewOf(t) {
	if (!M.extra.views) return undefined
	const key = M.side + t.id
	const v = M.extra.views.get(key)
	if (M.pcSet.has(isArrT(t))) { if (v) return v; return makeView(key, t, 'Array') }
	if (M.pcSet.has(plainOr(t)) || M.pcSet.has(S.eq(clsOf(t), S.int(1))) || M.pcSet.has(S.eq(clsOf(t), S.int(2)))) {
		const proto = decide(S.eq(clsOf(t), S.int(1))) ? undefined : null
		const k = key + (proto === null ? '0' : '')
		return M.extra.views.get(k) ?? makeView(k, t, 'Object', proto)
	}
	if (t.op === 'select') { // an entry of a record of records
		const ks = M.extra.mapKinds?.get(arrBase(t.args[0]))
		const kind = ks && ['plain', 'arr'].find(k => ks.has(k))
		if (kind) { assumeElem(t.args[0], t.args[1]); if (valid(KINDS.get(kind)(t)) || !decide(S.is('VUndef', t))) { assume(KINDS.get(kind)(t)); declareKinds(t, ks); return viewOf(t) } }
	}
	return undefined
}
function makeView(key, t, kind, proto) {
	const o = new Obj(kind, proto)
	o.frozen = true
	o.asTerm = t
	const sub = M.extra.valKinds?.get(t) ?? new Set()
	const inner = p => new Set([...sub].filter(k => k.startsWith(p + '>') && k !== 'plain>total').map(k => k.slice(p.length + 1)))
	if (kind === 'Array') { declareKinds(RC.elems(t), inner('arr')); o.pieces = [{ s: RC.elems(t) }] }
	else {
		o.dict = baseDict({ dom: RC.dom(t), map: RC.map(t), keys: RC.keys(t), syms: RC.syms(t) }, sub.has('plain>total'))
		declareKinds(o.dict.map, inner('plain'))
		for (const q of [o.dict.keys, o.dict.syms]) (M.extra.seqKind ??= new Map()).set(q, new Set(['distinct']))
	}
	M.extra.views.set(key, o)
	return o
}
/** may the object be described by its value: frozen, and so is everything of the verified code in it */
export function recable(o, depth = 0) {
	if (!(o instanceof Obj)) return true
	if (o.asTerm || o.kind === 'Error') return true
	if (!o.frozen || depth > 6 || o.ghost || o.isDraft || (o.kind !== 'Array' && o.kind !== 'Object')) return false
	if (o.kind === 'Object' && o.proto !== undefined && o.proto !== null) return false
	if (o.pieces && !o.pieces.every(p => ('e' in p ? recable(p.e, depth + 1) : 's' in p ? recableTerm(p.s, depth) : p.comp.alts.every(a => p.items(a).every(x => recable(x, depth + 1)))))) return false
	if (o.dict && (o.props.size || !recableTerm(o.dict.map, depth))) return false
	for (const s of o.props.values()) if (!('v' in s) || s.enumerable === false || !recable(s.v, depth + 1) || (s.v instanceof SV && !recableTerm(s.v.t, depth))) return false
	return true
}
export function recableTerm(t, depth = 0) { const ids = new Set(); L.collectRefs(t, ids); return [...ids].every(id => recable(M.objs.get(id), depth + 1)) }
/** the content of a frozen plain object, as terms */
export function contentOf(o) {
	if (o.asTerm) return o.kind === 'Array' ? { elems: RC.elems(o.asTerm) } : { ...o.dict }
	if (o.kind === 'Array') return { elems: seqTerm(o.pieces) }
	if (o.dict) return { ...o.dict }
	let dom = S.constArr(S.SETV, S.FALSE), map = S.constArr(S.MAPV, S.VUNDEF), keys = S.SEMPTY, syms = S.SEMPTY
	for (const [k, slot] of o.props) {
		const kt = keyTerm(k)
		dom = S.store(dom, kt, S.TRUE); map = S.store(map, kt, toVal(slot.v))
		if (typeof k === 'string') keys = S.scat(keys, S.unit(kt)); else syms = S.scat(syms, S.unit(kt))
	}
	return { dom, map, keys, syms }
}
/** what the solver has to know about an own frozen object that a value may turn out to be */
export function assertContent(id) {
	const o = M.objs.get(id)
	if (!o || o.asTerm || !(o instanceof Obj) || !o.frozen || !recable(o)) return
	const t = S.V('VRef', S.int(id)), n = S.int(id)
	const facts = [S.eq(S.ufun('cls', [S.INT], S.INT)(n), S.int(o.kind === 'Array' ? 3 : o.proto === null ? 2 : 1)), S.ufun('frozen?', [S.INT], S.BOOL)(n), notFn(t), noPromise(t)]
	if (M.pcSet.has(facts[0])) return
	for (const [f, c] of Object.entries(contentOf(o))) facts.push(S.eq(RC[f](t), c))
	for (const f of facts) assume(f)
	const ids = new Set()
	for (const c of Object.values(contentOf(o))) L.collectRefs(c, ids)
	for (const i of ids) assertContent(i)
}
export function isUndef(v) { if (v instanceof SV) { if (v.t.sort !== S.VAL) return false; return decide(S.is('VUndef', v.t)) } return v === undefined }
export function isNullish(v) { if (v instanceof SV) { if (v.t.sort !== S.VAL) return false; return decide(S.or(S.is('VUndef', v.t), S.is('VNull', v.t))) } return v === undefined || v === null }
export function truthTerm(v) {
	if (v instanceof SV) {
		const t = v.t
		switch (t.sort) {
			case S.BOOL: return t
			case S.INT: return S.not(S.eq(t, S.int(0)))
			case S.REAL: return S.not(S.eq(t, S.realLit(0)))
			case S.STR: return S.not(S.eq(t, S.str('')))
		}
		if (t.op === 'ite') return S.ite(t.args[0], truthTerm(fromTerm(t.args[1])), truthTerm(fromTerm(t.args[2])))
		if (valid(S.is('VRef', t))) return S.TRUE
		return S.or(S.is('VRef', t), S.is('VSym', t), S.is('VInf', t), S.and(S.is('VBool', t), S.sel('VBool', t)), S.and(S.is('VNum', t), S.not(S.eq(S.sel('VNum', t), S.realLit(0)))), S.and(S.is('VStr', t), S.not(S.eq(S.sel('VStr', t), S.str('')))))
	}
	return S.bool(v instanceof Obj || v instanceof Sy ? true : !!v)
}
export const truthy = v => decide(truthTerm(v))
export const isTrue = t => decide(t)
const kindTerm = t => S.ite(S.is('VUndef', t), S.str('undefined'), S.ite(S.is('VBool', t), S.str('boolean'), S.ite(S.is('VStr', t), S.str('string'), S.ite(S.is('VSym', t), S.str('symbol'), S.ite(isFnTerm(t), S.str('function'), S.ite(S.or(S.is('VRef', t), S.is('VNull', t)), S.str('object'), S.str('number')))))))
export function typeOf(v) {
	v = resolve(v)
	if (v instanceof SV) {
		switch (v.t.sort) { case S.BOOL: return 'boolean'; case S.STR: return 'string'; case S.INT: case S.REAL: return 'number' }
		return new SV(kindTerm(v.t))
	}
	if (v instanceof Sy) return 'symbol'
	if (v instanceof Obj) return isFunction(v) ? 'function' : 'object'
	return typeof v
}
/** narrow an unknown value to a typed symbolic one where its type matters */
export function narrow(v) {
	v = resolve(v)
	if (!(v instanceof SV) || v.t.sort !== S.VAL) return v
	const t = v.t
	if (decide(S.is('VRef', t))) return v
	if (decide(S.is('VStr', t))) return fromTerm(S.sel('VStr', t))
	if (decide(S.is('VUndef', t))) return undefined
	if (decide(S.is('VNull', t))) return null
	if (decide(S.is('VBool', t))) return fromTerm(S.sel('VBool', t))
	if (decide(S.is('VNum', t))) return fromTerm(S.sel('VNum', t))
	if (decide(S.is('VNaN', t))) return NaN
	if (decide(S.is('VNegZ', t))) return -0
	return v
}
// ------------------------------------------------------------ equality
const isNumSort = t => t.sort === S.INT || t.sort === S.REAL
export function sameValue(a, b) { // Object.is
	if (a instanceof Obj && b instanceof Obj && !a.asTerm && !b.asTerm) return S.bool(a === b)
	return S.eq(toVal(a), toVal(b))
}
const isPlain = v => !(v instanceof SV)
export function strictEq(a, b) {
	if (isPlain(a) && isPlain(b) && !(a?.asTerm || b?.asTerm)) return S.bool(a === b)
	if (a instanceof SV && b instanceof SV && a.t.sort === b.t.sort && a.t.sort !== S.VAL) return S.eq(a.t, b.t)
	if (a instanceof SV && b instanceof SV && isNumSort(a.t) && isNumSort(b.t)) return S.eq(a.t, b.t)
	if (a instanceof SV && a.t.sort === S.STR && typeof b === 'string') return eqLit(a.t, b)
	if (b instanceof SV && b.t.sort === S.STR && typeof a === 'string') return eqLit(b.t, a)
	if (a instanceof SV && a.t.sort === S.INT && Number.isInteger(b)) return S.eq(a.t, S.int(b))
	if (b instanceof SV && b.t.sort === S.INT && Number.isInteger(a)) return S.eq(b.t, S.int(a))
	if (Number.isNaN(a) || Number.isNaN(b)) return S.FALSE
	const x = toVal(a), y = toVal(b)
	const numeric = v => !(v instanceof SV) ? typeof v === 'number' : v.t.sort === S.VAL || isNumSort(v.t)
	const e = S.eq(x, y)
	if (!numeric(a) || !numeric(b)) return e
	const zero = S.V('VNum', S.realLit(0))
	const zish = (p, q) => S.and(S.eq(p, zero), S.is('VNegZ', q))
	return S.or(S.and(e, S.not(S.is('VNaN', x))), zish(x, y), zish(y, x))
}
function eqLit(t, s) {
	if (t.op === 'ite') return S.ite(t.args[0], eqLit(t.args[1], s), eqLit(t.args[2], s))
	return S.eq(t, S.str(s))
}
export function looseEq(a, b) {
	if (a === null || a === undefined || b === null || b === undefined) {
		const o = a === null || a === undefined ? b : a
		if (o instanceof SV) return o.t.sort === S.VAL ? S.or(S.is('VUndef', o.t), S.is('VNull', o.t)) : S.FALSE
		return S.bool(o === null || o === undefined)
	}
	return strictEq(a, b)
}
export function sameValueZero(a, b) {
	if (isPlain(a) && isPlain(b) && !(a instanceof Obj)) return S.bool([a].includes(b))
	const x = toVal(a), y = toVal(b), zero = S.V('VNum', S.realLit(0))
	const num = v => !(v instanceof SV) ? typeof v === 'number' : v.t.sort === S.VAL
	if (!num(a) || !num(b)) return S.eq(x, y)
	return S.or(S.eq(x, y), S.and(S.eq(x, zero), S.is('VNegZ', y)), S.and(S.eq(y, zero), S.is('VNegZ', x)))
}
// ------------------------------------------------------------ numbers and strings
export function toNumber(v) {
	v = narrow(v)
	if (v instanceof SV) { if (isNumSort(v.t)) return v; if (v.t.sort === S.STR) return new SV(S.ufun('str2num', [S.STR], S.REAL)(v.t)); throw new Unsupported('number conversion') }
	if (v instanceof Obj || v instanceof Sy) throw new Unsupported('number conversion')
	return Number(v)
}
export const numTerm = v => (v instanceof SV ? v.t : Number.isInteger(v) && !Object.is(v, -0) ? S.int(v) : S.realLit(v))
export function intTerm(v) { v = narrow(v); if (v === undefined) return S.int(0); const t = numTerm(v); if (t.sort !== S.INT) throw new Unsupported('integer expected'); return t }
export function arith(op, a, b, neg) {
	a = toNumber(a); b = toNumber(b)
	if (!(a instanceof SV) && !(b instanceof SV)) { if (neg) return -b; return op === '+' ? a + b : op === '-' ? a - b : op === '*' ? a * b : op === '/' ? a / b : a % b }
	for (const x of [a, b]) if (!(x instanceof SV) && !Number.isFinite(x)) throw new Unsupported('arithmetic on non-finite numbers')
	const x = numTerm(a), y = numTerm(b)
	switch (op) {
		case '+': return fromTerm(S.add(x, y))
		case '-': return fromTerm(S.sub(x, y))
		case '*': return fromTerm(S.mul(x, y))
	}
	throw new Unsupported('arithmetic ' + op)
}
export function binop(op, a, b) {
	if (op === '+') {
		a = narrow(a); b = narrow(b)
		const isS = v => typeof v === 'string' || (v instanceof SV && v.t.sort === S.STR) || v instanceof Obj || (v instanceof SV && v.t.sort === S.VAL)
		if (isS(a) || isS(b)) return concatenated(S.concat(toStringTerm(a), toStringTerm(b)))
	}
	return arith(op, a, b)
}
/** texts up to a separator that they do not contain are told apart by the texts in front of it */
export function concatenated(t) {
	if (t.op === 'str.++' && S.strLit(t.args[0]) === undefined && S.strLit(t.args[1])) {
		const a = t.args[0], sep = S.str(S.strLit(t.args[1])[0]), all = (M.extra.concats ??= new Set()), has = x => S.strOp('str.contains', [x, sep], S.BOOL)
		for (const u of all) {
			const c = u.args[0]
			if (u === t || c === a || S.strLit(u.args[1])[0] !== S.strLit(sep)) continue
			const whole = x => x.args.length > 2 || S.strLit(x.args[1]).length > 1
			const alike = S.or(S.eq(t, u), ...(!whole(t) ? [S.strOp('str.prefixof', [t, u], S.BOOL)] : []), ...(!whole(u) ? [S.strOp('str.prefixof', [u, t], S.BOOL)] : []))
			assume(S.or(has(a), has(c), S.not(alike), S.eq(a, c)))
		}
		all.add(t)
	}
	return fromTerm(t)
}
export function less(a, b) {
	a = narrow(a); b = narrow(b)
	if (!(a instanceof SV) && !(b instanceof SV)) return S.bool(a < b)
	const st = v => typeof v === 'string' || (v instanceof SV && v.t.sort === S.STR)
	if (st(a) && st(b)) return S.strOp('str.<', [strTerm(a), strTerm(b)], S.BOOL)
	a = toNumber(a); b = toNumber(b)
	if (Number.isNaN(a) || Number.isNaN(b) || a === Infinity || b === -Infinity) return S.FALSE
	if (b === Infinity || a === -Infinity) return S.TRUE
	return S.lt(numTerm(a), numTerm(b))
}
export function lessEq(a, b) { if (!(a instanceof SV) && !(b instanceof SV)) return S.bool(a <= b); a = narrow(a); b = narrow(b); if (a === undefined || b === undefined || Number.isNaN(a) || Number.isNaN(b)) return S.FALSE; return S.not(less(b, a)) }
export const strTerm = v => (v instanceof SV ? v.t : S.str(v))
const tostr = () => S.ufun('tostr', [S.VAL], S.STR)
export function toStringTerm(v) {
	if (typeof v === 'string') return S.str(v)
	v = resolve(v)
	if (v instanceof SV) {
		if (v.t.sort === S.STR) return v.t
		if (v.t.sort === S.BOOL) return S.ite(v.t, S.str('true'), S.str('false'))
		if (v.t.sort === S.VAL) {
			if (valid(S.is('VStr', v.t))) return S.sel('VStr', v.t)
			return S.ite(S.is('VStr', v.t), S.sel('VStr', v.t), S.ite(S.is('VUndef', v.t), S.str('undefined'), tostr()(v.t)))
		}
		return tostr()(toVal(v))
	}
	if (v instanceof Sy) throw typeError('Cannot convert a Symbol value to a string')
	if (v instanceof Obj) {
		const f = get(v, 'toString')
		if (f instanceof Obj && (f.node || f.userNative)) return toStringTerm(call(f, v, []))
		return S.strOp('objstr', [], S.STR) && tostr()(S.V('VNull'))
	}
	return S.str(String(v))
}
export function toKey(v) {
	if (typeof v === 'string') return v
	v = resolve(v)
	if (v instanceof Sy) return v
	if (v instanceof SV) {
		if (v.t.sort === S.STR || v.t.sort === S.INT) return v
		if (v.t.sort === S.VAL) {
			if (decide(S.is('VStr', v.t))) return fromTerm(S.sel('VStr', v.t))
			if (decide(S.is('VSym', v.t))) return v
			return fromTerm(toStringTerm(v))
		}
		return fromTerm(toStringTerm(v))
	}
	if (v instanceof Obj) return fromTerm(toStringTerm(v))
	return String(v)
}
/** the character there, if any */
const charAt = (t, i) => (decide(S.and(S.le(S.int(0), i), S.lt(i, slenS(t)))) ? fromTerm(S.strOp('str.at', [t, i], S.STR)) : undefined)
const slenS = S.strlen
const clamp = (i, n) => S.ite(S.lt(i, S.int(0)), S.ite(S.lt(S.add(n, i), S.int(0)), S.int(0), S.add(n, i)), S.ite(S.lt(n, i), n, i))
export function stringMethod(self, name) {
	return native(name, (_this, args) => {
		const s = _this
		if (typeof s === 'string' && args.every(a => !(a instanceof SV) && (!(a instanceof Obj) || a.kind === 'RegExp')) && typeof ''[name] === 'function') {
			const r = s[name](...args.map(a => (a instanceof Obj ? a.re : a)))
			return Array.isArray(r) ? listToArray([...r]) : r
		}
		const t = toStringTerm(s)
		switch (name) {
			case 'toString': case 'valueOf': return s
			case 'indexOf': return fromTerm(S.strOp('str.indexof', [t, toStringTerm(args[0]), args[1] === undefined ? S.int(0) : intTerm(args[1])], S.INT))
			case 'includes': return fromTerm(S.strOp('str.contains', [t, toStringTerm(args[0])], S.BOOL))
			case 'startsWith': if (args[1] !== undefined) break; return fromTerm(S.strOp('str.prefixof', [toStringTerm(args[0]), t], S.BOOL))
			case 'endsWith': if (args[1] !== undefined) break; return fromTerm(S.strOp('str.suffixof', [toStringTerm(args[0]), t], S.BOOL))
			case 'slice': {
				if (args[1] === undefined && args[0] >= 0 && t.op === 'str.++' && S.strLit(t.args[0])?.length >= args[0]) return fromTerm(S.concat(S.str(S.strLit(t.args[0]).slice(args[0])), ...t.args.slice(1)))
				const n = slenS(t), i = clamp(intTerm(args[0]), n), j = args[1] === undefined ? n : clamp(intTerm(args[1]), n)
				return fromTerm(S.strOp('str.substr', [t, i, S.ite(S.lt(i, j), S.sub(j, i), S.int(0))], S.STR))
			}
			case 'substring': {
				if (args[1] === undefined && args[0] >= 0 && t.op === 'str.++' && S.strLit(t.args[0])?.length >= args[0]) return fromTerm(S.concat(S.str(S.strLit(t.args[0]).slice(args[0])), ...t.args.slice(1)))
				const n = slenS(t), cl = x => S.ite(S.lt(x, S.int(0)), S.int(0), S.ite(S.lt(n, x), n, x))
				const a = cl(intTerm(args[0])), b = args[1] === undefined ? n : cl(intTerm(args[1]))
				const lo = S.ite(S.lt(b, a), b, a), hi = S.ite(S.lt(b, a), a, b)
				return fromTerm(S.strOp('str.substr', [t, lo, S.sub(hi, lo)], S.STR))
			}
			case 'concat': return fromTerm(S.concat(t, ...args.map(toStringTerm)))
			case 'padEnd': case 'padStart': {
				const n = intTerm(args[0]), fill = args[1] === undefined ? ' ' : args[1]
				if (fill === '') return s
				if (typeof fill === 'string' && S.intVal(n) !== undefined) {
					const rest = S.strOp('str.substr', [S.str(fill.repeat(Math.max(0, S.intVal(n)))), S.int(0), S.sub(n, slenS(t))], S.STR)
					return fromTerm(S.ite(S.le(n, slenS(t)), t, name === 'padEnd' ? S.concat(t, rest) : S.concat(rest, t)))
				}
				const r = S.ufun(name, [S.STR, S.INT, S.STR], S.STR)(t, n, toStringTerm(fill))
				assume(S.ite(S.le(n, slenS(t)), S.eq(r, t), S.and(S.eq(slenS(r), n), S.strOp(name === 'padEnd' ? 'str.prefixof' : 'str.suffixof', [t, r], S.BOOL))))
				return fromTerm(r)
			}
			case 'replace': case 'replaceAll': {
				let p = args[0], all = name === 'replaceAll'
				const by = narrow(args[1])
				if (!(typeof by === 'string' || (by instanceof SV && by.t.sort === S.STR))) throw new Unsupported('replacement by other than a string')
				if (p instanceof Obj && p.kind === 'RegExp') {
					const text = literalOf(p.re)
					if (text === undefined) return fromTerm(S.ufun(plainName(`replace ${p.source}`), [S.STR, S.STR], S.STR)(t, strTerm(by)))
					all = p.re.global; p = text
				}
				return fromTerm(replaced(all, t, toStringTerm(p), strTerm(by)))
			}
			case 'trim': case 'toUpperCase': case 'toLowerCase': case 'normalize': return fromTerm(S.ufun('s_' + name, [S.STR], S.STR)(t))
			case 'charAt': return fromTerm(S.strOp('str.at', [t, intTerm(args[0])], S.STR))
			case 'at': { const i = intTerm(args[0]); return charAt(t, S.ite(S.lt(i, S.int(0)), S.add(slenS(t), i), i)) }
			case 'split': {
				const sep = args[0]
				if (typeof sep !== 'string') break
				return makeArray([{ s: S.ufun('s_split', [S.STR, S.STR], S.SEQ)(t, S.str(sep)) }])
			}
		}
		throw new Unsupported('string method ' + name)
	})
}
/** the text that a regular expression matches, when there is just one */
const literalOf = re => (/^(?:[\w +:;,<>="'`~!@#%&-]|\\[^\w])+$/.test(re.source) && /^g?$/.test(re.flags) ? re.source.replace(/\\(.)/g, '$1') : undefined)
/** the first occurrence, or all, replaced: a function of the three strings, of which the solver need not know more */
function replaced(all, t, p, by) {
	const [a, b, c] = [t, p, by].map(S.strLit)
	if (a !== undefined && b !== undefined && c !== undefined) return S.str(all ? a.replaceAll(b, c) : a.replace(b, c))
	if (!all && c !== undefined && !c.includes('$')) return S.strOp('str.replace', [t, p, by], S.STR)
	return S.ufun(all ? 'replaceAll' : 'replaceFirst', [S.STR, S.STR, S.STR], S.STR)(t, p, by)
}
export function makeRegExp(text) { const o = new Obj('RegExp'); o.source = text; const i = text.lastIndexOf('/'); o.re = new RegExp(text.slice(1, i), text.slice(i + 1)); return o }
// ------------------------------------------------------------ dictionaries
const OBJECT_PROTO = ['constructor', '__defineGetter__', '__defineSetter__', 'hasOwnProperty', '__lookupGetter__', '__lookupSetter__', 'isPrototypeOf', 'propertyIsEnumerable', 'toString', 'valueOf', '__proto__', 'toLocaleString']
function protoTerm(k) { // what a key finds on Object.prototype
	let r = S.VUNDEF
	for (const n of OBJECT_PROTO) r = S.ite(S.eq(k, keyTerm(n)), protoMember(n), r)
	return r
}
function protoMember(n) {
	const id = S.constant(quoteName('Object.prototype.' + n), S.INT)
	assume(S.lt(id, S.int(0)))
	if (n !== '__proto__') assume(S.ufun('fn?', [S.INT], S.BOOL)(id))
	return S.V('VRef', id)
}
function arrBase(a) { while (a.op === 'store') a = a.args[0]; return a }
/** the content of a dictionary that is known by name: what is true of it can be said when one of its entries is looked at */
export function baseDict(d, total = M.extra.totals?.has(`${d.dom.id}|${d.map.id}`) ?? false) {
	if (d.dom.op !== 'store' && d.dom.op !== 'constarr' && d.dom.op !== 'ite') { const m = M.extra.dicts ??= new Map(); m.set(d.dom, [...(m.get(d.dom) ?? []).filter(x => x.map !== d.map), { ...d, total }]) }
	return d
}
/** every entry of the dictionary has a value, given that this holds of those it comes from */
export function isTotal(dom, map, prove) {
	const k = S.constant('k!total', S.VAL), total = (dom, map) => S.eq(S.select(dom, k), S.not(S.is('VUndef', S.select(map, k))))
	return prove(total(dom, map), S.and(...[...M.extra.dicts?.values() ?? []].flat().filter(d => d.total).map(d => total(d.dom, d.map))))
}
/** an entry of a dictionary is looked at */
export function lookAt(domT, k, map) {
	for (const d of M.extra.dicts?.get(arrBase(domT)) ?? []) {
		if (d.total) assume(S.eq(S.select(d.dom, k), S.not(S.is('VUndef', S.select(d.map, k)))))
		const fact = S.eq(S.select(d.dom, k), map ? containsTerm(d.keys, k) : S.ite(S.is('VSym', k), containsTerm(d.syms, k), S.and(S.is('VStr', k), containsTerm(d.keys, k))))
		;(M.extra.lazy ??= new Set()).add(fact)
	}
}
function assumeElem(mapT, k) { // what lives in a havocked dictionary comes from outside
	const base = arrBase(mapT)
	if (base.op === 'constarr' || base.op === 'ite') return
	const t = S.select(base, k)
	external(t, M.refs.get(base) ?? [])
	const kind = M.extra.mapKind?.get(base)
	if (kind) assume(kind(t, k))
}
export function dictGet(o, key) {
	const k = keyTerm(key), d = o.dict
	lookAt(d.dom, k)
	assumeElem(d.map, k)
	const dom = S.select(d.dom, k)
	let other = S.VUNDEF
	if (o.proto === undefined) other = dom === S.TRUE ? S.VUNDEF : protoTerm(k)
	else if (o.proto instanceof Obj) other = toVal(getFrom(o.proto, key, o))
	const t = S.select(d.map, k)
	if (o.isDraft) (M.extra.draftReads ??= new Set()).add(t)
	if (o.asTerm && typeof key === 'string') { const kind = M.extra.fieldKind?.get(key); if (kind) assume(S.or(S.not(dom), kind(t))) }
	return fromTerm(S.ite(dom, t, other))
}
const krem = () => S.ufun('krem', [S.SEQ, S.VAL], S.SEQ)
export function dictSet(o, key, v) {
	const k = keyTerm(key), d = o.dict
	lookAt(d.dom, k)
	const has = S.select(d.dom, k)
	const isSym = k.op === 'VSym' || (k.op !== 'VStr' && decide(S.is('VSym', k)))
	const addTo = q => S.ite(has, q, S.scat(q, S.unit(k)))
	setDict(o, { dom: S.store(d.dom, k, S.TRUE), map: S.store(d.map, k, toVal(v)), keys: isSym ? d.keys : addTo(d.keys), syms: isSym ? addTo(d.syms) : d.syms })
}
export function dictRemove(o, key) {
	const k = keyTerm(key), d = o.dict
	lookAt(d.dom, k)
	const has = S.select(d.dom, k)
	if (has === S.FALSE) return
	const isSym = k.op === 'VSym' || (k.op !== 'VStr' && decide(S.is('VSym', k)))
	const rem = q => S.ite(has, krem()(q, k), q)
	setDict(o, { dom: S.store(d.dom, k, S.FALSE), map: S.store(d.map, k, S.VUNDEF), keys: isSym ? d.keys : rem(d.keys), syms: isSym ? rem(d.syms) : d.syms })
}
/** own keys as pieces; string keys in order, then symbols */
/** l >>> 0 of an integer */
export function unsigned(l, r) {
	if (!(l instanceof SV) && !(r instanceof SV)) return l >>> r
	if (r !== 0 || !(l instanceof SV) || l.t.sort !== S.INT) throw new Unsupported('shift of a symbolic number')
	const u = S.ufun('uint32', [S.INT], S.INT)(l.t), max = S.int(2 ** 32)
	assume(S.le(S.int(0), u)); assume(S.lt(u, max))
	assume(S.or(S.lt(l.t, S.int(0)), S.le(max, l.t), S.eq(u, l.t)))
	return new SV(u)
}
export function ownKeyPieces(o, which = 'both', enumerableOnly = true) {
	const out = []
	if (o instanceof SV) return [{ s: S.ufun('okeys', [S.VAL], S.SEQ)(o.t), kind: t => S.is('VStr', t), dom: null }]
	if (o.kind === 'Proxy') throw new Unsupported('keys of a proxy')
	if (o.pieces && which !== 'sym') throw new Unsupported('keys of an array')
	const strs = [], syms = []
	for (const [k, s] of o.props) if (!enumerableOnly || s.enumerable !== false) (typeof k === 'string' ? strs : syms).push({ e: k })
	const isIdx = p => /^(0|[1-9]\d*)$/.test(p.e)
	const ints = strs.filter(isIdx).sort((a, b) => a.e - b.e)
	if (which !== 'sym') out.push(...ints, ...strs.filter(p => !isIdx(p)))
	if (o.dict && which !== 'sym') out.push(...seqPieces(o.dict.keys, { kind: t => S.and(S.is('VStr', t), S.select(o.dict.dom, t)), dom: o.dict.dom, sort: 'VStr' }))
	if (which !== 'string') out.push(...syms)
	if (o.dict && which !== 'string') out.push(...seqPieces(o.dict.syms, { kind: t => S.and(S.is('VSym', t), S.select(o.dict.dom, t)), dom: o.dict.dom, sort: 'VSym' }))
	return out
}
export function seqPieces(t, info = {}) {
	if (t === S.SEMPTY) return []
	if (t.op === 'seq.unit') return [{ e: fromTerm(t.args[0]) }]
	if (t.op === 'seq.++' && t.args.every(a => a.op === 'seq.unit')) return t.args.map(a => ({ e: fromTerm(a.args[0]) }))
	return [{ s: t, ...info }]
}
// ------------------------------------------------------------ property access
export function toObj(v) {
	v = resolve(v)
	if (v instanceof Obj || v instanceof SV) return v
	throw typeError('not an object: ' + String(v))
}
export function hasOwn(o, key) { // Term
	o = resolve(o)
	if (o instanceof SV) return S.ufun('ohas', [S.VAL, S.VAL], S.BOOL)(toVal(o), keyTerm(key))
	if (o.kind === 'Proxy') return hasOwn(o.target, key)
	if (key instanceof SV && !o.dict) { if (o.pieces) throw new Unsupported('own key of an array'); convertToDict(o) }
	if (!(key instanceof SV) && o.props.has(key)) return S.TRUE
	if (o.pieces) return key === 'length' ? S.TRUE : /^\d+$/.test(key) ? S.lt(S.int(Number(key)), lengthTerm(o)) : S.FALSE
	if (o.dict && o.kind !== 'Map') { lookAt(o.dict.dom, keyTerm(key)); return S.select(o.dict.dom, keyTerm(key)) }
	if (isFunction(o) && (key === 'name' || key === 'length' || (key === 'prototype' && o.cls))) return S.TRUE
	return S.FALSE
}
export function hasProp(o, key) {
	if (o instanceof SV) return S.ufun('ohas', [S.VAL, S.VAL], S.BOOL)(toVal(o), keyTerm(key))
	const own = hasOwn(o, key)
	if (own === S.TRUE) return own
	let inh
	if (o.proto instanceof Obj) inh = hasProp(o.proto, key)
	else if (o.proto === null) inh = S.FALSE
	else if (key instanceof SV) inh = S.or(...OBJECT_PROTO.map(n => S.eq(keyTerm(key), keyTerm(n))))
	else inh = S.bool(get(o, key) !== undefined)
	return S.or(own, inh)
}
export function get(base, key) {
	if (typeof key === 'number') { if (base instanceof Obj && base.pieces) return arrayAt(base, key); key = String(key) }
	base = resolve(base)
	if (base instanceof SV && base.t.sort === S.VAL && !valid(S.is('VRef', base.t))) base = narrow(base)
	if (base === undefined || base === null) throw typeError(`Cannot read properties of ${base} (reading '${key instanceof SV ? '?' : String(key.desc ?? key)}')`)
	if (base instanceof Obj) return getFrom(base, key, base)
	if (typeof base === 'string' || (base instanceof SV && base.t.sort === S.STR)) {
		if (key === 'length') return fromTerm(slenS(strTerm(base)))
		if (typeof key === 'string' && /^(0|[1-9]\d*)$/.test(key)) return charAt(strTerm(base), S.int(Number(key)))
		if (key instanceof SV && key.t.sort === S.INT) return charAt(strTerm(base), key.t)
		if (typeof key !== 'string') throw new Unsupported('string member')
		return typeof ''[key] === 'function' ? stringMethod(base, key) : undefined
	}
	if (typeof base === 'boolean' || typeof base === 'number' || base instanceof Sy || base.t?.sort === S.BOOL || base.t?.sort === S.INT || base.t?.sort === S.REAL) {
		if (key === 'toString') return native('toString', (self, [radix]) => {
			if (!(self instanceof SV)) return self.toString(radix)
			const x = S.toReal(numTerm(self))
			if (radix === 36 && valid(S.and(S.le(S.realLit(0), x), S.lt(x, S.realLit(1))))) {
				// 0, or "0." and some digits
				if (decide(S.eq(x, S.realLit(0)))) return '0'
				if (M.extra.draws?.has(x)) return fromTerm(S.concat(S.str('0.'), S.ufun('digits36of11', [S.REAL], S.STR)(x)))
				const d = S.ufun('digits36', [S.REAL], S.STR)(x)
				assume(S.lt(S.int(0), slenS(d)))
				return fromTerm(S.concat(S.str('0.'), d))
			}
			const r = S.ufun('num2str', [S.REAL, S.INT], S.STR)(x, S.int(radix ?? 10))
			assume(S.lt(S.int(0), slenS(r)))
			return fromTerm(r)
		})
		return undefined
	}
	return opaqueGet(base, key)
}
/** a member of an object that belongs to the environment */
function opaqueGet(o, key) {
	if (key instanceof SV || key instanceof Sy) return fromTerm(external(S.ufun('ofld', [S.VAL, S.VAL], S.VAL)(o.t, keyTerm(key))))
	if (key === 'then' || key === 'catch' || key === 'finally') {
		const isP = S.ufun('prom?', [S.INT], S.BOOL)(S.sel('VRef', o.t))
		if (decide(S.and(S.is('VRef', o.t), isP))) { assume(S.not(isFnTerm(o.t))); return promiseMethod(key) }
		if (key === 'then') return undefined
	}
	if (decide(isFnTerm(o.t))) {
		const m = functionMethod(key)
		if (m) return m
	}
	const t = external(S.ufun(quoteName('fld.' + key), [S.VAL], S.VAL)(o.t))
	const kind = M.extra.fieldKind?.get(key)
	if (kind) assume(kind(t))
	return fromTerm(t)
}
export function getFrom(o, key, self) {
	if (o === undefined || o === null) return undefined
	if (o.kind === 'Proxy') {
		const trap = get(o.handler, 'get')
		return trap === undefined ? get(o.target, key) : call(trap, o.handler, [o.target, key instanceof SV || key instanceof Sy ? key : key, o])
	}
	if (o.pieces && o.kind === 'Array') {
		if (key instanceof SV && key.t.sort === S.INT) return arrayAtTerm(o, key.t)
		if (key === 'length') return fromTerm(lengthTerm(o))
		if (typeof key === 'string' && /^\d+$/.test(key)) return arrayAt(o, Number(key))
	}
	if (!(key instanceof SV)) {
		const s = o.props.get(key)
		if (s) { if (s.get) return call(s.get, self, []); if (s.set) return undefined; return s.v }
	} else if (!o.dict && !o.pieces && o.kind !== 'Function') convertToDict(o)
	if (o.kind === 'Map' && key instanceof SV) throw new Unsupported('member of a map')
	if (o.dict && o.kind !== 'Map') {
		if (o.proto === undefined && !(key instanceof SV)) {
			const own = S.select(o.dict.dom, keyTerm(key))
			if (own === S.FALSE) return builtinMember(o, key)
			const b = builtinMember(o, key)
			if (b !== undefined) { if (decide(own)) { assumeElem(o.dict.map, keyTerm(key)); return fromTerm(S.select(o.dict.map, keyTerm(key))) } return b }
		}
		return dictGet(o, key)
	}
	if (o.proto instanceof Obj) return getFrom(o.proto, key, self)
	if (o.proto === null) return undefined
	return builtinMember(o, key)
}
export function set(base, key, v) {
	if (typeof key === 'number') key = String(key)
	base = resolve(base)
	if (base === undefined || base === null) throw typeError(`Cannot set properties of ${base}`)
	if (!(base instanceof Obj)) throw new Unsupported('assignment to a member of an object of the environment')
	if (base.kind === 'Proxy') {
		const trap = get(base.handler, 'set')
		if (trap === undefined) return set(base.target, key, v)
		call(trap, base.handler, [base.target, key, v, base])
		return
	}
	if (base.frozen) { noNestedDraft(base); throw typeError('Cannot assign to read only property') }
	if (base.kind === 'Array') {
		if (key === 'length') { if (v === 0) return setPieces(base, []); throw new Unsupported('array length assignment') }
		let i = typeof key === 'string' && /^\d+$/.test(key) ? S.int(Number(key)) : key instanceof SV && key.t.sort === S.INT ? key.t : null
		if (i) return arraySet(base, i, v)
	}
	// setters on the prototype chain
	if (!(key instanceof SV)) {
		for (let o = base; o instanceof Obj; o = o.proto) {
			const s = o.props.get(key)
			if (s && (s.get || s.set)) { if (!s.set) throw typeError('Cannot set property which has only a getter'); call(s.set, base, [v]); return }
			if (s) { if (s.writable === false) throw typeError('Cannot assign to read only property'); if (o === base) { setSlot(base, key, { ...s, v }); return } break }
		}
	}
	define(base, key, v)
}
export function remove(base, key) {
	base = resolve(base)
	if (!(base instanceof Obj)) throw new Unsupported('delete on an object of the environment')
	if (base.frozen) { noNestedDraft(base); throw typeError('Cannot delete property') }
	if (base.kind === 'Array') throw new Unsupported('delete on an array')
	if (!(key instanceof SV)) { if (base.props.has(key)) return delSlot(base, key); if (!base.dict) return }
	if (!base.dict) convertToDict(base)
	dictRemove(base, key)
}
export function objectRest(v, seen) { const o = makeObject(); spreadInto(o, v, seen); return o }
export function spreadInto(o, src, except = []) {
	src = resolve(src)
	if (src === undefined || src === null || typeof src === 'boolean' || typeof src === 'number') return
	if (src instanceof SV && src.t.sort === S.VAL) {
		src = narrow(src)
		if (src === undefined || src === null || typeof src === 'boolean' || typeof src === 'number') return
	}
	if (!(src instanceof Obj)) {
		if (src instanceof SV && src.t.sort === S.VAL) {
			if (except.length) throw new Unsupported('rest of an object of the environment')
			// all own fields of an environment object: remembered as an overlay
			setFieldQuiet(o, 'overlay', [...(o.overlay ?? []), { src, after: new Set(o.props.keys()) }])
			// known fields are copied when declared by the harness
			const fields = M.extra.shapeOf?.(src)
			if (!fields) throw new Unsupported('spread of an object of unknown shape')
			for (const f of fields) {
				const x = opaqueGet(src, f)
				if (decide(S.ufun('ohas', [S.VAL, S.VAL], S.BOOL)(src.t, keyTerm(f)))) define(o, f, x)
			}
			return
		}
		throw new Unsupported('spread of a string')
	}
	if (src.kind === 'Array') { let i = 0; for (const p of src.pieces) { if (!('e' in p)) throw new Unsupported('object spread of a symbolic array'); define(o, String(i++), p.e) } return }
	if (src.kind === 'Proxy') throw new Unsupported('spread of a proxy')
	if (src.dict) {
		if (except.length) throw new Unsupported('rest of a dictionary')
		for (const [k, s] of src.props) if (s.enumerable !== false) define(o, k, s.get ? call(s.get, src, []) : s.v)
		if (o.props.size === 0 && !o.dict) { setDict(o, { ...src.dict }); return }
		throw new Unsupported('merging dictionaries')
	}
	for (const [k, s] of [...src.props]) if (s.enumerable !== false && !except.includes(k)) define(o, k, s.get ? call(s.get, src, []) : s.v)
}
// ------------------------------------------------------------ calls
export const argAt = (args, i) => {
	if (!args.pieces) return args[i]
	const p = args.pieces[i]
	if (p && 'e' in p && args.pieces.slice(0, i).every(x => 'e' in x)) return p.e
	throw new Unsupported('argument of unknown position')
}
export function restArray(args, i) {
	if (!args.pieces) return listToArray(args.slice(i))
	if (!args.pieces.slice(0, i).every(x => 'e' in x)) throw new Unsupported('rest of unknown arguments')
	return makeArray(args.pieces.slice(i))
}
export function call(f, self, args, node) {
	f = resolve(f)
	if (f instanceof Obj) {
		if (f.native) { if (!M.constructEnd) (M.extra.nativeArgs ??= new Set()).add(self).add(args); return f.native(self, args, f) }
		if (f.kind === 'Bound') {
			const all = args.pieces ? Object.assign([], { pieces: [...f.boundArgs.map(e => ({ e })), ...args.pieces] }) : [...f.boundArgs, ...args]
			return call(f.target, f.self, all)
		}
		if (f.kind === 'Proxy') { const trap = get(f.handler, 'apply'); return trap === undefined ? call(f.target, self, args) : call(trap, f.handler, [f.target, self, listToArray(args)]) }
		if (f.kind !== 'Function') throw typeError('not a function')
		if (f.cls) throw typeError('Class constructor cannot be invoked without new')
		if (M.depth > 120) throw new Unsupported('recursion too deep')
		M.depth++
		try {
			if (isAsync(f.node)) return runAsync(f, self, args)
			if (f.node.asteriskToken) throw new Unsupported('generator function')
			// the variables of a call that made no function are gone after it
			const made = M.made, cells = M.nextId, mods = M.modules.size
			const r = syncInterp.body(f, self, args)
			if (M.made === made && M.modules.size === mods && M.extra.dead) for (let id = cells; id < M.nextId; id++) { const c = M.cells.get(id); if (c) M.extra.dead.add(c) }
			return r
		} finally { M.depth-- }
	}
	if (f instanceof SV && f.t.sort === S.VAL) {
		if (!decide(isFnTerm(f.t))) throw typeError('not a function')
		return callOpaque(f, self, args)
	}
	throw typeError(`${node ? node.expression.getText() : 'value'} is not a function`)
}
/** call of a function that belongs to the environment: recorded, and anything reachable may have changed after it */
export function callOpaque(f, self, args) {
	const ord = M.callOrd[M.side]
	const tag = ord.join('.')
	M.callOrd[M.side] = [...ord.slice(0, -1), ord[ord.length - 1] + 1]
	const ev = { type: 'call', fn: f, args: args.pieces ? args.pieces : args.map(e => ({ e })), tag }
	if (M.onOpaqueCall) ev.snap = M.onOpaqueCall.snapshot()
	pushEvent(ev)
	if (M.onOpaqueCall) M.onOpaqueCall.havoc(tag)
	for (const [i, a] of args.entries()) if (a instanceof Obj && a.isDraft) {
		;(M.extra.editedByCall ??= new Set()).add(a)
		const q = s => born(S.constant(quoteName(`edited!${tag}.${i}.${s}`), s === 'dom' ? S.SETV : s === 'map' ? S.MAPV : S.SEQ))
		if (a.kind === 'Array') setPieces(a, [{ s: q('seq') }])
		else { if (!a.dict) convertToDict(a); setDict(a, { dom: q('dom'), map: q('map'), keys: q('keys'), syms: q('syms') }) }
	}
	const t = born(S.constant(quoteName('result!' + tag), S.VAL))
	external(t)
	const allowed = f instanceof SV && RESULTS[M.extra.fnKinds?.get(f.t)]
	if (allowed) { assume(S.or(allowed(t), isPromiseT(t))); (M.extra.resultKinds ??= new Map()).set(t, allowed) }
	return new SV(t)
}
const isPromiseT = t => S.and(S.is('VRef', t), S.ufun('prom?', [S.INT], S.BOOL)(S.sel('VRef', t)))
/** what functions of the environment return (or their promises resolve to), where their type says it */
const RESULTS = {
	text: t => S.or(S.is('VUndef', t), S.is('VStr', t), isNothingT(t)),
	json: t => S.or(isNothingT(t), S.and(S.not(S.is('VSym', t)), S.not(isFnTerm(t)), S.not(isPromiseT(t))))
}
const isNothingT = t => S.eq(t, S.V('VSym', S.int(NOTHING)))
export function construct(f, args, newTarget) {
	f = resolve(f)
	if (f instanceof SV) {
		if (!decide(isFnTerm(f.t))) throw typeError('not a constructor')
		return fromTerm(external(S.ufun('new.' + args.length, [S.VAL, ...args.map(() => S.VAL)], S.VAL)(f.t, ...args.map(toVal))))
	}
	if (!(f instanceof Obj)) throw typeError('not a constructor')
	if (f.native) { if (!f.ctor) throw typeError('not a constructor'); const o = f.ctor(args, newTarget); if (newTarget) o.proto = get(newTarget, 'prototype'); return o }
	const nt = newTarget ?? f
	if (f.kind === 'Bound') return construct(f.target, [...f.boundArgs, ...args], newTarget)
	if (f.cls) {
		const proto = get(nt, 'prototype')
		if (!f.node) { // implicit constructor
			if (f.cls.parent) { const o = construct(f.cls.parent, args, nt); initFields(f, o); return o }
			const o = makeObject(proto)
			initFields(f, o)
			return o
		}
		const self = f.cls.parent ? TDZ : makeObject(proto)
		return syncInterp.body(f, self, args, nt)
	}
	if (ts.isArrowFunction(f.node) || isAsync(f.node)) throw typeError('not a constructor')
	const o = makeObject(get(f, 'prototype'))
	const r = syncInterp.body(f, o, args)
	return r instanceof Obj ? r : o
}
export const callMethod = (o, name, args) => call(get(o, name), o, args)
export function instanceOf(v, C) {
	v = resolve(v); C = resolve(C)
	if (v instanceof SV) { if (v.t.sort !== S.VAL) return false; if (C.fname === 'Promise') return fromTerm(S.and(S.is('VRef', v.t), S.ufun('prom?', [S.INT], S.BOOL)(S.sel('VRef', v.t)))); if (C.fname === 'Function') return fromTerm(isFnTerm(v.t)); return fromTerm(S.ufun('instanceof.' + (C.fname || 'X'), [S.VAL], S.BOOL)(v.t)) }
	if (!(v instanceof Obj)) return false
	if (C.native) { if (C.fname === 'Object') return true; if (C.fname === 'Function') return isFunction(v); if (C.fname === 'Error') { for (let o = v; o instanceof Obj; o = o.proto) if (o.kind === 'Error') return true; return false } if (v.kind === C.fname) return true }
	const p = get(C, 'prototype')
	for (let o = v.proto; o instanceof Obj; o = o.proto) if (o === p) return true
	return false
}
// ------------------------------------------------------------ promises
export function makePromise() { const o = new Obj('Promise'); o.state = 'pending'; o.value = undefined; o.reactions = []; return o }
export function settle(p, state, value) {
	if (p.state !== 'pending') return
	setFieldQuiet(p, 'state', state); setFieldQuiet(p, 'value', value)
	const rs = p.reactions
	setFieldQuiet(p, 'reactions', [])
	for (const r of rs) enqueue(r, state, value)
}
function enqueue(r, state, value) { const q = M.microtasks[r.side]; q.push(() => { M.side = r.side; (state === 'fulfilled' ? r.ok : r.no)(value) }) }
export function resolvePromise(p, v) {
	if (p.state !== 'pending' || p.locked) return
	v = resolve(v)
	if (v === p) return settle(p, 'rejected', makeError('TypeError', 'Chaining cycle'))
	if (v instanceof Obj && v.kind === 'Promise') { setFieldQuiet(p, 'locked', true); const side = M.side; M.microtasks[side].push(() => { M.side = side; react(v, x => { setFieldQuiet(p, 'locked', false); settle(p, 'fulfilled', x) }, e => { setFieldQuiet(p, 'locked', false); settle(p, 'rejected', e) }) }); return }
	if (v instanceof Obj && !isFunction(v) && v.kind === 'Object') {
		const then = get(v, 'then')
		if (then instanceof Obj && isFunction(then)) { call(then, v, [native('', (_, [x]) => resolvePromise(p, x)), native('', (_, [x]) => settle(p, 'rejected', x))]); return }
	}
	if (v instanceof SV && v.t.sort === S.VAL && isOpaquePromise(v)) { setFieldQuiet(p, 'locked', true); react(v, x => { setFieldQuiet(p, 'locked', false); settle(p, 'fulfilled', x) }, e => { setFieldQuiet(p, 'locked', false); settle(p, 'rejected', e) }); return }
	settle(p, 'fulfilled', v)
}
export function isOpaquePromise(v) { return decide(S.and(S.is('VRef', v.t), S.ufun('prom?', [S.INT], S.BOOL)(S.sel('VRef', v.t)))) }
/** register continuations on an engine or opaque promise */
export function react(p, ok, no) {
	const r = { ok, no, side: M.side }
	if (p instanceof Obj) {
		if (p.state === 'pending') setFieldQuiet(p, 'reactions', [...p.reactions, r])
		else enqueue(r, p.state, p.value)
		return
	}
	let e = M.promises.get(p.t)
	if (!e) { e = { state: 'pending', value: undefined, reactions: [], t: p.t }; M.promises.set(p.t, e) }
	if (e.state === 'pending') e.reactions.push(r)
	else enqueue(r, e.state, e.value)
}
/** the environment settles its promises */
export function settleOpaque() {
	for (const e of M.promises.values()) {
		if (e.state !== 'pending') continue
		const ok = decide(S.ufun('fulfils', [S.VAL], S.BOOL)(e.t))
		e.state = ok ? 'fulfilled' : 'rejected'
		const v = external(S.ufun(ok ? 'resolved' : 'rejection', [S.VAL], S.VAL)(e.t))
		if (ok) assume(S.or(S.not(S.is('VRef', v)), S.not(S.ufun('prom?', [S.INT], S.BOOL)(S.sel('VRef', v)))))
		if (ok && M.extra.resultKinds?.has(e.t)) assume(M.extra.resultKinds.get(e.t)(v))
		e.value = fromTerm(v)
		for (const r of e.reactions) enqueue(r, e.state, e.value)
		e.reactions = []
	}
}
export function promiseMethod(key) {
	return native(key, (self, args) => {
		let [ok, no] = key === 'catch' ? [undefined, args[0]] : key === 'finally' ? [args[0], args[0]] : args
		const p = makePromise()
		const run = (f, v, state) => {
			if (f === undefined || !(f instanceof Obj || f instanceof SV)) { state === 'fulfilled' ? resolvePromise(p, v) : settle(p, 'rejected', v); return }
			let r
			try { r = call(f, undefined, key === 'finally' ? [] : [v]) } catch (e) { if (!(e instanceof Thrown)) throw e; return settle(p, 'rejected', e.value) }
			if (key === 'finally') { state === 'fulfilled' ? resolvePromise(p, v) : settle(p, 'rejected', v) } else resolvePromise(p, r)
		}
		react(self, v => run(ok, v, 'fulfilled'), e => run(no, e, 'rejected'))
		return p
	})
}
function runAsync(f, self, args) {
	const p = makePromise()
	const g = genInterp.body(f, self, args)
	const step = (mode, v) => {
		let r
		try { r = mode === 'next' ? g.next(v) : g.throw(new Thrown(v)) } catch (e) { if (!(e instanceof Thrown)) throw e; return settle(p, 'rejected', e.value) }
		if (r.done) return resolvePromise(p, r.value)
		let w = resolve(r.value)
		if (w instanceof SV && w.t.sort === S.VAL && !isOpaquePromise(w)) w = wrap(w)
		else if (!(w instanceof SV) && !(w instanceof Obj && w.kind === 'Promise')) {
			const q = makePromise()
			resolvePromise(q, w)
			w = q
		} else if (w instanceof SV && w.t.sort !== S.VAL) w = wrap(w)
		react(w, x => step('next', x), e => step('throw', e))
	}
	step('next')
	return p
}
function wrap(v) { const q = makePromise(); q.state = 'fulfilled'; q.value = v; return q }
export function drain(side) {
	const q = M.microtasks[side]
	let n = 0
	while (q.length) { if (++n > 500) throw new Unsupported('endless microtasks'); const t = q.shift(); t() }
	M.side = side
}
// ------------------------------------------------------------ arrays
export function lengthTerm(o) {
	let n = S.int(0)
	for (const p of o.pieces) n = S.add(n, pieceLen(p))
	return n
}
export function pieceLen(p) {
	if ('e' in p) return S.int(1)
	if ('s' in p) return S.slen(p.s)
	return L.compLen(p)
}
export function arrayAt(o, i) {
	let k = i
	for (const p of o.pieces) {
		if ('e' in p) { if (k === 0) return p.e; k--; continue }
		return arrayAtTerm(o, S.int(i))
	}
	return undefined
}
/** element at a symbolic index; undefined out of range */
export function arrayAtTerm(o, i) {
	let off = S.int(0)
	if (!decide(S.and(S.not(S.lt(i, S.int(0))), S.lt(i, lengthTerm(o))))) return undefined
	for (const [j, p] of o.pieces.entries()) {
		const n = pieceLen(p)
		const last = j === o.pieces.length - 1
		if (last || decide(S.lt(i, S.add(off, n)))) return pieceNth(p, S.sub(i, off))
		off = S.add(off, n)
	}
	return undefined
}
export function pieceNth(p, i) {
	if ('e' in p) return p.e
	if ('s' in p) return seqElem(p, i)
	return L.compNth(p, i)
}
function seqBases(t) { return t.op === 'seq.++' || t.op === 'ite' || t.op === 'seq.extract' || t.op === 'krem' ? t.args.filter(a => a.sort === S.SEQ).flatMap(seqBases) : [t] }
export function seqElem(p, i) {
	const t = S.snth(p.s, i)
	if (t.op !== 'seq.nth') return fromTerm(t)
	const refs = [...new Set(seqBases(p.s).flatMap(b => b.op === 'seq.unit' ? (b.args[0].op === 'VRef' && S.intVal(b.args[0].args[0]) !== undefined ? [S.intVal(b.args[0].args[0])] : []) : M.refs.get(b) ?? []))]
	external(t, refs)
	if (p.kind) assume(p.kind(t))
	const ks = [...KINDS.keys()].filter(kind => kind !== 'distinct' && seqHasKind(p.s, kind))
	if (ks.length) declareKinds(t, ks)
	return fromTerm(p.sort === 'VStr' ? S.V('VStr', S.sel('VStr', t)) : t)
}
/** kinds of values a location is known to hold */
export const KINDS = new Map([['fn', t => isFnTerm(t)], ['str', t => S.is('VStr', t)], ['obj', t => S.and(S.is('VRef', t), S.not(S.ufun('fn?', [S.INT], S.BOOL)(S.sel('VRef', t))))], ['plain', t => S.and(S.is('VRef', t), notFn(t), noPromise(t), S.ufun('frozen?', [S.INT], S.BOOL)(S.sel('VRef', t)), plainOr(t))],
	['arr', t => S.and(S.is('VRef', t), notFn(t), noPromise(t), S.ufun('frozen?', [S.INT], S.BOOL)(S.sel('VRef', t)), isArrT(t))],
	['bare', t => S.eq(clsOf(t), S.int(2))],
	...['plain>fn', 'plain>str', 'plain>plain', 'plain>arr', 'plain>obj', 'plain>total', 'arr>str', 'arr>fn', 'arr>plain', 'arr>obj'].map(k => [k, () => S.TRUE]), ['distinct', () => S.TRUE]])
/** kinds of objects of the environment that a harness describes: their members are what their type says */
export function declareTypes(types) {
	const pred = d => {
		if (d === 'function') return isFnTerm
		if (d === 'string') return t => S.is('VStr', t)
		if (typeof d === 'string') return () => S.TRUE
		const parts = Object.entries(d).map(([k, x]) => {
			const name = k.replace(/\?$/, ''), p = pred(x), f = S.ufun(quoteName('fld.' + name), [S.VAL], S.VAL)
			return name === k ? t => p(f(t)) : t => S.or(S.is('VUndef', f(t)), p(f(t)))
		})
		return t => S.and(S.is('VRef', t), notFn(t), noPromise(t), ...parts.map(p => p(t)))
	}
	for (const [k, d] of Object.entries(types)) { const p = pred(d); KINDS.set(k, p); KINDS.set(k + '?', t => S.or(S.is('VUndef', t), p(t))); KINDS.set('plain>' + k, () => S.TRUE); KINDS.set('arr>' + k, () => S.TRUE) }
	KINDS.set('fn?', t => S.or(S.is('VUndef', t), isFnTerm(t)))
}
export function hasKind(v, kind) {
	if (kind === 'distinct') return false
	const t = toVal(v)
	if (v instanceof Obj && !v.asTerm) {
		if (kind === 'plain') return v.kind === 'Object' && v.frozen && recable(v)
		if (kind === 'bare') return hasKind(v, 'plain') && v.proto === null
		if (kind === 'arr') return v.kind === 'Array' && v.frozen && recable(v)
		if (kind === 'plain>total') { if (!hasKind(v, 'plain')) return false; const c = contentOf(v); return isTotal(c.dom, c.map, (g, f) => valid(S.or(S.not(f), g))) }
		if (kind.startsWith('plain>')) return hasKind(v, 'plain') && termHasKind(contentOf(v).map, kind.slice(6))
		if (kind.startsWith('arr>')) return hasKind(v, 'arr') && termHasKind(contentOf(v).elems, kind.slice(4))
		return kind === 'fn' ? isFunction(v) : kind === 'obj' ? !isFunction(v) : false
	}
	if (kind.includes('>')) return !!M.extra.valKinds?.get(t)?.has(kind)
	return valid(KINDS.get(kind)(t))
}
export function seqHasKind(t, kind, prove = valid) {
	if (kind === 'distinct') {
		switch (t.op) {
			case 'seq.empty': case 'seq.unit': return true
			case 'krem': case 'seq.extract': return seqHasKind(t.args[0], kind, prove)
			case 'ite': return seqHasKind(t.args[1], kind, prove) && seqHasKind(t.args[2], kind, prove)
			case 'seq.++': {
				for (const [i, a] of t.args.entries()) {
					if (i > 0 && a.op !== 'seq.unit') return false
					if (!seqHasKind(a, kind, prove)) return false
					if (i > 0 && !prove(S.not(containsTerm(S.scat(...t.args.slice(0, i)), a.args[0])))) return false
				}
				return true
			}
		}
		return !!M.extra.seqKind?.get(t)?.has(kind)
	}
	return seqBases(t).every(b => (b.op === 'seq.unit' ? hasKind(fromTerm(b.args[0]), kind) : b === S.SEMPTY || !!M.extra.seqKind?.get(b)?.has(kind)))
}
/** is a term of a stored value known to be (or to hold only values) of a kind */
export function termHasKind(t, k, prove = valid) {
	if (k === 'distinct' && t.sort !== S.SEQ) return false
	if (k === 'plain>total' && t.sort !== S.VAL) return false
	if (typeof k !== 'string') return t.sort === S.SEQ && prove(containsTerm(t, k))
	switch (t.sort) {
		case S.VAL: {
			if (t.op === 'ite' && (k.includes('>') || ['plain', 'bare', 'arr'].includes(k))) return termHasKind(t.args[1], k, prove) && termHasKind(t.args[2], k, prove)
			const v = fromTerm(t)
			if (v instanceof Obj || k.includes('>')) return hasKind(v, k)
			return prove(KINDS.get(k)(t))
		}
		case S.SEQ: return seqHasKind(t, k, prove)
		case S.MAPV:
			if (t.op === 'store') return (t.args[2] === S.VUNDEF || termHasKind(t.args[2], k, prove)) && termHasKind(t.args[0], k, prove)
			if (t.op === 'ite') return termHasKind(t.args[1], k, prove) && termHasKind(t.args[2], k, prove)
			if (t.op === 'constarr') return true
			return !!M.extra.mapKinds?.get(t)?.has(k)
	}
	return false
}
export function declareKinds(t, all) {
	const ks = new Set([...all].filter(k => typeof k === 'string'))
	if (t.sort === S.SEQ) for (const k of all) if (typeof k !== 'string') assume(containsTerm(t, k))
	if (t.sort === S.SEQ) (M.extra.seqKind ??= new Map()).set(t, ks)
	else if (t.sort === S.MAPV) {
		if (!ks.size) return
		;(M.extra.mapKinds ??= new Map()).set(t, ks)
		;(M.extra.mapKind ??= new Map()).set(t, x => S.and(...[...ks].map(k => S.or(S.is('VUndef', x), KINDS.get(k)(x)))))
	} else if (t.sort === S.VAL) { if ([...ks].some(k => k.includes('>'))) (M.extra.valKinds ??= new Map()).set(t, ks); for (const k of ks) assume(KINDS.get(k)(t)) }
}
export const allElems = ps => ps.every(p => 'e' in p)
export function seqTerm(pieces) {
	return S.scat(...pieces.map(p => {
		if ('e' in p) return S.unit(toVal(p.e))
		if ('s' in p) return p.s
		return L.compSeq(p)
	}))
}
function arraySet(o, i, v) {
	const n = S.intVal(i)
	if (n !== undefined && o.pieces.slice(0, n + 1).every(p => 'e' in p)) {
		if (n < o.pieces.length) { const ps = o.pieces.slice(); ps[n] = { e: v }; return setPieces(o, ps) }
		if (n === o.pieces.length) return setPieces(o, [...o.pieces, { e: v }])
	}
	const len = lengthTerm(o)
	if (decide(S.eq(i, len))) return setPieces(o, [...o.pieces, { e: v }])
	if (!decide(S.and(S.not(S.lt(i, S.int(0))), S.lt(i, len)))) throw new Unsupported('sparse array')
	const q = seqTerm(o.pieces)
	setPieces(o, [{ s: S.scat(S.sextract(q, S.int(0), i), S.unit(toVal(v)), S.sextract(q, S.add(i, S.int(1)), S.sub(len, S.add(i, S.int(1))))) }])
}
function fromLength(n, f) {
	const r = makeArray([])
	const at = i => (f === undefined ? undefined : call(f, undefined, [undefined, i]))
	const m = S.intVal(n)
	if (m !== undefined) for (let i = 0; i < m; i++) setPieces(r, [...r.pieces, { e: at(i) }])
	else if (decide(S.lt(S.int(0), n))) L.summarise('Array.from', n, k => { setPieces(r, [...r.pieces, { e: at(fromTerm(k)) }]) })
	return r
}
export function iterablePieces(v, live) {
	v = resolve(v)
	if (v instanceof SV && v.t.sort === S.VAL) v = narrow(v)
	if (v === undefined || v === null) throw typeError('not iterable')
	if (typeof v === 'string') return [...v].map(e => ({ e }))
	if (v instanceof Obj) {
		if (v.kind === 'Array' || v.kind === 'Set') return v.pieces
		if (v.kind === 'Iter') return v.live()
		if (v.kind === 'Map') return mapEntries(v)
		const sy = M.symbols.get('@@iterator')
		throw new Unsupported('iteration over ' + v.kind)
	}
	// an array of the environment
	if (v instanceof SV && v.t.sort === S.VAL) return [{ s: external2(S.ufun('elems', [S.VAL], S.SEQ)(v.t)) }]
	throw new Unsupported('iteration')
}
const external2 = t => t
export const iterableArray = v => (v instanceof Obj && v.kind === 'Array' ? v : makeArray(iterablePieces(v)))
function mapEntries(m) { return m.entries.map(([k, v]) => ({ e: listToArray([k, v]) })) }

const idxClamp = (v, n) => { const i = intTerm(v); const c = clamp(i, n); return c }
/** split a piece list at an index term; undefined when it does not fall on a piece boundary */
const indexofIn = t => (t.op === 'seq.indexof' ? t : t.args.map(indexofIn).find(x => x))
/** the sequence without the first occurrence of a value it contains */
export function kremOf(q, v) {
	const r = krem()(q, v)
	assume(S.eq(S.slen(r), S.sub(S.slen(q), S.int(1))))
	return r
}
/** is a value an element of a sequence */
export function containsTerm(q, v) {
	if (q.op === 'krem') {
		const same = S.eq(q.args[1], v), inner = containsTerm(q.args[0], v)
		if (seqHasKind(q.args[0], 'distinct')) return S.and(S.not(same), inner)
		return S.ite(same, S.scontains(q, v), inner)
	}
	if (q.op === 'seq.++') return S.or(...q.args.map(a => containsTerm(a, v)))
	return S.scontains(q, v)
}
function splitAt(pieces, i) {
	let off = S.int(0)
	for (let j = 0; j <= pieces.length; j++) {
		if (valid(S.eq(i, off))) return [pieces.slice(0, j), pieces.slice(j)]
		if (j < pieces.length) {
			const p = pieces[j], n = pieceLen(p)
			if ('s' in p && valid(S.and(S.lt(off, i), S.lt(i, S.add(off, n))))) {
				const k = S.sub(i, off)
				return [[...pieces.slice(0, j), { ...p, s: S.sextract(p.s, S.int(0), k) }], [{ ...p, s: S.sextract(p.s, k, S.sub(n, k)) }, ...pieces.slice(j + 1)]]
			}
			off = S.add(off, n)
		}
	}
	const q = seqTerm(pieces), n = S.slen(q)
	const kind = pieces.every(p => p.kind === pieces[0]?.kind) ? pieces[0]?.kind : undefined
	return [[{ s: S.sextract(q, S.int(0), i), kind }], [{ s: S.sextract(q, i, S.sub(n, i)), kind }]]
}
function indexOfTerm(o, v, from = 0) {
	// walk leading known elements
	let off = S.int(0)
	const vt = toVal(v)
	const never = !(v instanceof Obj) && v instanceof SV && v.t.sort === S.VAL && !valid(isFnTerm(vt)) ? S.eq(vt, S.VNAN) : S.FALSE
	const acc = []
	for (const p of o.pieces) {
		if ('e' in p) { const c = strictEq(p.e, v); if (c !== S.FALSE) acc.push([c, off]); if (c === S.TRUE) break; off = S.add(off, S.int(1)); continue }
		const q = 's' in p ? p.s : L.compSeq(p)
		const ids = new Set()
		if (v instanceof Obj) L.collectRefs(q, ids)
		if (!(v instanceof Obj) || ids.has(v.id)) {
			const i = S.sindexof(q, vt)
			acc.push([S.and(S.not(never), S.not(S.lt(i, S.int(0)))), S.add(off, i)])
		}
		off = S.add(off, S.slen(q))
	}
	let result = S.int(-1)
	for (const [c, k] of acc.reverse()) result = S.ite(c, k, result)
	return result
}
function includesTerm(o, v) {
	return S.or(...o.pieces.map(p => {
		if ('e' in p) return sameValueZero(p.e, v)
		if ('s' in p) { if (v instanceof Obj) { const ids = new Set(); L.collectRefs(p.s, ids); if (!ids.has(v.id)) return S.FALSE } return p.dom ? S.and(S.is(p.sort, toVal(v)), S.select(p.dom, toVal(v))) : containsTerm(p.s, toVal(v)) }
		return S.scontains(L.compSeq(p), toVal(v))
	}))
}
const arrayMethods = {
	push(o, args) { frozenCheck(o); setPieces(o, [...o.pieces, ...(args.pieces ?? args.map(e => ({ e })))]); return fromTerm(lengthTerm(o)) },
	unshift(o, args) { frozenCheck(o); setPieces(o, [...(args.pieces ?? args.map(e => ({ e }))), ...o.pieces]); return fromTerm(lengthTerm(o)) },
	pop(o) {
		frozenCheck(o)
		const ps = o.pieces
		if (!ps.length) return undefined
		const l = ps[ps.length - 1]
		if ('e' in l) { setPieces(o, ps.slice(0, -1)); return l.e }
		const n = lengthTerm(o)
		if (!decide(S.lt(S.int(0), n))) return undefined
		const v = arrayAtTerm(o, S.sub(n, S.int(1)))
		setPieces(o, splitAt(ps, S.sub(n, S.int(1)))[0])
		return v
	},
	shift(o) {
		frozenCheck(o)
		const ps = o.pieces
		if (!ps.length) return undefined
		if ('e' in ps[0]) { setPieces(o, ps.slice(1)); return ps[0].e }
		if (!decide(S.lt(S.int(0), lengthTerm(o)))) return undefined
		const v = arrayAtTerm(o, S.int(0))
		setPieces(o, splitAt(ps, S.int(1))[1])
		return v
	},
	splice(o, args) {
		frozenCheck(o)
		if (args.length === 2 && args[1] === 1 && args[0] instanceof SV && args[0].t.sort === S.INT) {
			// removal of the first occurrence of a value
			const t = normIte(args[0].t)
			const i = indexofIn(t)
			const off = i && S.intVal(S.sub(t, i))
			if (off !== undefined && off >= 0 && off === o.pieces.length - 1 && o.pieces.slice(0, off).every(p => 'e' in p) && 's' in o.pieces[off] && o.pieces[off].s === i.args[0] && valid(S.le(S.int(0), i))) {
				const p = o.pieces[off], v = i.args[1].args[0]
				setPieces(o, [...o.pieces.slice(0, off), { ...p, s: kremOf(p.s, v) }])
				return makeArray([{ e: fromTerm(v) }])
			}
		}
		const n = lengthTerm(o)
		let start = idxClamp(args[0], n)
		if (start.op === 'ite') { start = normIte(start) }
		let del = args.length < 2 ? S.sub(n, start) : intTerm(args[1])
		if (args.length >= 2) { const max = S.sub(n, start); del = S.ite(S.lt(del, S.int(0)), S.int(0), S.ite(S.lt(max, del), max, del)); del = normIte(del) }
		const [a, rest] = splitAt(o.pieces, start)
		const [removed, b] = splitAt(rest, del)
		setPieces(o, [...a, ...args.slice(2).map(e => ({ e })), ...b])
		return makeArray(removed)
	},
	slice(o, args) {
		if (args.length === 0 || (args[0] === 0 && args.length === 1)) return makeArray(o.pieces)
		const n = lengthTerm(o)
		const i = normIte(idxClamp(args[0], n)), j = args[1] === undefined ? n : normIte(idxClamp(args[1], n))
		const [, b] = splitAt(o.pieces, i)
		if (args[1] === undefined) return makeArray(b)
		return makeArray(splitAt(b, normIte(S.ite(S.lt(i, j), S.sub(j, i), S.int(0))))[0])
	},
	concat(o, args) { return makeArray([...o.pieces, ...args.flatMap(a => { a = resolve(a); return a instanceof Obj && a.kind === 'Array' ? a.pieces : [{ e: a }] })]) },
	indexOf(o, [v]) { return fromTerm(indexOfTerm(o, v)) },
	includes(o, [v]) { return fromTerm(includesTerm(o, v)) },
	join(o, [sep]) {
		if (allElems(o.pieces)) return fromTerm(S.concat(...o.pieces.flatMap((p, i) => [...(i ? [S.str(sep === undefined ? ',' : sep)] : []), isNullish(p.e) ? S.str('') : toStringTerm(p.e)])))
		const q = seqTerm(o.pieces)
		if (q.op === 's_split' && S.strLit(q.args[1]) && typeof (sep ?? ',') === 'string' && !(sep ?? ',').includes('$')) return fromTerm(replaced(true, q.args[0], q.args[1], S.str(sep ?? ',')))
		if (typeof (sep ?? ',') !== 'string') throw new Unsupported('join')
		return fromTerm(S.ufun('s_join', [S.SEQ, S.STR], S.STR)(seqTerm(o.pieces), S.str(sep === undefined ? ',' : sep)))
	},
	at(o, [i]) { const t = intTerm(i); return arrayAtTerm(o, S.ite(S.lt(t, S.int(0)), S.add(lengthTerm(o), t), t)) },
	forEach(o, [f]) { L.forEachOf('forEach', o, (v, i) => { call(f, undefined, [v, i, o]) }, { bounded: true }); return undefined },
	map(o, [f]) {
		const r = makeArray([])
		L.forEachOf('map', o, (v, i) => { const x = call(f, undefined, [v, i, o]); setPieces(r, [...r.pieces, { e: x }]) }, { bounded: true })
		return r
	},
	flatMap(o, [f]) {
		const r = makeArray([])
		L.forEachOf('flatMap', o, (v, i) => { const x = resolve(call(f, undefined, [v, i, o])); setPieces(r, [...r.pieces, ...(x instanceof Obj && x.kind === 'Array' ? x.pieces : [{ e: x }])]) }, { bounded: true })
		return r
	},
	filter(o, [f]) {
		const r = makeArray([])
		L.forEachOf('filter', o, (v, i) => { if (truthy(call(f, undefined, [v, i, o]))) setPieces(r, [...r.pieces, { e: v }]) }, { bounded: true })
		return r
	},
	reduce(o, args) {
		let [f, acc] = args
		if (args.length < 2) { if (!allElems(o.pieces)) throw new Unsupported('reduce without initial value'); const a = o.pieces.map(p => p.e); acc = a[0]; for (let i = 1; i < a.length; i++) acc = call(f, undefined, [acc, a[i], i, o]); return acc }
		const c = new Cell(acc)
		L.forEachOf('reduce', o, (v, i) => { const r = call(f, undefined, [c.v, v, i, o]); if (r !== c.v) setCell(c, r) }, { bounded: true })
		return c.v
	},
	some(o, [f]) { let r = false; const c = L.forEachOf('some', o, (v, i) => { if (truthy(call(f, undefined, [v, i, o]))) return { type: 'return', value: true } }, { bounded: true }); return c ? c.value : r },
	every(o, [f]) { const c = L.forEachOf('every', o, (v, i) => { if (!truthy(call(f, undefined, [v, i, o]))) return { type: 'return', value: false } }, { bounded: true }); return c ? c.value : true },
	find(o, [f]) { const c = L.forEachOf('find', o, (v, i) => { if (truthy(call(f, undefined, [v, i, o]))) return { type: 'return', value: v } }, { bounded: true }); return c ? c.value : undefined },
	findIndex(o, [f]) { const c = L.forEachOf('findIndex', o, (v, i) => { if (truthy(call(f, undefined, [v, i, o]))) return { type: 'return', value: i } }, { bounded: true }); return c ? c.value : -1 },
	keys(o) { if (!allElems(o.pieces)) throw new Unsupported('array keys'); return listToArray(o.pieces.map((_, i) => i)) },
	values(o) { return iter(() => o.pieces) },
	entries(o) { if (!allElems(o.pieces)) throw new Unsupported('array entries'); return iter(() => o.pieces.map((p, i) => ({ e: listToArray([i, p.e]) }))) },
	reverse(o) { if (!allElems(o.pieces)) throw new Unsupported('reverse'); setPieces(o, o.pieces.slice().reverse()); return o },
	sort(o, args) {
		frozenCheck(o)
		if (!o.pieces.every(p => 'e' in p)) throw new Unsupported('sort')
		const vs = o.pieces.map(p => resolve(p.e)), by = args[0]
		if (by === undefined ? !vs.every(v => typeof v === 'string') : false) throw new Unsupported('sort')
		const order = by === undefined ? undefined : (a, b) => { const r = resolve(call(by, undefined, [a, b])); if (typeof r !== 'number') throw new Unsupported('sort'); return r }
		setPieces(o, vs.sort(order).map(e => ({ e })))
		return o
	},
	toString(o) { return arrayMethods.join(o, []) }
}
/** decide nested conditionals of an index where the path condition settles them; otherwise branch */
function normIte(t) { while (t.op === 'ite') t = decide(t.args[0]) ? t.args[1] : t.args[2]; return t }
const noNestedDraft = o => { if (o.asTerm && M.extra.draftReads?.has(o.asTerm)) throw new Unsupported('change of an object inside a draft') }
function frozenCheck(o) { if (o.frozen) noNestedDraft(o); if (o.frozen) throw typeError('Cannot add property, object is not extensible') }
export function iter(live) { const o = new Obj('Iter'); o.live = live; return o }
// ------------------------------------------------------------ sets and maps
const setMethods = {
	add(o, [v]) { if (!decide(includesTerm(o, v))) setPieces(o, [...o.pieces, { e: v }]); return o },
	has(o, [v]) { return fromTerm(includesTerm(o, v)) },
	delete(o, [v]) {
		if (!decide(includesTerm(o, v))) return false
		arrayMethods.splice(o, [fromTerm(normIte(indexOfTerm(o, v))), 1])
		return true
	},
	clear(o) { setPieces(o, []) },
	forEach(o, [f]) { L.forEachOf('Set.forEach', o, v => { call(f, undefined, [v, v, o]) }); return undefined },
	values(o) { return iter(() => o.pieces) }, keys(o) { return iter(() => o.pieces) }
}
// a Map is a dictionary over arbitrary values with insertion order
function mapDict(o) { return o.dict }
const mapMethods = {
	get(o, [k]) { const kt = toVal(k); lookAt(o.dict.dom, kt, true); assumeElem(o.dict.map, kt); return fromTerm(S.ite(S.select(o.dict.dom, kt), S.select(o.dict.map, kt), S.VUNDEF)) },
	has(o, [k]) { lookAt(o.dict.dom, toVal(k), true); return fromTerm(S.select(o.dict.dom, toVal(k))) },
	set(o, [k, v]) { const kt = toVal(k), d = o.dict; lookAt(d.dom, kt, true); setDict(o, { ...d, dom: S.store(d.dom, kt, S.TRUE), map: S.store(d.map, kt, toVal(v)), keys: S.ite(S.select(d.dom, kt), d.keys, S.scat(d.keys, S.unit(kt))) }); return o },
	delete(o, [k]) { const kt = toVal(k), d = o.dict, has = S.select(d.dom, kt); setDict(o, { ...d, dom: S.store(d.dom, kt, S.FALSE), map: S.store(d.map, kt, S.VUNDEF), keys: S.ite(has, krem()(d.keys, kt), d.keys) }); return fromTerm(has) },
	clear(o) { setDict(o, emptyDict()) },
	keys(o) { return iter(() => seqPieces(o.dict.keys, { dom: o.dict.dom, kind: t => S.and(o.keyKind ? o.keyKind(t) : S.TRUE, S.select(o.dict.dom, t)), sort: undefined })) },
	values(o) { const r = makeArray([]); L.forEachOf('Map.values', mapMethods.keys(o), k => { setPieces(r, [...r.pieces, { e: mapMethods.get(o, [k]) }]) }); return r },
	entries(o) { throw new Unsupported('map entries') },
	forEach(o, [f]) { L.forEachOf('Map.forEach', mapMethods.keys(o), k => { call(f, undefined, [mapMethods.get(o, [k]), k, o]) }); return undefined }
}
export const emptyDict = () => ({ dom: S.constArr(S.SETV, S.FALSE), map: S.constArr(S.MAPV, S.VUNDEF), keys: S.SEMPTY, syms: S.SEMPTY })
// ------------------------------------------------------------ builtin members
function memo(name, make) { const c = M.extra.memo ??= new Map(); let f = c.get(name); if (!f) { f = make(); c.set(name, f) } return f }
function functionMethod(key) {
	switch (key) {
		case 'bind': return memo('Function.bind', () => native('bind', (f, args) => { const b = new Obj('Bound'); b.target = resolve(f); b.self = args[0]; b.boundArgs = args.slice(1); return b }))
		case 'call': return memo('Function.call', () => native('call', (f, args) => call(f, args[0], args.pieces ? Object.assign([], { pieces: args.pieces.slice(1) }) : args.slice(1))))
		case 'apply': return memo('Function.apply', () => native('apply', (f, [self, list]) => { const ps = list === undefined || list === null ? [] : iterablePieces(list); return call(f, self, allElems(ps) ? ps.map(p => p.e) : Object.assign([], { pieces: ps })) }))
	}
}
function builtinMember(o, key) {
	if (typeof key !== 'string') return undefined
	if (o.kind === 'Array' && Object.hasOwn(arrayMethods, key)) return memo('Array.' + key, () => native(key, (self, args) => { self = resolve(self); if (!(self instanceof Obj) || !self.pieces) throw new Unsupported('array method on ' + self?.kind); return arrayMethods[key](self, args) }))
	if (o.kind === 'Set') { if (key === 'size') return fromTerm(lengthTerm(o)); if (Object.hasOwn(setMethods, key)) return memo('Set.' + key, () => native(key, (self, args) => setMethods[key](self, args))) }
	if (o.kind === 'Map') { if (key === 'size') return fromTerm(S.slen(o.dict.keys)); if (Object.hasOwn(mapMethods, key)) return memo('Map.' + key, () => native(key, (self, args) => mapMethods[key](self, args))) }
	if (o.kind === 'Promise' && (key === 'then' || key === 'catch' || key === 'finally')) return memo('Promise.' + key, () => promiseMethod(key))
	if (isFunction(o)) {
		if (key === 'name') return o.kind === 'Bound' ? 'bound ' + get(o.target, 'name') : o.fname ?? ''
		if (key === 'length') return o.node ? o.node.parameters.length : 0
		if (key === 'prototype' && o.node && !ts.isArrowFunction(o.node)) { const p = makeObject(); setSlot(o, 'prototype', { v: p, enumerable: false, writable: true }); return p }
		const m = functionMethod(key)
		if (m) return m
	}
	if (o.kind === 'Error') { if (key === 'name') return o.ename; if (key === 'toString') return memo('Error.toString', () => native('toString', self => fromTerm(S.concat(toStringTerm(get(self, 'name')), S.str(': '), toStringTerm(get(self, 'message')))))); if (key === 'stack') return 'stack' }
	if (o.kind === 'RegExp' && key === 'test') return native('test', (self, [s]) => { if (/[gy]/.test(self.re.flags)) throw new Unsupported('regexp that keeps its position'); if (s instanceof SV) s = fromTerm(toStringTerm(s)); if (!(s instanceof SV)) return self.re.test(String(s)); return fromTerm(matches(self.re, s.t)) })
	switch (key) {
		case 'hasOwnProperty': return memo('Object.hasOwnProperty', () => native('hasOwnProperty', (self, [k]) => fromTerm(hasOwn(toObj(self), toKey(k)))))
		case 'toString': return memo('Object.toString', () => native('toString', self => isFunction(self) ? `function ${self.fname}` : '[object Object]'))
		case 'valueOf': return memo('Object.valueOf', () => native('valueOf', self => self))
		case 'propertyIsEnumerable': case 'isPrototypeOf': case 'toLocaleString': return memo('Object.' + key, () => native(key, () => { throw new Unsupported(key) }))
		case 'constructor': return M.globals?.get(o.kind === 'Object' ? 'Object' : o.kind)
		case '__proto__': return o.proto
	}
	return undefined
}
/** do all characters of the text fit the class; undefined when its form does not tell */
function allIn(t, one) {
	const lit = S.strLit(t)
	if (lit !== undefined) return [...lit].every(c => one.test(c))
	switch (t.op) {
		case 'str.++': return t.args.every(x => allIn(x, one))
		case 'str.substr': case 'str.at': return allIn(t.args[0], one)
		case 'ite': return allIn(t.args[1], one) && allIn(t.args[2], one)
		case 'digits36': case 'digits36of11': return [...'0123456789abcdefghijklmnopqrstuvwxyz'].every(c => one.test(c))
	}
	return false
}
function matches(re, t) {
	const m = /^\^(\[\^?(?:\\.|[^\]\\])+\]|\\w|\\d)(\*|\+|\{(\d+)(?:(,)(\d*))?\})\$$/.exec(re.source)
	if (m && re.flags === '' && allIn(t, new RegExp(`^${m[1]}$`))) {
		const n = slenS(t)
		if (m[2] === '*') return S.TRUE
		if (m[2] === '+') return S.lt(S.int(0), n)
		const lo = S.le(S.int(+m[3]), n)
		return m[4] ? (m[5] ? S.and(lo, S.le(n, S.int(+m[5]))) : lo) : S.eq(n, S.int(+m[3]))
	}
	return S.ufun(plainName('matches ' + re), [S.STR], S.BOOL)(t)
}
/** a text as the name of a function symbol */
const plainName = text => quoteName(text.replace(/[^\w ]/g, c => `$${c.charCodeAt(0)}_`))
// ------------------------------------------------------------ globals
export function freeze(o) {
	o = resolve(o)
	if (o instanceof Obj) { if (!o.frozen) setFieldQuiet(o, 'frozen', true) } else if (o instanceof SV && o.t.sort === S.VAL) { if (!M.frame?.nested) ((M.extra.froze ??= { R: new Set(), G: new Set() })[M.side]).add(o.t); assume(frozenTerm(o.t)) }
	return o
}
/** frozen from the start, or by what one side did */
export const frozenTerm = (t, side = M.side) => S.or(S.not(S.is('VRef', t)), S.ufun('frozen?', [S.INT], S.BOOL)(S.sel('VRef', t)), S.ufun('froze' + side, [S.INT], S.BOOL)(S.sel('VRef', t)))
const J = {
	str: t => S.ufun('json.str', [S.VAL], S.STR)(t), parse: t => S.ufun('json.parse', [S.STR], S.VAL)(t)
}
export function buildGlobals() {
	const g = new Map()
	const ns = (name, fns, extra = {}) => { const o = makeObject(); for (const [k, f] of Object.entries(fns)) o.props.set(k, { v: native(k, f), enumerable: false, writable: true }); for (const [k, v] of Object.entries(extra)) o.props.set(k, { v, enumerable: false, writable: true }); g.set(name, o); return o }
	const ctor = (name, fn, make, fns = {}) => { const o = native(name, fn); o.ctor = make; const p = makeObject(); o.props.set('prototype', { v: p, enumerable: false, writable: false }); for (const [k, f] of Object.entries(fns)) o.props.set(k, { v: native(k, f), enumerable: false, writable: true }); g.set(name, o); return o }
	const sy = (id, desc) => { const s = new Sy(id, desc); M.symbols.set(id, s); return s }
	ctor('Object', (_, [v]) => v ?? makeObject(), () => makeObject(), {
		is: (_, [a, b]) => fromTerm(sameValue(a, b)),
		freeze: (_, [o]) => freeze(o),
		isFrozen: (_, [o]) => { o = resolve(o); return o instanceof Obj ? o.frozen : o instanceof SV && o.t.sort === S.VAL ? fromTerm(frozenTerm(o.t)) : true },
		create: (_, [p]) => makeObject(p === null ? null : p),
		keys: (_, [o]) => makeArray(ownKeyPieces(toObj(o), 'string')),
		getOwnPropertyNames: (_, [o]) => makeArray(ownKeyPieces(toObj(o), 'string', false)),
		getOwnPropertySymbols: (_, [o]) => makeArray(ownKeyPieces(toObj(o), 'sym', false)),
		values: (_, [o]) => { o = toObj(o); const r = makeArray([]); L.forEachOf('Object.values', makeArray(ownKeyPieces(o, 'string')), k => { setPieces(r, [...r.pieces, { e: get(o, toKey(k)) }]) }); return r },
		entries: (_, [o]) => { o = toObj(o); const r = makeArray([]); L.forEachOf('Object.entries', makeArray(ownKeyPieces(o, 'string')), k => { setPieces(r, [...r.pieces, { e: listToArray([k, get(o, toKey(k))]) }]) }); return r },
		fromEntries: (_, [it]) => { const o = makeObject(); L.forEachOf('Object.fromEntries', it, p => { define(o, toKey(get(p, 0)), get(p, 1)) }); return o },
		assign: (_, [o, ...src]) => { for (const s of src) assignInto(o, s); return o },
		getPrototypeOf: (_, [o]) => { o = toObj(o); if (o instanceof SV) return g.get('Object').props.get('prototype').v; return o.proto === undefined ? g.get(o.kind === 'Function' || o.kind === 'Bound' ? 'Function' : g.has(o.kind) ? o.kind : 'Object').props.get('prototype').v : o.proto },
		setPrototypeOf: (_, [o, p]) => { setFieldQuiet(o, 'proto', p); return o },
		hasOwn: (_, [o, k]) => fromTerm(hasOwn(toObj(o), toKey(k))),
		defineProperty: (_, [o, k, d]) => {
			const key = toKey(k)
			if (key instanceof SV) { if (truthy(get(d, 'enumerable'))) throw new Unsupported('defineProperty'); }
			const getter = get(d, 'get'), setter = get(d, 'set')
			if (getter !== undefined || setter !== undefined) setSlot(o, key, { get: getter, set: setter, enumerable: truthy(get(d, 'enumerable')) })
			else setSlot(o, key, { v: get(d, 'value'), enumerable: truthy(get(d, 'enumerable')), writable: truthy(get(d, 'writable')) })
			return o
		},
		defineProperties: () => { throw new Unsupported('defineProperties') },
		getOwnPropertyDescriptor: () => { throw new Unsupported('getOwnPropertyDescriptor') }
	})
	// Object.prototype.hasOwnProperty.call(...)
	const op = g.get('Object').props.get('prototype').v
	for (const k of ['hasOwnProperty', 'toString', 'valueOf']) op.props.set(k, { v: builtinMember(makeObject(), k), enumerable: false, writable: true })
	ctor('Function', () => { throw new Unsupported('Function()') }, () => { throw new Unsupported('Function()') })
	const arr = ctor('Array', (_, args) => listToArray(args), args => args.length === 0 ? makeArray([]) : listToArray(args), {
		isArray: (_, [v]) => { v = resolve(v); return v instanceof Obj ? v.kind === 'Array' : v instanceof SV && v.t.sort === S.VAL ? fromTerm(S.and(S.is('VRef', v.t), S.ufun('isarray', [S.VAL], S.BOOL)(v.t))) : false },
		from: (_, [v, f]) => { v = resolve(v); if (v instanceof Obj && v.kind === 'Object') return fromLength(intTerm(get(v, 'length')), f); const a = makeArray(iterablePieces(v)); return f === undefined ? a : arrayMethods.map(a, [f]) },
		of: (_, args) => listToArray(args)
	})
	for (const k of Object.keys(arrayMethods)) arr.props.get('prototype').v.props.set(k, { v: builtinMember(Object.assign(makeArray([])), k), enumerable: false, writable: true })
	ctor('Promise', () => { throw typeError('Promise') }, ([ex]) => { const p = makePromise(); try { call(ex, undefined, [native('', (_, [v]) => { resolvePromise(p, v) }), native('', (_, [v]) => { settle(p, 'rejected', v) })]) } catch (e) { if (!(e instanceof Thrown)) throw e; settle(p, 'rejected', e.value) } return p }, {
		resolve: (_, [v]) => { if (v instanceof Obj && v.kind === 'Promise') return v; const p = makePromise(); resolvePromise(p, v); return p },
		reject: (_, [v]) => { const p = makePromise(); settle(p, 'rejected', v); return p },
		all: (_, [list]) => {
			const ps = iterablePieces(list)
			if (!allElems(ps)) throw new Unsupported('Promise.all of a symbolic list')
			const p = makePromise(); const vals = []; let left = ps.length
			if (!left) resolvePromise(p, makeArray([]))
			ps.forEach((q, i) => { const w = q.e instanceof Obj && q.e.kind === 'Promise' ? q.e : wrap(q.e); react(w, v => { vals[i] = v; if (--left === 0) resolvePromise(p, listToArray(vals)) }, e => settle(p, 'rejected', e)) })
			return p
		}
	})
	ctor('Map', () => { throw typeError('Map') }, ([init]) => { const o = new Obj('Map'); o.dict = emptyDict(); if (init !== undefined && init !== null) L.forEachOf('Map', init, p => { mapMethods.set(o, [get(p, 0), get(p, 1)]) }); return o })
	ctor('WeakMap', () => { throw typeError('Map') }, () => { const o = new Obj('Map'); o.dict = emptyDict(); return o })
	ctor('Set', () => { throw typeError('Set') }, ([init]) => { const o = new Obj('Set'); o.pieces = []; if (init !== undefined && init !== null) { const ps = iterablePieces(init); if (allElems(ps)) for (const p of ps) setMethods.add(o, [p.e]); else o.pieces = ps } return o })
	ctor('WeakSet', () => { throw typeError('Set') }, () => { const o = new Obj('Set'); o.pieces = []; return o })
	const err = name => ctor(name, (_, [m]) => makeError(name, m), ([m, opt]) => { const e = makeError(name, m === undefined ? '' : fromTerm(toStringTerm(m))); if (opt !== undefined && isTrue(hasProp(toObj(opt), 'cause'))) e.props.set('cause', { v: get(opt, 'cause'), enumerable: false, writable: true }); return e }, { captureStackTrace: () => undefined })
	for (const n of ['Error', 'TypeError', 'RangeError', 'ReferenceError', 'SyntaxError']) err(n)
	const symbolFor = new Map()
	const symf = native('Symbol', (_, [d]) => { const id = 1000 + M.symbols.size; return sy(id, d) })
	symf.props.set('for', { v: native('for', (_, [k]) => { if (!symbolFor.has(k)) symbolFor.set(k, sy(100 + symbolFor.size, k)); return symbolFor.get(k) }), enumerable: false })
	for (const [i, n] of ['iterator', 'asyncIterator', 'toStringTag', 'hasInstance'].entries()) { const s = sy(10 + i, n); symf.props.set(n, { v: s, enumerable: false }) }
	g.set('Symbol', symf)
	ns('Reflect', {
		get: (_, [o, k]) => get(o, k instanceof Sy || k instanceof SV ? k : toKey(k)), set: (_, [o, k, v]) => { set(o, toKey(k), v); return true }, has: (_, [o, k]) => fromTerm(hasProp(toObj(o), toKey(k))),
		ownKeys: (_, [o]) => makeArray(ownKeyPieces(toObj(o), 'both', false)), apply: (_, [f, self, list]) => { const ps = iterablePieces(list); return call(f, self, allElems(ps) ? ps.map(p => p.e) : Object.assign([], { pieces: ps })) },
		deleteProperty: (_, [o, k]) => { remove(o, toKey(k)); return true }, construct: (_, [f, l]) => construct(f, iterablePieces(l).map(p => p.e)), getPrototypeOf: (_, [o]) => toObj(o).proto ?? null
	})
	ctor('Proxy', () => { throw typeError('Proxy') }, ([t, h]) => { const o = new Obj('Proxy'); o.target = t; o.handler = h; return o })
	ns('Math', {
		random: () => {
			const t = freshTerm('random', S.REAL)
			assume(S.and(S.le(S.realLit(0), t), S.lt(t, S.realLit(1))))
			if (M.extra.generic?.[M.side]) {
				// draws with eleven digits, of which no two are the same
				const d = S.ufun('digits36of11', [S.REAL], S.STR), draws = (M.extra.draws ??= new Set())
				assume(S.lt(S.realLit(0), t)); assume(S.eq(S.app('str.len', [d(t)], S.INT), S.int(11)))
				for (const x of draws) if (x !== t) assume(S.not(S.eq(d(x), d(t))))
				draws.add(t)
			}
			return new SV(t)
		},
		max: (_, args) => args.reduce((a, b) => fromTerm(!(a instanceof SV) && !(b instanceof SV) ? numTerm(Math.max(a, b)) : S.ite(S.lt(numTerm(a), numTerm(b)), numTerm(b), numTerm(a)))),
		min: (_, args) => args.reduce((a, b) => fromTerm(!(a instanceof SV) && !(b instanceof SV) ? numTerm(Math.min(a, b)) : S.ite(S.lt(numTerm(a), numTerm(b)), numTerm(a), numTerm(b)))),
		floor: (_, [x]) => { if (!(x instanceof SV)) return Math.floor(x); if (x.t.sort === S.INT) return x; return new SV(S.strOp('to_int', [x.t], S.INT)) },
		ceil: (_, [x]) => { if (!(x instanceof SV)) return Math.ceil(x); throw new Unsupported('ceil') }, abs: (_, [x]) => { if (!(x instanceof SV)) return Math.abs(x); throw new Unsupported('abs') }
	})
	ns('JSON', {
		stringify: (_, args) => {
			const v = resolve(args[0])
			if (args.length > 1 && args[1] !== undefined) throw new Unsupported('JSON.stringify with replacer')
			if (!(v instanceof SV)) { if (v === undefined || isFunction(v)) return undefined; if (!(v instanceof Obj)) return JSON.stringify(v) }
			if (v instanceof SV && v.t.sort === S.VAL) { if (isUndef(v)) return undefined; if (decide(isFnTerm(v.t))) return undefined }
			const t = jsonTerm(v)
			return fromTerm(J.str(t))
		},
		parse: (_, [s]) => { const t = toStringTerm(s); if (S.strLit(t) !== undefined) { try { return fromJson(JSON.parse(S.strLit(t))) } catch (e) { throw makeThrown('SyntaxError', e.message) } } if (t.op !== 'json.str' && !decide(S.ufun('json.valid', [S.STR], S.BOOL)(t))) throw makeThrown('SyntaxError', 'JSON')
			const r = external(J.parse(t)); assume(S.not(S.is('VUndef', r))); assume(S.not(isFnTerm(r)))
			// the text of a value that was read from the text of a value is that text
			if (t.op === 'json.str') assume(S.eq(J.str(r), t))
			return fromTerm(r) }
	})
	ctor('String', (_, args) => args.length ? fromTerm(args[0] instanceof Sy ? S.str(`Symbol(${args[0].desc})`) : toStringTerm(args[0])) : '', () => { throw new Unsupported('new String') })
	ctor('Number', (_, [v]) => toNumber(v), () => { throw new Unsupported('new Number') }, { isNaN: (_, [v]) => { v = narrow(v); return Number.isNaN(v) }, isInteger: (_, [v]) => { v = narrow(v); if (v instanceof SV) { if (v.t.sort === S.INT) return true; throw new Unsupported('isInteger') } return Number.isInteger(v) }, isFinite: (_, [v]) => Number.isFinite(narrow(v)) })
	ctor('Boolean', (_, [v]) => fromTerm(truthTerm(v)), () => { throw new Unsupported('new Boolean') })
	ctor('Date', () => 'date', () => makeObject(), { now: () => new SV(freshTerm('now', S.INT)) })
	g.set('NaN', NaN); g.set('Infinity', Infinity)
	g.set('isNaN', native('isNaN', (_, [v]) => { v = narrow(v); return v instanceof SV ? false : Number.isNaN(v) }))
	ns('console', { log: () => undefined, error: () => undefined, warn: () => undefined, info: () => undefined, debug: () => undefined, trace: () => undefined })
	g.set('structuredClone', native('structuredClone', (_, [v]) => cloneValue(v)))
	return g
}
/** the JSON content of a value, as a term that does not depend on object identity */
function jsonTerm(v) {
	v = resolve(v)
	if (v instanceof Obj) {
		if (v.kind === 'Array') return S.ufun('json.arr', [S.SEQ], S.VAL)(S.scat(...v.pieces.map(p => 'e' in p ? S.unit(jsonTerm(p.e)) : 's' in p ? p.s : L.compSeq(p))))
		if (v.dict) return S.ufun('json.dict', [S.SETV, S.MAPV, S.SEQ], S.VAL)(v.dict.dom, v.dict.map, v.dict.keys)
		let t = S.constant('json.obj0', S.VAL)
		for (const [k, s] of v.props) if (typeof k === 'string' && s.enumerable !== false) t = S.ufun('json.prop', [S.VAL, S.STR, S.VAL], S.VAL)(t, S.str(k), jsonTerm(s.v))
		return t
	}
	return toVal(v)
}
function fromJson(x) { if (Array.isArray(x)) return listToArray(x.map(fromJson)); if (x && typeof x === 'object') { const o = makeObject(); for (const [k, v] of Object.entries(x)) o.props.set(k, { v: fromJson(v), enumerable: true, writable: true }); return o } return x }
export function assignInto(o, s) {
	const src = resolve(s)
	if (src === undefined || src === null) return
	if (o instanceof Obj && !(src instanceof SV)) {
		if (src.dict) { if (o.props.size === 0 && !o.dict) { setDict(o, { ...src.dict }); return } throw new Unsupported('Object.assign of a dictionary') }
		for (const [k, sl] of [...src.props]) if (sl.enumerable !== false) set(o, k, sl.get ? call(sl.get, src, []) : sl.v)
		return
	}
	if (o instanceof Obj) return spreadInto(o, src)
	throw new Unsupported('Object.assign to an object of the environment')
}
/** structural copy of engine objects (plain objects and arrays) */
export function cloneValue(v, memo = new Map()) {
	if (!(v instanceof Obj)) return v
	if (memo.has(v)) return memo.get(v)
	if (v.kind === 'Array') { const o = makeArray([]); memo.set(v, o); o.pieces = v.pieces.map(p => ('e' in p ? { e: cloneValue(p.e, memo) } : p)); return o }
	if (v.kind === 'Object' && (v.proto === undefined || v.proto === null)) {
		const o = makeObject(v.proto); memo.set(v, o)
		for (const [k, s] of v.props) o.props.set(k, 'v' in s ? { ...s, v: cloneValue(s.v, memo) } : s)
		if (v.dict) o.dict = { ...v.dict }
		return o
	}
	return v
}
/** a global made when it is first used */
export class Lazy { constructor(make) { this.make = make } }
export const hasGlobal = name => M.globals?.has(name) || M.extra.sideGlobals?.[M.side].has(name)
export function globalValue(name, node) {
	const own = M.extra.sideGlobals?.[M.side]
	if (own?.has(name)) return own.get(name)
	if (M.globals?.has(name)) {
		const v = M.globals.get(name)
		if (!(v instanceof Lazy)) return v
		const w = v.make()
		M.globals.set(name, w)
		return w
	}
	throw makeThrown('ReferenceError', name + ' is not defined')
}
