// The symbolic machine: values, journaled heap, path conditions, exploration of all paths.
import * as S from './smt.mjs'

export class Unsupported extends Error { constructor(msg, node) { super(msg); this.node = node } }
export class Thrown { constructor(value) { this.value = value } }
export class Prune { }
/** run the path again, keeping the first decisions */
export class Redo extends Error { constructor(keep) { super('redo'); this.keep = keep } }
export class SV { constructor(t) { this.t = t } }
export class Sy { constructor(id, desc) { this.id = id; this.desc = desc } }
export class Cell { constructor(v) { this.id = M.nextId++; this.v = v; M.cells.set(this.id, this) } }
export class Obj {
	constructor(kind, proto) {
		this.id = M.nextId++
		this.kind = kind
		this.proto = proto
		this.props = new Map()
		this.frozen = false
		this.dict = null
		this.pieces = null
		M.objs.set(this.id, this)
	}
}
export const TDZ = Symbol('tdz')

/** all state of the run in progress; recreated for every path */
export const M = {
	made: 0,
	nextId: 1, objs: new Map(), cells: new Map(), journal: [], writes: [], pc: [], pcSet: new Map(), frame: null, session: null,
	fresh: new Map(), side: 'R', microtasks: { R: [], G: [] }, trace: { R: [], G: [] }, modules: new Map(), steps: 0,
	refs: new Map(), loops: [], tag: { R: [], G: [] }, loopOrd: { R: 0, G: 0 }, onOpaqueCall: null, promises: new Map(), solverMemo: new Map()
}
export function resetRun() {
	M.nextId = 1; M.objs = new Map(); M.cells = new Map(); M.journal = []; M.writes = []; M.pc = []; M.pcSet = new Map(); M.fresh = new Map(); M.side = 'R'
	M.microtasks = { R: [], G: [] }; M.trace = { R: [], G: [] }; M.modules = new Map(); M.steps = 0; M.refs = new Map(); M.loops = []; M.tag = { R: [], G: [] }
	M.loopOrd = { R: 0, G: 0 }; M.onOpaqueCall = null; M.onPieces = undefined; M.promises = new Map(); M.callOrd = { R: [0], G: [0] }; M.symbols = new Map(); M.globals = null; M.depth = 0; M.extra = {}; M.born = { R: new Map(), G: new Map() }; M.compare = null
}
// ------------------------------------------------------------ journaled mutation
function record(undo, loc, id = loc.o.id) { M.journal.push({ undo, id }); if (loc) M.writes.push(loc) }
/** undo the mutations made since the mark; objects allocated since then (id >= base) keep their contents: values of the summary may refer to them */
export function rollback(mark, base = Infinity) { while (M.journal.length > mark) { const j = M.journal.pop(); if (j.id < base) j.undo() } }
export function setCell(c, v) { const o = c.v; record(() => { c.v = o }, { k: 'c', o: c }); c.v = v }
export function initCell(c, v) { const o = c.v; record(() => { c.v = o }, null, c.id); c.v = v }
export function setSlot(obj, key, slot) {
	const had = obj.props.has(key), o = obj.props.get(key)
	record(() => { if (had) obj.props.set(key, o); else obj.props.delete(key) }, { k: 'p', o: obj, key })
	obj.props.set(key, slot)
}
export function delSlot(obj, key) {
	if (!obj.props.has(key)) return
	const entries = [...obj.props]
	record(() => { obj.props.clear(); for (const [a, b] of entries) obj.props.set(a, b) }, { k: 'p', o: obj, key })
	obj.props.delete(key)
}
export function setPieces(obj, pieces) { const o = obj.pieces; if (M.onPieces && obj.id < M.constructEnd) M.onPieces(obj, o, pieces); record(() => { obj.pieces = o }, { k: 'a', o: obj }); obj.pieces = pieces }
export function setDict(obj, dict) { const o = obj.dict; record(() => { obj.dict = o }, { k: 'd', o: obj }); obj.dict = dict }
export function setField(obj, f, v) { const o = obj[f]; record(() => { obj[f] = o }, { k: 's', o: obj, key: f }); obj[f] = v }
export function setFieldQuiet(obj, f, v) { const o = obj[f]; record(() => { obj[f] = o }, null, obj.id); obj[f] = v }
export function pushEvent(ev) { const t = M.trace[M.side]; const side = M.side; t.push(ev); M.journal.push({ undo: () => { M.trace[side].pop() }, id: 0 }) }
export function convertToDict(obj) {
	if (obj.dict) return
	let dom = S.constArr(S.SETV, S.FALSE), map = S.constArr(S.MAPV, S.VUNDEF), keys = S.SEMPTY, syms = S.SEMPTY
	const rest = new Map()
	for (const [k, slot] of obj.props) {
		if (slot.get || slot.set || slot.enumerable === false) throw new Unsupported('symbolic key on an object with accessors')
		const kt = keyTerm(k)
		dom = S.store(dom, kt, S.TRUE); map = S.store(map, kt, toVal(slot.v))
		if (typeof k === 'string') keys = S.scat(keys, S.unit(kt)); else syms = S.scat(syms, S.unit(kt))
	}
	const op = obj.props
	record(() => { obj.props = op; obj.dict = null }, null, obj.id)
	obj.props = rest
	obj.dict = { dom, map, keys, syms }
}
// ------------------------------------------------------------ values <-> terms
export function symbolId(sy) { return sy.id }
export function keyTerm(k) {
	if (typeof k === 'string') return S.V('VStr', S.str(k))
	if (k instanceof Sy) return S.V('VSym', S.int(k.id))
	if (k instanceof SV) return k.t.sort === S.STR ? S.V('VStr', k.t) : k.t
	throw new Unsupported('key')
}
export function numVal(n) {
	if (Number.isNaN(n)) return S.VNAN
	if (Object.is(n, -0)) return S.VNEGZ
	if (n === Infinity || n === -Infinity) return S.V('VInf', S.bool(n > 0))
	return S.V('VNum', S.realLit(n))
}
export function toVal(v) {
	if (v === undefined) return S.VUNDEF
	if (v === null) return S.VNULL
	switch (typeof v) {
		case 'boolean': return S.V('VBool', S.bool(v))
		case 'number': return numVal(v)
		case 'string': return S.V('VStr', S.str(v))
	}
	if (v instanceof Sy) return S.V('VSym', S.int(v.id))
	if (v instanceof Obj) return v.asTerm ?? S.V('VRef', S.int(v.id))
	if (v instanceof SV) {
		switch (v.t.sort) {
			case S.VAL: return v.t
			case S.BOOL: return S.V('VBool', v.t)
			case S.INT: case S.REAL: return S.V('VNum', S.toReal(v.t))
			case S.STR: return S.V('VStr', v.t)
		}
	}
	throw new Unsupported('cannot embed ' + (v?.constructor?.name ?? v))
}
/** value of a term, as concrete as its form allows */
export function fromTerm(t) {
	switch (t.sort) {
		case S.BOOL: return t === S.TRUE ? true : t === S.FALSE ? false : new SV(t)
		case S.INT: { const n = S.intVal(t); return n !== undefined ? n : new SV(t) }
		case S.STR: { const s = S.strLit(t); return s !== undefined ? s : new SV(t) }
		case S.REAL: return t.op.startsWith('real#') ? Number(t.op.slice(5)) : new SV(t)
		case S.VAL:
			switch (t.op) {
				case 'VUndef': return undefined
				case 'VNull': return null
				case 'VNaN': return NaN
				case 'VNegZ': return -0
				case 'VInf': return t.args[0] === S.TRUE ? Infinity : t.args[0] === S.FALSE ? -Infinity : new SV(t)
				case 'VBool': case 'VStr': return fromTerm(t.args[0])
				case 'VNum': return t.args[0].op === 'to_real' ? new SV(t.args[0].args[0]) : fromTerm(t.args[0])
				case 'VRef': { const n = S.intVal(t.args[0]); return n !== undefined && M.objs.has(n) ? M.objs.get(n) : new SV(t) }
				case 'VSym': { const n = S.intVal(t.args[0]); return n !== undefined && M.symbols.has(n) ? M.symbols.get(n) : new SV(t) }
			}
			return new SV(t)
	}
	throw new Error('sort ' + t.sort)
}
// ------------------------------------------------------------ path condition and decisions
export function assume(t) {
	if (t === S.TRUE) return
	if (t.op === 'and') { for (const a of t.args) assume(a); return }
	if (M.pcSet.has(t)) return
	M.pcSet.set(t, true)
	M.pc.push(t)
}
function known(t) {
	if (t === S.TRUE) return true
	if (t === S.FALSE) return false
	if (M.pcSet.has(t)) return true
	if (M.pcSet.has(S.not(t))) return false
	if (t.op === 'and') { let all = true; for (const a of t.args) { const k = known(a); if (k === false) return false; if (k !== true) all = false } return all ? true : undefined }
	if (t.op === 'or') { let none = true; for (const a of t.args) { const k = known(a); if (k === true) return true; if (k !== false) none = false } return none ? false : undefined }
	if (t.op === 'not') { const k = known(t.args[0]); return k === undefined ? undefined : !k }
	return undefined
}
const memo = new Map()
function ask(pc, extra) {
	let key = ''
	for (const p of pc) key += p.id + ','
	key += '?' + extra.id
	let r = memo.get(key)
	if (memo.size > 400000) memo.clear()
	if (r === undefined) { r = M.session.check(pc, extra); memo.set(key, r) }
	return r
}
/** the part of the path condition that speaks of what the term speaks of, directly or through other parts */
function about(extra) {
	const pc = M.pc, n = pc.length, left = []
	const seen = new Set(S.symbols(extra)), out = new Uint8Array(n)
	let count = 0
	for (let i = 0; i < n; i++) left.push(i)
	for (let again = true; again;) {
		again = false
		let k = 0
		for (const i of left) {
			const ss = S.symbols(pc[i])
			if (ss.length === 0 || ss.some(x => seen.has(x))) { out[i] = 1; count++; for (const x of ss) if (!seen.has(x)) { seen.add(x); again = true } }
			else left[k++] = i
		}
		left.length = k
	}
	return count === n ? pc : pc.filter((_, i) => out[i])
}
/** is the term possible under the path condition: 'sat' may be an overstatement, 'unsat' is not */
export function query(extra) {
	const k = known(extra)
	if (k === false) return 'unsat'
	return ask(about(extra), extra)
}
export const feasible = t => { const k = known(t); return k === undefined ? query(t) !== 'unsat' : k }
/** is t valid under the path condition (quick solver only) */
export function valid(t) {
	const k = known(t)
	if (k === true) return true
	return query(S.not(t)) === 'unsat'
}
/** can the path condition hold: its parts that have nothing to do with each other are looked at one by one */
export function pcFeasible() {
	const pc = M.pc, group = new Map(), by = new Map()
	const find = x => { let g = x; while (group.get(g) !== undefined && group.get(g) !== g) g = group.get(g); group.set(x, g); return g }
	for (const p of pc) { const ss = S.symbols(p); for (const x of ss) group.set(find(x), find(ss[0])) }
	for (const p of pc) { const ss = S.symbols(p), g = ss.length ? find(ss[0]) : ''; const l = by.get(g); if (l) l.push(p); else by.set(g, [p]) }
	for (const l of by.values()) if (ask(l, S.TRUE) === 'unsat') return false
	return true
}
/** branch on a symbolic condition */
export function decide(t) {
	const k = known(t)
	if (k !== undefined) return k
	const f = M.frame
	const i = f.pos++
	if (i < f.plan.length) { const d = f.plan[i]; assume(d.choice ? t : S.not(t)); return d.choice }
	if (f.plan.length > 400) throw new Unsupported('too many decisions on one path')
	const canT = query(t) !== 'unsat'
	const canF = canT ? query(S.not(t)) !== 'unsat' : true
	const d = { choice: canT, alt: canT && canF }
	f.plan.push(d)
	assume(d.choice ? t : S.not(t))
	return d.choice
}
export const limits = { paths: 20000, deadline: Infinity }
/**
 * Run thunk once per feasible path. Top level: `reset` recreates the machine before each path.
 * Nested: the heap, trace and path condition are rolled back after each path.
 */
export function explore(thunk, { reset } = {}) {
	const plan = []
	const out = []
	const outer = M.frame
	let redone = 0
	for (let n = 0; ; n++) {
		if (n > limits.paths) throw new Unsupported('too many paths')
		if (Date.now() > limits.deadline) throw new Unsupported('verifier time budget used up')
		let save
		if (reset) { resetRun(); reset() }
		else save = saveState()
		M.frame = { plan, pos: 0, outer, nested: !reset }
		try {
			const r = thunk()
			out.push(r)
			redone = 0
		} catch (e) {
			if (e instanceof Redo && reset) {
				if (++redone > 80) throw new Unsupported('the description of the states does not stabilise')
				plan.length = Math.min(plan.length, e.keep)
				M.frame = outer
				continue
			}
			if (!(e instanceof Prune)) { M.frame = outer; if (save) restoreState(save); throw e }
		}
		M.frame = outer
		if (save) restoreState(save)
		while (plan.length && !plan[plan.length - 1].alt) plan.pop()
		if (!plan.length) break
		const l = plan[plan.length - 1]
		l.choice = !l.choice
		l.alt = false
	}
	return out
}
export function saveState() {
	return { base: M.nextId, j: M.journal.length, w: M.writes.length, pc: M.pc.slice(), set: new Map(M.pcSet), mt: { R: M.microtasks.R.slice(), G: M.microtasks.G.slice() }, side: M.side, refs: new Map(M.refs), nextId: M.nextId, loops: M.loops.length, loopOrd: { ...M.loopOrd }, co: { R: M.callOrd.R.slice(), G: M.callOrd.G.slice() } }
}
export function restoreState(s) {
	rollback(s.j, s.base)
	M.writes.length = s.w
	M.pc = s.pc; M.pcSet = s.set; M.microtasks = s.mt; M.side = s.side; M.refs = s.refs; M.loopOrd = s.loopOrd; M.callOrd = s.co
	// ids allocated inside stay allocated: terms of the summary may mention them
}
// ------------------------------------------------------------ fresh symbolic values
export function freshName(base) {
	base = base.replace(/[^\w!.]/g, '_')
	const n = M.fresh.get(base) ?? 0
	M.fresh.set(base, n + 1)
	return n ? `${base}~${n}` : base
}
const quote = n => (/^[\w]+$/.test(n) ? n : `|${n}|`)
export function freshTerm(base, sort) { const t = S.constant(quote(freshName(base)), sort); born(t); return t }
/** constants made during this run, in order: tells which ones are local to a loop body */
export function born(t) { const b = M.born[M.side]; if (!b.has(t)) b.set(t, b.size); return t }
export function bornSince(t, mark, except, side = M.side, memo = new Map()) {
	if (t === except) return false
	const b = M.born[side].get(t)
	if (b !== undefined && b >= mark) return true
	if (memo.has(t)) return memo.get(t)
	const r = t.args.some(a => bornSince(a, mark, except, side, memo))
	memo.set(t, r)
	return r
}
/** an unknown JS value coming from outside the verified code: not one of its own objects, unless listed */
export function external(t, knownRefs = []) {
	const ids = knownRefs.map(o => (o instanceof Obj ? o.id : o))
	assume(S.or(S.not(S.is('VRef', t)), S.lt(S.sel('VRef', t), S.int(0)), ...ids.map(id => S.eq(t, S.V('VRef', S.int(id))))))
	if (ids.length) { M.refs.set(t, ids); if (M.assertContent) for (const id of ids) M.assertContent(id) }
	return t
}
export const freshVal = (base, refs) => new SV(external(freshTerm(base, S.VAL), refs))
export const isFnTerm = t => S.and(S.is('VRef', t), S.ufun('fn?', [S.INT], S.BOOL)(S.sel('VRef', t)))
export const ISFN = n => S.ufun('fn?', [S.INT], S.BOOL)(n)
export function quoteName(n) { return quote(n) }
