// Proof that a real component refines its contract: every operation, from every reachable pair of states, for all inputs.
import { join } from 'node:path'
import * as S from './smt.mjs'
import { M, Obj, Cell, SV, Sy, Thrown, Prune, Redo, Unsupported, explore, assume, decide, valid, query, toVal, fromTerm, external, limits, setCell, setSlot, setPieces, setDict, setField, convertToDict, pushEvent, quoteName, isFnTerm, born, pcFeasible, resetRun, feasible } from './machine.mjs'
import * as O from './objects.mjs'
import * as L from './loops.mjs'
import { liveCells } from './reach.mjs'
import * as T from './trees.mjs'
import { importValue, policy, REPO, HERE, loadModule, natives } from './modules.mjs'
import { nativeLogger, pageGlobals, foreign } from './ext.mjs'

export class Mismatch extends Error { }
const dbg = process.env.TSV_DEBUG ? (...a) => console.error(...a) : () => { }
export const stats = { obligations: 0, discharged: 0, byZ3: 0, byCvc5: 0, syntactic: 0, paths: 0, queriesMs: 0 }

// ------------------------------------------------------------ proving
function prove(goal, cond = S.TRUE) {
	if (goal === S.TRUE) { stats.syntactic++; return true }
	const neg = S.and(cond, S.not(goal))
	if (neg === S.FALSE) { stats.syntactic++; return true }
	const r = query(neg)
	if (r === 'unsat') { stats.byZ3++; return true }
	if (M.extra.lazy?.size && query(S.and(neg, ...M.extra.lazy)) === 'unsat') { stats.byZ3++; return true }
	const more = L.loopFacts([neg, ...M.pc, ...M.extra.lazy ?? []])
	if (more.length && query(S.and(neg, ...M.extra.lazy ?? [], ...more)) === 'unsat') { stats.byZ3++; return true }
	if (r === 'unknown' && !current.refining) { const c = S.oneShot('cvc5', M.pc, neg, 10000); if (c === 'unsat') { stats.byCvc5++; return true } }
	return false
}
const current = { refining: false, comp: null }

// ------------------------------------------------------------ comparing values of the two sides
/** identity correspondence between objects of R and of G */
const bij = () => (M.extra.bij ??= { r2g: new Map(), g2r: new Map(), log: [] })
function pair(a, b) { const m = bij(); m.r2g.set(a.id, b.id); m.g2r.set(b.id, a.id); m.log.push([a.id, b.id]) }
function unpairTo(n) { const m = bij(); while (m.log.length > n) { const [a, b] = m.log.pop(); m.r2g.delete(a); m.g2r.delete(b) } }
function mapRefs(t) {
	const m = bij().r2g
	if (!m.size) return t
	const sub = new Map()
	const ids = new Set()
	L.collectRefs(t, ids)
	for (const id of ids) if (m.has(id)) sub.set(S.V('VRef', S.int(id)), S.V('VRef', S.int(m.get(id))))
	return sub.size ? S.subst(t, sub) : t
}
const fail = (path, why) => { throw new Mismatch(`${path}: ${why}`) }
const show = v => { try { return v instanceof Obj ? `${v.kind}#${v.id}` : v instanceof SV ? v.t.s.slice(0, 300) : typeof v === 'string' ? JSON.stringify(v) : String(v) } catch { return '?' } }
export function same(a, b, cond, path, opts = {}) {
	if (a === b && !(a instanceof SV)) return
	a = resolveUnder(a, cond); b = resolveUnder(b, cond)
	if (a === b) return
	if (a instanceof Obj && b instanceof Obj && !a.asTerm && !b.asTerm) return sameObj(a, b, cond, path, opts)
	if (a instanceof Obj && b instanceof Obj) return sameTerm(toVal(a), toVal(b), cond, path)
	if ((a instanceof Obj) !== (b instanceof Obj) && (isPlain(a) || isPlain(b))) fail(path, `${show(a)} where ${show(b)} is required`)
	if (a instanceof Obj && a.kind === 'Array' && b instanceof SV) { /* falls through to term comparison */ }
	sameTerm(toVal(a), toVal(b), cond, path)
}
const isPlain = v => !(v instanceof SV) && !(v instanceof Obj)
function resolveUnder(v, cond) {
	if (!(v instanceof SV) || v.t.sort !== S.VAL) return v
	// do not branch: only see through what the path condition settles
	const c = fromTerm(v.t)
	if (!(c instanceof SV)) return c
	if (c.t.op === 'ite') {
		if (query(S.and(cond, c.t.args[0])) === 'unsat') return resolveUnder(new SV(c.t.args[2]), cond)
		if (query(S.and(cond, S.not(c.t.args[0]))) === 'unsat') return resolveUnder(new SV(c.t.args[1]), cond)
	}
	const refs = M.refs.get(c.t)
	if (refs) for (const id of refs) if (query(S.and(cond, S.not(S.eq(c.t, S.V('VRef', S.int(id)))))) === 'unsat') return M.objs.get(id)
	return c
}
function sameTerm(ta, tb, cond, path) {
	if (ta.sort !== tb.sort) fail(path, `sort ${ta.sort} / ${tb.sort}`)
	let m = mapRefs(ta)
	if (m === tb) { stats.syntactic++; return }
	if (prove(corresponding(ta, m, tb), cond)) return
	// values that mention objects of their own side: try to match these first
	const ra = orderedRefs(ta).filter(id => !bij().r2g.has(id) && M.objs.get(id)), rb = orderedRefs(tb).filter(id => !bij().g2r.has(id) && !bij().r2g.has(id))
	if (ra.length && ra.length === rb.length) {
		const mark = bij().log.length
		try {
			ra.forEach((id, i) => { if (id !== rb[i]) same(M.objs.get(id), M.objs.get(rb[i]), cond, path) })
			m = mapRefs(ta)
			if (prove(S.eq(m, tb), cond)) return
		} catch (e) { if (!(e instanceof Mismatch)) throw e }
		unpairTo(mark)
	}
	fail(path, `${m.s.slice(0, 400)}  is not provably  ${tb.s.slice(0, 400)}`)
}
/** equal, or objects of the two sides that correspond */
function corresponding(ta, m, tb) {
	if (ta.sort !== S.VAL) return S.eq(m, tb)
	const rb = M.refs.get(tb) ?? []
	return S.or(S.eq(m, tb), ...(M.refs.get(ta) ?? []).filter(a => rb.includes(bij().r2g.get(a))).map(a => S.and(S.eq(ta, S.V('VRef', S.int(a))), S.eq(tb, S.V('VRef', S.int(bij().r2g.get(a)))))))
}
M.corresponding = (a, b) => corresponding(a, a, b)
function orderedRefs(t, out = [], seen = new Set()) {
	if (seen.has(t)) return out
	seen.add(t)
	if (t.op === 'VRef') { const n = S.intVal(t.args[0]); if (n !== undefined && n >= 0 && !out.includes(n)) out.push(n) }
	for (const x of t.args) orderedRefs(x, out, seen)
	return out
}
const own = o => [...o.props].filter(([, s]) => s.enumerable !== false)
function sameObj(a, b, cond, path, opts) {
	const m = bij()
	const fa = O.isFunction(a), fb = O.isFunction(b), paired = m.r2g.has(a.id) || m.g2r.has(b.id)
	if (paired) {
		if (m.r2g.get(a.id) === b.id) return
		// what is given out may be one function or two that do the same: it is called by each of its names
		if (opts.looks && fa && fb && !a.native && !b.native) { if (own(a).length || own(b).length) fail(path, 'a different function than required'); return }
		fail(path, 'a different object than required')
	}
	if (fa !== fb) fail(path, `${fa ? 'a function' : 'an object'} where ${fb ? 'a function' : 'an object'} is required`)
	if (!fa && a.kind !== b.kind) fail(path, `${a.kind} where ${b.kind} is required`)
	if (!fa && !!a.frozen !== !!b.frozen) fail(path, a.frozen ? 'is frozen and must not be' : 'is not frozen')
	pair(a, b)
	if (fa) {
		if (a.native || b.native) { if (a.native && b.native && a.fname !== b.fname) fail(path, `function ${a.fname} where ${b.fname} is required`) }
		else if (current.handing) M.extra.handed.push({ a, b, cond, name: current.handing })
	}
	if (a.kind === 'Promise') {
		if (a.state !== b.state) fail(path, `promise is ${a.state} where ${b.state} is required`)
		if (a.state === 'rejected') return same(a.value, b.value, cond, path + '!', opts)
		if (a.state !== 'pending') same(a.value, b.value, cond, path + '!', opts)
		return
	}
	if (a.kind === 'Error') {
		const n = x => { const p = O.get(x, 'name'); return p }
		same(n(a), n(b), cond, path + '.name')
		if (!(a.proto instanceof Obj) && !(b.proto instanceof Obj)) return
		same(O.get(a, 'message'), O.get(b, 'message'), cond, path + '.message')
	}
	if (a.kind === 'Array' || a.kind === 'Set') return samePieces(a.pieces, b.pieces, cond, path, opts)
	const proto = o => (o.proto instanceof Obj ? O.get(o, 'constructor')?.fname ?? 'class' : o.proto === null ? 'null' : 'Object')
	if (!fa && proto(a) !== proto(b)) fail(path, `prototype ${proto(a)} where ${proto(b)} is required`)
	if (!!a.dict !== !!b.dict) { if (!a.dict) convertToDict(a); else convertToDict(b) }
	if (a.dict) for (const f of ['dom', 'map', 'keys', 'syms']) sameTerm(a.dict[f], b.dict[f], cond, `${path}{${f}}`)
	const pa = new Map(own(a)), pb = new Map(own(b))
	const name = k => String(k.desc ?? k)
	for (const [k] of pb) {
		if (!pa.has(k)) fail(path, `lacks '${name(k)}'`)
		const va = readProp(a, pa.get(k)), vb = readProp(b, pb.get(k))
		same(va, vb, cond, `${path}.${name(k)}`, opts)
	}
	if (!opts.subset) for (const [k] of pa) if (!pb.has(k)) fail(path, `has an additional '${name(k)}'`)
}
const readProp = (o, s) => (s.get ? '(accessor)' : s.v)
export function samePieces(pa, pb, cond, path, opts) {
	if (pa === pb) return
	const mark = bij().log.length
	let first
	if (pa.length === pb.length && pa.every((p, i) => kindOf(p) === kindOf(pb[i]))) {
		try {
			pa.forEach((p, i) => {
				const q = pb[i], at = `${path}[${i}]`
				if ('e' in p) same(p.e, q.e, cond, at, opts)
				else if ('s' in p) sameTerm(p.s, q.s, cond, at)
				else sameComp(p, q, cond, at)
			})
			return
		} catch (e) { if (!(e instanceof Mismatch)) throw e; first = e; unpairTo(mark) }
	}
	if (pa.every(p => 'e' in p) && pb.every(p => 'e' in p)) { if (first) throw first; fail(path, `${pa.length} elements where ${pb.length} are required`) }
	if (pa.some(p => 'comp' in p && p.items.isEvents) || pb.some(p => 'comp' in p && p.items.isEvents)) { if (first) throw first; fail(path, 'different') }
	try { sameTerm(O.seqTerm(pa), O.seqTerm(pb), cond, path) } catch (e) { throw first ?? e }
}
const kindOf = p => ('e' in p ? 'e' : 's' in p ? 's' : 'c')
/** premise under which iteration k of both loops is considered, or a failure */
function jointly(p, q, cond, path) {
	if (!prove(S.eq(p.comp.n, q.comp.n), cond)) fail(path, 'a different number of iterations')
	return S.and(cond, S.eq(p.comp.k, q.comp.k), p.comp.guard, q.comp.guard)
}
function sameComp(p, q, cond, path) {
	const base = jointly(p, q, cond, path)
	for (const a of p.comp.alts) for (const b of q.comp.alts) {
		const c = S.and(base, ...a.conds, ...b.conds)
		if (c === S.FALSE || query(c) === 'unsat') continue
		samePieces(p.items(a).map(e => ({ e })), q.items(b).map(e => ({ e })), c, path)
	}
}
// ------------------------------------------------------------ comparing what the environment saw
const ERRORS = new Set(['emergency', 'alert', 'critical', 'error', 'warn'])
function relevant(events, spec) {
	return events.filter(e => {
		if (e.type === 'log') return spec.logs ? spec.logs(e) : ERRORS.has(e.level)
		if (e.type === 'loop') return e.comp.comp.alts.some(a => relevant(e.comp.items(a), spec).length)
		return true
	})
}
export function sameEvents(ra, ga, cond, path, spec, onPair) {
	M.extra.handed ??= []
	const mark = M.extra.handed.length
	try { compareEvents(ra, ga, cond, path, spec, onPair) } catch (e) { M.extra.handed.length = mark; throw e }
}
function compareEvents(ra, ga, cond, path, spec, onPair) {
	const a = relevant(ra, spec), b = relevant(ga, spec)
	const desc = e => e.type === 'call' ? `call of ${show(e.fn)}` : e.type === 'log' ? `${e.level} log` : e.type === 'loop' ? 'loop' : e.name
	a.forEach((e, i) => {
		const f = b[i], at = `${path}#${i}`
		if (!f) fail(at, `${desc(e)} is not allowed here`)
		if (e.type !== f.type) fail(at, `${desc(e)} where ${desc(f)} is required`)
		switch (e.type) {
			case 'call':
				if (e.tag !== f.tag) fail(at, 'calls out of step')
				same(e.fn, f.fn, cond, at + ' callee')
				samePieces(e.args, f.args, cond, at + ' arguments')
				if (onPair && e.snap && f.snap) onPair(e.snap, f.snap, cond, at)
				break
			case 'log':
				if (e.level !== f.level) fail(at, `${e.level} log where ${f.level} is required`)
				if (spec.logsExact) { same(e.id, f.id, cond, at + ' logger'); samePieces(e.args, f.args, cond, at); if (e.via && f.via) samePieces(e.via, f.via, cond, at + ' logger') }
				else {
					const text = S.concat(...e.args.filter(p => 'e' in p && !(p.e instanceof Obj)).map(p => O.toStringTerm(p.e)))
					for (const p of f.args) if ('e' in p) {
						const want = p.e instanceof Obj ? null : O.toStringTerm(p.e)
						if (e.args.some(x => 'e' in x && x.e instanceof Obj && p.e instanceof Obj && tries(() => same(x.e, p.e, cond, at)))) continue
						if (!want) fail(at, 'log lacks an argument')
						if (text.op === 'str.++' ? text.args.includes(want) : text === want) { stats.syntactic++; continue }
						if (!prove(S.strOp('str.contains', [mapRefs(text), want], S.BOOL), cond)) fail(at, `log message does not mention ${want.s.slice(0, 80)}`)
					}
				}
				break
			case 'effect':
				if (e.name !== f.name) fail(at, `${e.name} where ${f.name} is required`)
				try { current.handing = e.name; samePieces(e.args, f.args, cond, at, { looks: !!e.name?.startsWith('read ') }) } finally { current.handing = undefined }
				break
			case 'loop': {
				const base = jointly(e.comp, f.comp, cond, at)
				for (const x of e.comp.comp.alts) for (const y of f.comp.comp.alts) {
					const c = S.and(base, ...x.conds, ...y.conds)
					if (c === S.FALSE || query(c) === 'unsat') continue
					compareEvents(e.comp.items(x), f.comp.items(y), c, at, spec, onPair)
				}
			}
		}
	})
	if (b.length > a.length) fail(path, `${desc(b[a.length])} is required and missing`)
}
function tries(f) { const mark = bij().log.length; try { f(); return true } catch (e) { if (!(e instanceof Mismatch)) throw e; if (process.env.TSV_TRIES) console.error('tries', e.message.slice(0, 200)); unpairTo(mark); return false } }

// ------------------------------------------------------------ the state of a component: roots, leaves, classes
const locKey = l => `${l.k}${l.o.id}${l.k === 'p' || l.k === 's' ? '.' + String(l.key?.desc ?? l.key) : ''}`
function readLoc(l) {
	switch (l.k) {
		case 'c': return l.o.v
		case 'p': return l.o.props.get(l.key)?.v
		case 'a': return l.o.pieces
		case 'd': { if (!l.o.dict) convertToDict(l.o); return l.o.dict }
		case 's': return l.o[l.key]
	}
}
function writeLoc(l, v) {
	switch (l.k) {
		case 'c': setCell(l.o, v); break
		case 'p': setSlot(l.o, l.key, { v, enumerable: true, writable: true }); break
		case 'a': { const on = M.onPieces; M.onPieces = undefined; setPieces(l.o, v); M.onPieces = on; break }
		case 'd': setDict(l.o, v); break
		case 's': setField(l.o, l.key, v); break
	}
}
const startsWith = (v, pre) => v.length >= pre.length && pre.every((p, i) => v[i] === p || ('e' in p && 'e' in v[i] && p.e === v[i].e))
const objOf = r => (r.k === 'c' ? M.cells.get(r.id) : M.objs.get(r.id))
const locOf = r => ({ k: r.k, o: objOf(r), key: r.keyName })
/** objects made by operations are kept in the state only as part of the location that owns them, unless they never change */
function noLooseState(o, leaf) {
	if (T.mutable(o)) throw new Unsupported(`${leaf} keeps a mutable object that others may hold`)
}
/** knowledge about the states of one variant, refined until it is inductive */
class Knowledge {
	constructor(vk) { this.vk = vk; this.roots = new Map(); this.fresh = true; this.cls = new Map(); this.classes = new Map(); this.next = 0; this.kinds = new Map(); this.refs = new Map(); this.acquired = new Set(); this.unstable = new Set(); this.unified = []; this.partial = new Set(); this.shrinks = new Set(); this.touched = new Set() }
	addRoot(w, side) {
		const key = locKey(w)
		if (this.roots.has(key)) return false
		if (w.k === 'p' && this.roots.has('d' + w.o.id)) return false
		if (w.k === 'd') for (const k of [...this.roots.keys()]) if (k.startsWith(`p${w.o.id}.`)) this.roots.delete(k)
		this.roots.set(key, { key, k: w.k, id: w.o.id, keyName: w.key, side, tree: null, opened: false })
		this.fresh = true
		return true
	}
	/** frozen values that implementation and contract construct alike are one value */
	unify() { for (const [r, g] of this.unified) M.objs.get(g).asTerm ??= S.V('VRef', S.int(r)) }
	pairAll() {
		for (const [a, b] of bij().log) { const g = M.objs.get(b), r = M.objs.get(a); if (g && r && O.recable(g) && O.recable(r) && !g.asTerm) this.unified.push([a, b]) }
		this.unify()
	}
	/** choose trees and the initial partition from the state after construction */
	init() {
		this.fresh = false
		this.unified = []
		this.cls.clear(); this.classes.clear(); this.kinds.clear(); this.refs.clear()
		const groups = []
		for (const r of this.roots.values()) {
			const v = readLoc(locOf(r))
			if (!r.tree && !r.shared && r.k !== 'a' && r.k !== 'd' && this.owned(T.buildTree(r.k, v, true), v)) r.opened = true
			r.tree ??= T.buildTree(r.k, v, r.opened)
			let ts = T.termsOf(r.tree, v)
			if (!ts) { r.tree = T.widen(r.tree, r.k, v); ts = T.termsOf(r.tree, v) }
			const sorts = T.sortsOf(r.tree)
			ts.forEach((t, i) => {
				const leaf = `${r.key}|${i}`
				const ground = isGround(t)
				let g = groups.find(g => g.sort === sorts[i] && (g.term === t || (ownRefs(t) && ownRefs(g.term) ? g.side !== r.side && sameLeaf(g.term, g.side, t, r.side, S.TRUE) : !(g.ground && ground) && !ownRefs(t) && !ownRefs(g.term) && prove(S.eq(g.term, t)))))
				if (!g) { g = { sort: sorts[i], term: t, ground, members: [], side: r.side }; groups.push(g) }
				g.members.push(leaf)
			})
		}
		for (const g of groups) {
			const c = this.classes.get(this.newClass(g.members, g.sort, g.ground ? g.term : null))
			c.side = g.side
			for (const r of L.refsOf(new SV(g.term))) this.refs.get(c.id).add(r)
			this.checkKinds(c, g.term, S.TRUE)
		}
		this.partial.clear()
		for (const r of this.roots.values()) this.checkTotal(new Map(T.termsOf(r.tree, readLoc(locOf(r))).map((t, i) => [`${r.key}|${i}`, t])), S.TRUE)
		this.pairAll()
	}
	newClass(members, sort, constant) {
		const id = this.next++
		this.classes.set(id, { id, members, sort, constant })
		for (const m of members) this.cls.set(m, id)
		this.kinds.set(id, new Set(O.KINDS.keys()))
		this.refs.set(id, new Set())
		return id
	}
	/** are the objects of this value referred to from nowhere else */
	owned(tree, v, deep, extra) {
		const objs = T.ownedIn(tree, v)
		if (!objs.length) return tree.t !== 'leaf' || tree.s !== 'val'
		const n = T.references(new Set(objs.map(o => o.id)), deep, extra)
		return objs.every(o => n.get(o.id) === 1)
	}
	/** terms of all leaves now; a value that does not fit widens its tree (null then) */
	leaves(side, deep, extra) {
		const out = new Map()
		let bad = false
		for (const r of this.roots.values()) {
			if (r.side !== side) continue
			const v = readLoc(locOf(r))
			if (r.opened && !this.owned(r.tree, v, deep, extra)) { dbg('shared', r.key); r.opened = false; r.shared = true; r.tree = null; bad = true; continue }
			if (T.mutable(v) && v.id >= M.constructEnd && r.tree.t === 'leaf' && r.tree.s === 'val' && !r.opened && !r.shared) {
				// the location owns what it holds, if it holds anything
				const of = T.buildTree(r.k, v, true)
				if (this.owned(of, v, deep, extra)) { r.opened = true; r.tree = T.either(of); bad = true; continue }
			}
			const ts = T.termsOf(r.tree, v)
			if (!ts) { bad = true; dbg('widen', r.key, JSON.stringify(r.tree), Array.isArray(v) ? v.map(p => 'e' in p ? 'e:' + show(p.e) : 's' in p ? 's:' + p.s.s : 'comp').join(' , ') : show(v)); r.tree = T.widen(r.tree, r.k, v); if (!T.termsOf(r.tree, v)) throw new Unsupported(`state ${r.key} takes values of incompatible shapes`); continue }
			ts.forEach((t, i) => out.set(`${r.key}|${i}`, t))
		}
		if (bad) { this.fresh = true; return null }
		return out
	}
	touches(r) { return this.touched.has(r.key) || [...this.touched].some(k => k.slice(1).split('.')[0] === String(r.id)) }
	/** make all state arbitrary, related only by what is known */
	havoc(side, tag) {
		const facts = []
		for (const r of this.roots.values()) {
			if (r.side !== side || (tag.startsWith('call') && this.reentrant && !this.touches(r))) continue
			const ts = T.sortsOf(r.tree).map((sort, i) => {
				const c = this.classes.get(this.cls.get(`${r.key}|${i}`))
				if (c.constant) return c.constant
				const t = born(S.constant(quoteName(`st!${c.id}!${tag}`), sort))
				const refs = [...this.refs.get(c.id)]
				if (sort === S.VAL) external(t, refs); else M.refs.set(t, refs)
				const ks = this.kinds.get(c.id)
				O.declareKinds(t, ks)
				return t
			})
			for (const i of T.dictsOf(r.tree)) if (!this.partial.has(`${r.key}|${i}`)) (M.extra.totals ??= new Set()).add(`${ts[i].id}|${ts[i + 1].id}`)
			ts.forEach((t, i) => { for (const w of M.extra.holds?.get(`${r.key}|${i}`) ?? []) assume(O.containsTerm(t, w)) })
			// a list that is only ever added to still starts with what it held
			const before = r.k === 'a' && !tag.startsWith('start') && !isGround(ts[0]) && this.onlyGrows(r) ? readLoc(locOf(r)) : []
			const v = T.rebuild(r.tree, ts)
			writeLoc(locOf(r), before.length ? [...before, ...v] : v)
		}
	}
	/** is the list, and every list equal to it, only ever added to at its end */
	onlyGrows(r) {
		return this.classes.get(this.cls.get(`${r.key}|0`)).members.every(m => {
			const q = this.roots.get(m.slice(0, m.lastIndexOf('|')))
			return q.k === 'a' && q.tree.t === 'leaf' && !this.shrinks.has(q.key)
		})
	}
	/** which lists lose entries, or get them elsewhere than at the end */
	watch(again) {
		M.onPieces = (o, before, after) => {
			const key = 'a' + o.id
			if (!this.roots.has(key) || this.shrinks.has(key) || startsWith(after, before)) return
			this.shrinks.add(key); again()
		}
	}
	/** split classes whose members are not provably equal; true when something changed */
	refine(terms, cond) {
		let changed = this.checkTotal(terms, cond)
		for (const c of [...this.classes.values()]) {
			const here = c.members.filter(m => terms.has(m))
			if (!here.length) continue
			const constant = c.constant && mapRefs(c.constant)
			const groups = c.constant ? [{ term: constant, members: [], raw: c.constant, side: c.side }] : []
			for (const m of here) {
				const t = mapRefs(terms.get(m)), side = this.sideOf(m)
				let g = groups.find(g => g.term === t || (g.raw ? sameLeaf(g.raw, g.side, terms.get(m), side, cond) : prove(S.eq(g.term, t), cond)))
				if (!g) { g = { term: t, members: [], raw: terms.get(m), side }; groups.push(g); if (groups.length > 1) dbg('split', c.constant?.s, c.side, m, side, JSON.stringify(bij().log), ':', groups[0].term.s.slice(0, 160), '/', t.s.slice(0, 160)) }
				g.members.push(m)
				const cid = c.id
				for (const id of L.refsOf(new SV(terms.get(m)))) {
					if (id >= M.constructEnd) noLooseState(M.objs.get(id), m)
					else if (!this.refs.get(cid).has(id)) { this.refs.get(cid).add(id); changed = true }
				}
				this.checkKinds(c, terms.get(m), cond) && (changed = true)
			}
			const absent = c.members.filter(m => !terms.has(m))
			const live = groups.filter(g => g.members.length)
			if (groups.length > 1) {
				changed = true
				this.classes.delete(c.id)
				const kinds = this.kinds.get(c.id), refs = this.refs.get(c.id)
				live.forEach((g, i) => {
					const id = this.newClass([...g.members, ...(i === 0 ? absent : [])], c.sort, c.constant && g.term === constant ? c.constant : null)
					if (c.constant && g.term === constant) this.classes.get(id).side = c.side
					this.kinds.set(id, c.constant ? new Set(O.KINDS.keys()) : new Set(kinds))
					this.refs.set(id, new Set(refs))
					if (c.constant) { // the constant itself is one of the values
						const k = this.classes.get(id)
						if (!k.constant) { this.checkKinds(k, c.constant, S.TRUE); for (const m of g.members) this.checkKinds(k, terms.get(m), cond); for (const r of L.refsOf(new SV(c.constant))) if (r < M.constructEnd) this.refs.get(id).add(r); for (const r of L.refsOf(new SV(g.term))) if (r < M.constructEnd) this.refs.get(id).add(r) }
					}
				})
			}
		}
		return changed
	}
	/** which dictionaries may have entries without a value */
	checkTotal(terms, cond) {
		let changed = false
		for (const r of this.roots.values()) for (const i of T.dictsOf(r.tree)) {
			const leaf = `${r.key}|${i}`, dom = terms.get(leaf), map = terms.get(`${r.key}|${i + 1}`)
			if (this.partial.has(leaf) || !dom || O.isTotal(dom, map, (g, c) => prove(g, S.and(cond, c)))) continue
			// classes share their values
			this.partial.add(leaf); changed = true
		}
		return changed
	}
	sideOf(leaf) { return this.roots.get(leaf.slice(0, leaf.lastIndexOf('|'))).side }
	checkKinds(c, t, cond) {
		const ks = this.kinds.get(c.id)
		let changed = false
		for (const k of [...ks]) {
			const ok = O.termHasKind(t, k, g => prove(g, cond))
			if (!ok && (k === 'arr' || k === 'plain')) dbg('kind', k, c.members.join(), t.s.slice(0, 100))
			if (!ok) { ks.delete(k); changed = c.sort === S.VAL || c.sort === S.SEQ || c.sort === S.MAPV }
		}
		return changed
	}
	check(terms, cond, path) {
		for (const c of this.classes.values()) {
			let rep = c.constant && mapRefs(c.constant), raw = c.constant && [c.constant, c.side]
			for (const m of c.members) {
				if (!terms.has(m)) continue
				const t = mapRefs(terms.get(m)), side = this.sideOf(m)
				if (rep === null || rep === undefined) { rep = t; raw = [terms.get(m), side]; continue }
				if (t !== rep && !(raw ? sameLeaf(...raw, terms.get(m), side, cond) : prove(S.eq(rep, t), cond))) fail(path, 'states of implementation and contract fall apart')
			}
		}
	}
}
/** are two stored values the same, up to the correspondence of objects of the two sides */
function sameLeaf(a, sa, b, sb, cond) {
	const ma = sa === 'R' ? mapRefs(a) : a, mb = sb === 'R' ? mapRefs(b) : b
	if (ma === mb) return true
	if (sa !== sb && (ownRefs(ma) || ownRefs(mb))) {
		const ids = [...orderedRefs(ma), ...orderedRefs(mb)]
		if (ids.every(id => M.objs.get(id) && O.recable(M.objs.get(id)))) return sa === 'R' ? tries(() => sameTerm(a, b, cond, '')) : tries(() => sameTerm(b, a, cond, ''))
	}
	return prove(sa === sb ? S.eq(ma, mb) : sa === 'R' ? corresponding(a, ma, mb) : corresponding(b, mb, ma), cond)
}
const isGround = t => (t.args.length ? t.args.every(isGround) && !/^\w+!/.test(t.op) : /^(int#|str#|real#)/.test(t.op) || ['true', 'false', 'VUndef', 'VNull', 'VNaN', 'VNegZ', 'seq.empty'].includes(t.op))
const ownRefs = t => orderedRefs(t).length > 0

// ------------------------------------------------------------ the harness interface
function makeSym(comp) {
	const o = O.makeObject()
	const memo = (k, f) => { const m = (M.extra.symMemo ??= new Map()); const key = M.side + k; if (!m.has(key)) m.set(key, f()); return m.get(key) }
	const c = (n, sort) => S.constant(quoteName('in.' + n), sort)
	const put = (n, f) => o.props.set(n, { v: O.native('sym.' + n, (_, args) => f(...args)), enumerable: true, writable: true })
	const fnVal = (n, kind) => { const t = external(c(n, S.VAL)); assume(isFnTerm(t)); if (kind) (M.extra.fnKinds ??= new Map()).set(t, kind); (M.extra.symFns ??= new Set()).add(t); return fromTerm(t) }
	const objVal = (n, kind) => { const t = external(c(n, S.VAL)); if (types(comp)?.[kind]) assume(O.KINDS.get(kind)(t)); assume(S.is('VRef', t)); assume(S.not(isFnTerm(t))); assume(S.not(S.ufun('prom?', [S.INT], S.BOOL)(S.sel('VRef', t)))); return fromTerm(t) }
	put('val', n => fromTerm(external(c(n, S.VAL))))
	put('data', n => { const t = external(c(n, S.VAL)); assume(S.not(isFnTerm(t))); assume(S.or(S.not(S.is('VRef', t)), S.not(S.ufun('prom?', [S.INT], S.BOOL)(S.sel('VRef', t))))); return fromTerm(t) })
	put('json', n => { const t = external(c(n, S.VAL)); assume(S.not(isFnTerm(t))); assume(S.not(S.is('VUndef', t))); assume(S.or(S.not(S.is('VRef', t)), S.not(S.ufun('prom?', [S.INT], S.BOOL)(S.sel('VRef', t))))); return fromTerm(t) })
	put('str', n => fromTerm(c(n, S.STR)))
	put('key', n => { const t = external(c(n, S.VAL)); assume(S.or(S.is('VStr', t), S.is('VSym', t))); return fromTerm(t) })
	put('int', n => fromTerm(c(n, S.INT)))
	put('bool', n => fromTerm(c(n, S.BOOL)))
	put('fn', fnVal)
	put('obj', objVal)
	put('pick', (n, l) => { const es = l.pieces.map(p => p.e); return es.find((e, i) => i === es.length - 1 || decide(c(`${n}=${i}`, S.BOOL))) })
	put('generic', on => { (M.extra.generic ??= {})[M.side] = on !== false })
	put('optional', (n, v) => (decide(c(n + '?', S.BOOL)) ? v : undefined))
	const kindOfData = k => (O.KINDS.has(k) ? k : 'obj')
	put('list', (n, kind) => memo('list' + n, () => { const t = c(n, S.SEQ); if (kind) (M.extra.seqKind ??= new Map()).set(t, new Set([kindOfData(kind)])); return O.makeArray([{ s: t }]) }))
	put('args', (n) => memo('args' + n, () => O.makeArray([{ s: c(n, S.SEQ) }])))
	put('record', (n, kind) => memo('record' + n, () => {
		const r = O.makeObject()
		r.dict = O.baseDict({ dom: c(n + '.dom', S.SETV), map: c(n + '.map', S.MAPV), keys: c(n + '.keys', S.SEQ), syms: S.SEMPTY }, !!kind)
		if (kind) O.declareKinds(r.dict.map, new Set([kindOfData(kind)]))
		return r
	}))
	put('dict', (n, kind) => {
		const r = O.makeObject(null)
		r.dict = O.baseDict({ dom: c(n + '.dom', S.SETV), map: c(n + '.map', S.MAPV), keys: c(n + '.keys', S.SEQ), syms: S.SEMPTY }, true)
		O.declareKinds(r.dict.map, new Set([kindOfData(kind)]))
		return r
	})
	put('logger', id => nativeLogger(id ?? 'app'))
	put('log', id => { const l = nativeLogger(id ?? 'app'); l.props.set('getLogger', { v: O.native('getLogger', (_, [i]) => nativeLogger(i === undefined ? id ?? 'app' : fromTerm(S.concat(S.str((id ?? 'app') + ':'), O.toStringTerm(i))))), enumerable: true, writable: true }); l.props.set('getNonConsoleLogger', l.props.get('getLogger')); return l })
	put('event', (n, ...args) => { pushEvent({ type: 'effect', name: n, args: args.map(e => ({ e })) }) })
	put('assume', v => { if (!O.truthy(v)) throw new Prune() })
	put('assert', (v, label) => { assertTrue(v, label) })
	put('same', (a, b) => { a = O.resolve(a); b = O.resolve(b); return fromTerm(O.sameValue(a, b)) })
	put('quiet', () => { M.extra.quiet = true })
	put('isFunction', v => { const t = O.typeOf(v); return fromTerm(O.strictEq(t, 'function')) })
	put('read', (n, v) => { pushEvent({ type: 'effect', name: 'read ' + n, args: [{ e: v }] }) })
	return o
}
const asserts = { list: null }
function assertTrue(v, label) {
	const t = O.truthTerm(v)
	const ok = prove(t)
	asserts.list?.push({ label, ok, term: t })
}
// ------------------------------------------------------------ running a component
const eager = new Map()
function subjectsOf(comp, side) {
	const o = O.makeObject()
	for (const [name, s] of Object.entries(comp.subjects)) {
		const [file, local] = side === 'R' ? s.real : s.spec
		const path = side === 'R' ? join(REPO, file) : join(HERE, file)
		o.props.set(name, { v: importValue(path, local, side), enumerable: true, writable: true })
	}
	return o
}
const harnessFile = comp => join(HERE, comp.harness)
function harness(comp, name) { return importValue(harnessFile(comp), name, 'H' + M.side) }
/** the types of objects of the environment, as plain data */
function types(comp) {
	const plain = o => (o instanceof Obj ? Object.fromEntries([...o.props].map(([k, s]) => [k, plain(s.v)])) : o)
	if (!typesOf.has(comp.id)) typesOf.set(comp.id, plain(tryHarness(comp, 'types')))
	return typesOf.get(comp.id)
}
const typesOf = new Map()
function tryHarness(comp, name) { try { return harness(comp, name) } catch (e) { if (e instanceof Unsupported && /does not export/.test(e.message)) return undefined; throw e } }
/** run code of one side; the outcome */
function outcome(f) {
	try { return { v: f() } } catch (e) { if (e instanceof Thrown) return { threw: e.value }; throw e }
}
function settleNow(side, r) {
	// a promise is followed to its result
	O.drain(side)
	M.side = side
	if (r.v instanceof Obj && r.v.kind === 'Promise') {
		if (r.v.state === 'fulfilled') return { v: r.v.value }
		if (r.v.state === 'rejected') return { threw: r.v.value }
		throw new Unsupported('construction does not finish')
	}
	return r
}
function startRun(comp) {
	M.constructEnd = 0
	M.side = 'R'
	M.globals = O.buildGlobals()
	M.extra.sideGlobals = { R: new Map(), G: new Map() }
	pageGlobals()
	M.extra.compEqual = (q, p) => { const [r, g] = q.comp.loop.side === 'R' ? [q, p] : [p, q]; return r.comp.loop.side !== g.comp.loop.side && tries(() => sameComp(r, g, S.TRUE, '')) }
	M.extra.relevant = events => relevant(events, comp)
	M.extra.piecesEqualUnder = (c, a, b) => tries(() => samePieces(a, b, c, ''))
	M.extra.views = new Map()
	M.assertContent = O.assertContent
	M.extra.sameUnder = (c, a, b) => tries(() => sameTerm(a, b, c, ''))
	M.extra.fieldKind = new Map(Object.entries(comp.fieldKind ?? {}).map(([k, v]) => [k, O.KINDS.get(v)]))
}
/** the variables nobody can use any more after construction, which goes the same way whenever its choices are the same */
const deadAt = new Map()
function constructBoth(comp, variant) {
	const out = {}
	M.extra.dead = new Set()
	for (const side of ['R', 'G']) {
		M.side = side
		if (side === 'G') M.splitId = M.nextId
		const sym = makeSym(comp)
		const page = tryHarness(comp, 'globals')
		if (page) for (const [n, s] of O.call(page, undefined, [sym]).props) M.extra.sideGlobals[side].set(n, s.get ? O.get(page, n) : s.v)
		sym.props.set('page', { v: M.extra.page(), enumerable: true, writable: true })
		for (const f of eager.get(comp.id)?.[side] ?? []) loadModule(f.file, f.inst)
		const subs = subjectsOf(comp, side)
		const r = settleNow(side, outcome(() => O.call(harness(comp, 'construct'), undefined, [sym, subs, variant])))
		out[side] = { sym, subs, r, s: r.v }
		const at = `${side} ${variantKey(variant)} ${M.nextId} ${M.cells.size} ${eager.get(comp.id)?.R.length} ${eager.get(comp.id)?.G.length}`, from = side === 'R' ? 0 : M.splitId
		let dead = deadAt.get(at)
		if (!dead) {
			const left = [r.v, sym]
			for (const part of ['ops', 'lemmas', 'rely']) { const h = tryHarness(comp, part); if (!h) continue; left.push(h); for (const p of h.props.values()) if (p.v instanceof Obj && p.v.node?.parameters?.length > 3) left.push(subs) }
			const live = liveCells(left)
			dead = new Set(live ? [...M.cells.values()].filter(c => c.id >= from && !live.has(c)).map(c => c.id) : [])
			deadAt.set(at, dead)
		}
		if (dead.size) for (const c of M.cells.values()) if (dead.has(c.id)) M.extra.dead.add(c)
	}
	M.constructEnd = M.nextId
	return out
}
const phasesOf = v => { v = O.resolve(v); if (v instanceof Obj && v.kind === 'Array') return v.pieces.map(p => p.e); return [v] }

/** one operation of one variant, on every path; records into `report` */
function runOp(comp, variant, opName, know, mode, report) {
	let changed = false
	const visited = []
	const paths = explore(() => {
		startRun(comp)
		const C = constructBoth(comp, variant)
		const keep = M.frame.pos
		const again = () => { if (mode === 'prove') throw new Restart(); changed = true; K.version++; throw new Redo(keep) }
		let moved = false
		const vk = variantKey(variant)
		let K = know.get(vk)
		if (!K) { K = new Knowledge(vk); know.set(vk, K); K.reentrant = tryHarness(comp, 'reentrant')?.pieces.map(p => p.e); K.version = 0 }
		visited.push([K, K.version])
		if (mode === 'rely' && [...K.acquired].every(l => K.unstable.has(l))) return true
		if (opName === '(construct)') {
			const all = () => { compareOutcomes(C.R.r, C.G.r, 'construction', { subset: true }); sameEvents(M.trace.R, M.trace.G, S.TRUE, 'construction', comp) }
			if (mode === 'prove') report(`${variant ?? 'construct'}: construction`, all)
			else tries(all)
			if (!M.extra.handed?.length || mode === 'rely') return true
		}
		if ('threw' in C.R.r || 'threw' in C.G.r) return true
		if (!K.fresh) K.unify()
		tries(() => same(C.R.s, C.G.s, S.TRUE, '', { subset: true, looks: true }))
		if (K.fresh) K.init()
		// values that an operation has put into a collection of the state stay there until it takes them out again:
		// `holds` are such facts; in mode 'rely' it is shown that the operation respects those of all others
		const holds = M.extra.holds = new Map()
		const others = new Set()
		if (mode === 'rely') for (const leaf of K.acquired) if (!K.unstable.has(leaf)) { const w = external(S.constant(quoteName(`other!${leaf.replace("|", "!")}`), S.VAL)); others.add(w); holds.set(leaf, [w]) }
		M.extra.held = [...others]
		M.trace.R.length = 0; M.trace.G.length = 0
		for (const side of ['R', 'G']) { M.side = side; K.havoc(side, 'start') }
		M.writes.length = 0
		M.callOrd = { R: [0], G: [0] }
		const mem = {}
		for (const side of ['R', 'G']) { M.side = side; mem[side] = O.makeObject() }
		M.extra.treeHint = l => K.roots.get(locKey(l))?.tree
		K.watch(again)
		M.onOpaqueCall = { snapshot: () => { const l = K.leaves(M.side, true); if (!l) again(); return l }, havoc: tag => K.havoc(M.side, 'call' + tag) }
		const phases = opName === '(construct)' ? [] : phasesOf(O.get((M.side = 'R', harness(comp, 'ops')), opName))
		let n = 0
		let starts = new Map(), ordAt = ''
		const calledOut = () => JSON.stringify(M.callOrd) !== ordAt
		const begin = () => { starts = new Map(); for (const side of ['R', 'G']) { M.side = side; const l = K.leaves(side); if (!l) again(); for (const [k, t] of l) starts.set(k, t) } ordAt = JSON.stringify(M.callOrd) }
		const results = o => (!o ? [] : 'threw' in o ? [o.threw] : [o.v])
		const compare = (label, rr, gg, last) => {
			if (!pcFeasible()) throw new Prune()
			const ends = new Map()
			for (const side of ['R', 'G']) {
				for (const w of M.writes) if (w.o.id < M.constructEnd && !(w.o instanceof Obj && w.o.ghost)) {
					if (K.addRoot(w, sideOfId(w))) moved = true
					if (K.reentrant?.includes(opName) && !K.touched.has(locKey(w))) { K.touched.add(locKey(w)); moved = true }
				}
			}
			if (K.fresh) again()
			for (const side of ['R', 'G']) { M.side = side; const l = K.leaves(side, false, results(side === 'R' ? rr : gg)); if (!l) again(); for (const [k, t] of l) ends.set(k, t) }
			const ra = M.trace.R.slice(), ga = M.trace.G.slice()
			M.trace.R.length = 0; M.trace.G.length = 0
			for (const [leaf, t] of ends) {
				const c = K.classes.get(K.cls.get(leaf))
				if (!c || c.sort !== S.SEQ || c.constant || K.unstable.has(leaf)) continue
				for (const w of M.extra.symFns ?? []) {
					const owned = holds.get(leaf)?.includes(w)
					const now = owned || (!calledOut() && starts.has(leaf) && prove(S.not(O.containsTerm(starts.get(leaf), w)))) ? prove(O.containsTerm(t, w)) : false
					if (now && !owned) { K.acquired.add(leaf); holds.set(leaf, [...holds.get(leaf) ?? [], w]); for (const x of others) if (x !== w) assume(S.not(S.eq(x, w))) }
					if (owned && !now) holds.set(leaf, holds.get(leaf).filter(x => x !== w))
				}
				if (mode === 'rely') for (const w of others) if (holds.get(leaf)?.includes(w) && !prove(O.containsTerm(t, w))) { dbg('unstable', leaf, t.s.slice(0, 200)); K.unstable.add(leaf); again() }
			}
			if (mode === 'rely') return
			if (mode === 'refine') {
				tries(() => { if (rr) compareOutcomes(rr, gg, label) })
				tries(() => sameEvents(ra, ga, S.TRUE, label, comp, (x, y, c) => { if (K.refine(new Map([...x, ...y]), c)) moved = true }))
				if (K.refine(ends, S.TRUE)) moved = true
			} else {
				report(`${label}: outcome`, () => { if (rr) compareOutcomes(rr, gg, label) })
				report(`${label}: effects`, () => sameEvents(ra, ga, S.TRUE, label, comp, (x, y, c, at) => K.check(new Map([...x, ...y]), c, at)))
				report(`${label}: state`, () => K.check(ends, S.TRUE, label))
				const froze = M.extra.froze
				if (froze && froze.R.size + froze.G.size) report(`${label}: frozen values`, () => {
					for (const [by, other, why] of [['G', 'R', 'is not frozen'], ['R', 'G', 'must not be frozen']]) for (const t of froze[by]) if (!froze[other].has(t) && !prove(O.frozenTerm(by === 'R' ? mapRefs(t) : t, other))) fail(label, `${t.s.slice(0, 100)} ${why}`)
				})
			}
			if (moved && mode === 'refine') again()
		}
		/** functions the environment was given can be called by it at any later time, in any state, and must then do the same */
		function checkHanded() {
			const list = M.extra.handed ?? []
			const before = M.nextId
			for (let i = 0; i < list.length; i++) {
				const { a, b, cond, name } = list[i]
				if (i < list.length - 1 && !decide(S.constant(quoteName(`handed!${i}`), S.BOOL))) continue
				const given = () => { const how = tryHarness(comp, 'handed'); return how && O.get(how, name) }
				if (!given()) throw new Unsupported(`what ${name} does with the function it is given`)
				assume(cond)
				if (!pcFeasible()) throw new Prune()
				M.extra.handed = []
				for (const side of ['R', 'G']) { M.side = side; K.havoc(side, 'handed' + i) }
				M.writes.length = 0
				begin()
				const res = {}
				for (const side of ['R', 'G']) {
					M.side = side
					const args = O.call(given(), undefined, [C[side].sym])
					res[side] = outcome(() => O.call(side === 'R' ? a : b, undefined, Object.assign([], { pieces: args.pieces })))
				}
				if (M.writes.some(w => w.o.id >= M.constructEnd && w.o.id < before)) throw new Unsupported(`the function given to ${name} changes what it captured`)
				compare(`function given to ${name}`, res.R, res.G)
				if (M.extra.handed.length) throw new Unsupported(`the function given to ${name} gives functions to others`)
				return
			}
		}
		function sideOfId(w) { return w.o.id < M.splitId ? 'R' : 'G' }
		for (const ph of phases) {
			n++
			if (ph === 'others') { for (const side of ['R', 'G']) { M.side = side; K.havoc(side, 'others' + n) } M.writes.length = 0; continue }
			if (ph === 'settle') { O.settleOpaque() }
			if (ph === 'tick' || ph === 'settle') {
				for (const side of ['R', 'G']) { M.side = side; O.drain(side) }
				compare(`phase ${n}`, null, null)
				// results given earlier may have settled now
				if (mem.last) { const [rr, gg] = mem.last; if (mode === 'prove') report(`phase ${n}: outcome`, () => settledSame(rr, gg, `phase ${n}`)) }
				continue
			}
			const res = {}
			begin()
			for (const side of ['R', 'G']) {
				M.side = side
				const f = side === 'R' ? ph : phasesOf(O.get(harness(comp, 'ops'), opName))[n - 1]
				res[side] = outcome(() => O.call(f, undefined, [C[side].sym, C[side].s, mem[side], C[side].subs]))
				M.side = side
			}
			mem.last = [res.R, res.G]
			compare(`phase ${n}`, res.R, res.G)
			if ('threw' in res.R || 'threw' in res.G) break
		}
		const busy = M.microtasks.R.length || M.microtasks.G.length
		if (busy) { for (const side of ['R', 'G']) { M.side = side; O.drain(side) } compare('afterwards', null, null); if (mem.last && mode === 'prove') { const [rr, gg] = mem.last; report('afterwards: outcome', () => settledSame(rr, gg, 'afterwards')) } }
		if (mode !== 'rely') checkHanded()
		const okpc = pcFeasible(); if (!okpc && process.env.TSV_PC) console.error("INFEASIBLE", M.pc.map(p => p.s)); return okpc
	}, { reset: () => { } })
	return { changed, paths, visited }
}
/** a lemma: assertions about the contract, in every state the contract can be in */
function runLemma(comp, variant, name, know, report) {
	let reached = false, applies = false
	explore(() => {
		startRun(comp)
		const C = constructBoth(comp, variant)
		if ('threw' in C.G.r) return
		const vk = variantKey(variant)
		M.trace.R.length = 0; M.trace.G.length = 0
		M.side = 'G'
		const K = know.get(vk)
		if (K && !K.fresh) K.unify()
		tries(() => same(C.R.s, C.G.s, S.TRUE, '', { subset: true, looks: true }))
		const havoc = tag => { if (!K || K.fresh) return; for (const side of ['R', 'G']) { M.side = side; K.havoc(side, tag) } M.side = 'G' }
		havoc('start')
		M.extra.treeHint = l => K?.roots.get(locKey(l))?.tree
		M.onOpaqueCall = { snapshot: () => null, havoc: tag => {
			if (!K || K.fresh || M.extra.quiet) return
			const rely = tryHarness(comp, 'rely'), obs = () => O.call(rely, undefined, [C.G.sym, C.G.s])
			const before = rely && obs()
			K.havoc('G', 'call' + tag)
			if (rely) assume(O.sameValue(before, obs()))
		} }
		M.callOrd = { R: [0], G: [0] }
		asserts.list = []
		const flush = () => { for (const a of asserts.list.splice(0)) { if (!a.ok || pcFeasible()) { reached ||= pcFeasible(); report(a.label ?? 'assert', a.ok, a.detail ?? `not provable: ${a.term?.s.slice(0, 400)}`) } } }
		const mem = O.makeObject()
		const phases = phasesOf(O.get(harness(comp, 'lemmas'), name))
		let n = 0
		for (const ph of phases) {
			n++
			if (ph === 'others') { havoc('others' + n); continue }
			if (ph === 'settle') O.settleOpaque()
			if (ph === 'tick' || ph === 'settle') { O.drain('G'); flush(); continue }
			const r = outcome(() => O.call(ph, undefined, [C.G.sym, C.G.s, mem, C.G.subs]))
			if ('threw' in r) { report('no exception', false, show(r.threw instanceof Obj ? O.get(r.threw, 'message') : r.threw)); reached = true; break }
			if (r.v instanceof Obj && r.v.kind === 'Promise') {
				for (let i = 0; i < 6 && r.v.state === 'pending'; i++) { O.drain('G'); O.settleOpaque() }
				O.drain('G')
				if (r.v.state === 'rejected') { report('no exception', false, show(r.v.value instanceof Obj ? O.get(r.v.value, 'message') : r.v.value)); break }
				if (r.v.state === 'pending') report('terminates', false, 'does not finish')
			}
			flush()
		}
		flush()
	}, { reset: () => { } })
	return { reached }
}
const variantKey = variant => `${variant ?? ''}${M.frame.plan.slice(0, M.frame.pos).map(d => (d.choice ? 't' : 'f')).join('')}`
class Restart extends Error { }
function compareOutcomes(r, g, label, opts) {
	opts = { ...opts, looks: true }
	if ('threw' in r !== 'threw' in g) fail(label, 'threw' in r ? `throws ${O.resolve(r.threw)?.ename ?? ''} ${show(r.threw instanceof Obj ? O.get(r.threw, 'message') : r.threw)}` : 'does not throw')
	if ('threw' in r) same(r.threw, g.threw, S.TRUE, label + ' exception')
	else if (r.v instanceof Obj && r.v.kind === 'Promise' && g.v instanceof Obj && g.v.kind === 'Promise' && !(bij().r2g.has(r.v.id))) pair(r.v, g.v)
	else same(r.v, g.v, S.TRUE, label + ' result', opts)
}
function settledSame(r, g, label) {
	if (!(r.v instanceof Obj) || r.v.kind !== 'Promise' || !(g.v instanceof Obj)) return
	if (r.v.state !== g.v.state) fail(label, `promise is ${r.v.state} where ${g.v.state} is required`)
	if (r.v.state !== 'pending') same(r.v.value, g.v.value, S.TRUE, label + ' promise result', { looks: true })
}

export function verifyComponent(comp, { registry, budgetMs = 120000, onlyOps } = {}) {
	const t0 = performance.now()
	limits.deadline = Date.now() + budgetMs
	current.comp = comp
	deadAt.clear()
	policy.used = new Set(); policy.loaded = new Set()
	policy.substitute = (file, local) => registry(comp, file, local)
	M.session = new S.Session('z3-new', 4000)
	const results = []
	const know = new Map()
	const fatal = (id, e) => results.push({ id, ok: false, kind: e instanceof Unsupported ? 'undecided' : 'failed', detail: e.message })
	try {
		eager.set(comp.id, { R: [], G: [] })
		// discover operations and variants
		resetRun(); startRun(comp); M.frame = { plan: [], pos: 0 }
		const ops = [...O.get(harness(comp, 'ops'), 'constructor') && harness(comp, 'ops').props.keys()]
		if (types(comp)) O.declareTypes(types(comp))
		const vs = tryHarness(comp, 'variants')
		const variants = vs ? vs.pieces.map(p => p.e) : [undefined]
		const only = tryHarness(comp, 'only')
		const allowed = (v, op) => { const l = only && v && O.get(only, v); return !(l instanceof Obj) || l.pieces.some(p => p.e === op) }
		const guardRestart = f => { for (let i = 0; i < 60; i++) { try { return f() } catch (e) { if (!(e instanceof Restart)) throw e } M.frame = null } throw new Unsupported('the description of the states does not stabilise') }
		for (const v of variants) {
			const names = (onlyOps ?? ops).filter(op => allowed(v, op))
			// 1. find an inductive description of the states
			current.refining = true
			const dead = new Set(), clean = new Map(), before = new Set(know.values())
			for (let round = 0; ; round++) {
				if (round > 60) throw new Unsupported('the description of the states does not stabilise')
				let changed = false
				for (const op of ['(construct)', ...names]) {
					// nothing has changed since it was looked at
					if (dead.has(op) || clean.get(op)?.every(([k, n]) => k.version === n)) continue
					try { const r = runGuarded(comp, v, op, know, 'refine', () => { }); clean.set(op, r.visited); if (r.changed) changed = true } catch (e) { if (!(e instanceof Unsupported)) throw e; dead.add(op); fatal(`${v ? v + '/' : ''}${op}`, e); dbg('undecided', op, e.message) }
				}
				if (!changed) break
			}
			// facts of other operations are respected by every operation
			for (let again = true; again;) {
				again = false
				const mine = [...know.values()].filter(k => !before.has(k)), unstable = () => mine.reduce((n, k) => n + k.unstable.size, 0)
				if (mine.some(k => [...k.acquired].some(l => !k.unstable.has(l)))) for (const op of names) {
					if (dead.has(op)) continue
					const n = unstable()
					try { runGuarded(comp, v, op, know, 'rely', () => { }) } catch (e) { if (!(e instanceof Unsupported)) throw e; for (const k of mine) for (const l of k.acquired) k.unstable.add(l) }
					if (unstable() !== n) { again = true; break }
				}
			}
			current.refining = false
			dbg('described', v, Math.round(performance.now() - t0))
			// 2. the proof
			for (const op of process.env.TSV_L ? [] : ['(construct)', ...names]) {
				if (dead.has(op)) continue
				dbg('prove', op, Math.round(performance.now() - t0))
				const agg = new Map()
				const report = (label, f) => {
					const id = `${v ? v + '/' : ''}${op}/${label}`
					let a = agg.get(id)
					if (!a) { a = { id, op, ok: true, checks: 0 }; agg.set(id, a) }
					a.checks++
					const mark = bij().log.length
					try { f() } catch (e) { if (!(e instanceof Mismatch)) throw e; unpairTo(mark); if (a.ok) { a.ok = false; a.kind = 'failed'; a.detail = e.message; a.path = M.pc.map(p => p.s) } }
				}
				try {
					const r = runGuarded(comp, v, op, know, 'prove', report)
					stats.paths += r.paths.length
					if (!r.paths.some(x => x)) results.push({ id: `${op}/reachable`, op, ok: false, kind: 'vacuous', detail: 'no path of this operation is feasible' })
				} catch (e) { if (!(e instanceof Unsupported)) throw e; fatal(`${v ? v + '/' : ''}${op}`, e) }
				results.push(...agg.values())
			}
		}
		dbg('lemmas', Math.round(performance.now() - t0))
		// 3. lemmas over the contracts
		resetRun(); startRun(comp); M.frame = { plan: [], pos: 0 }; M.side = 'G'
		const lem = tryHarness(comp, 'lemmas')
		if (lem) for (const v of variants) for (const name of lem.props.keys()) {
			if (process.env.TSV_L ? process.env.TSV_L !== name : onlyOps && !onlyOps.includes(name)) continue
			if (!allowed(v, name) || name.includes(':') && name.split(':')[0] !== v) continue
			const agg = new Map()
			const pre = `${v ? v + '/' : ''}lemma ${name}`
			try {
				const { reached } = runLemma(comp, v, name, know, (label, ok, detail) => {
					const id = `${pre}/${label}`
					const x = agg.get(id) ?? { id, op: name, ok: true, checks: 0 }
					agg.set(id, x); x.checks++
					if (!ok && x.ok) { x.ok = false; x.kind = 'failed'; x.detail = detail; x.path = M.pc.map(p => p.s) }
				})
				if (!reached) results.push({ id: `${pre}/reachable`, op: name, ok: false, kind: 'vacuous', detail: 'no path reaches an assertion' })
			} catch (e) { if (!(e instanceof Unsupported)) throw e; results.push({ id: pre, op: name, ok: false, kind: 'undecided', detail: e.message }) }
			results.push(...agg.values())
		}
	} catch (e) {
		if (!(e instanceof Unsupported) && !(e instanceof Mismatch) && !(e instanceof Thrown)) { if (process.env.TSV_DEBUG) console.error(e); results.push({ id: 'engine', ok: false, kind: 'undecided', detail: String(e.message ?? e) }) }
		else results.push({ id: 'component', ok: false, kind: 'undecided', detail: e instanceof Thrown ? 'exception ' + show(e.value instanceof Obj ? O.get(e.value, 'message') : e.value) : e.message })
	} finally { M.session.close(); M.frame = null }
	return { component: comp.id, results, contractsUsed: [...policy.used], filesLoaded: [...policy.loaded], ms: performance.now() - t0, know }
}
function runGuarded(comp, v, op, know, mode, report) {
	for (let i = 0; i < 80; i++) {
		try { return runOp(comp, v, op, know, mode, report) } catch (e) {
			if (!(e instanceof Restart)) throw e
			M.frame = null
			if (mode === 'prove') throw new Unsupported(`${op}: state discovered during the proof`)
			return { changed: true, paths: [] }
		}
	}
}
export { Restart }
