// Loops with an unknown number of iterations: the body is executed once, for an arbitrary iteration k, from an arbitrary
// state of the locations it modifies; the effect of the whole loop is expressed over that one iteration.
import * as S from './smt.mjs'
import { M, Obj, Cell, SV, Thrown, Prune, Unsupported, explore, saveState, restoreState, assume, decide, valid, toVal, fromTerm, freshTerm, setCell, setSlot, delSlot, setPieces, setDict, setField, convertToDict, external, pushEvent, bornSince, query } from './machine.mjs'
import * as O from './objects.mjs'
import * as T from './trees.mjs'

// ------------------------------------------------------------ locations
const locKey = l => `${l.k}${l.o.id}${l.k === 'p' || l.k === 's' ? '.' + String(l.key?.desc ?? l.key) : ''}`
function readLoc(l) {
	switch (l.k) {
		case 'c': return l.o.v
		case 'p': { const s = l.o.props.get(l.key); if (s && (s.get || s.set)) throw new Unsupported('accessor replaced in a loop'); return s ? s.v : undefined }
		case 'a': return l.o.pieces
		case 'd': return l.o.dict
		case 's': return l.o[l.key]
	}
}
function writeLoc(l, v) {
	switch (l.k) {
		case 'c': return setCell(l.o, v)
		case 'p': return setSlot(l.o, l.key, { v, enumerable: true, writable: true })
		case 'a': { const on = M.onPieces; M.onPieces = undefined; try { return setPieces(l.o, v) } finally { M.onPieces = on } }
		case 'd': return setDict(l.o, v)
		case 's': return setField(l.o, l.key, v)
	}
}
const DICT = [['dom', S.SETV], ['map', S.MAPV], ['keys', S.SEQ], ['syms', S.SEQ]]
/** how the content of a location is described by terms */
export function shapeOf(l, v) {
	if (l.k === 'a') return 'seq'
	if (l.k === 'd') return 'dict'
	if (v instanceof Obj && v.kind === 'Array') return 'newseq'
	if (v instanceof Obj && v.kind === 'Set') return 'newset'
	if (v instanceof Obj && v.kind === 'Map') return 'newmap'
	if (v instanceof Obj && v.kind === 'Object' && (v.proto === undefined || v.proto === null)) return v.proto === null ? 'newrec0' : 'newrec'
	if (typeof v === 'boolean' || (v instanceof SV && v.t.sort === S.BOOL)) return 'bool'
	if ((Number.isInteger(v) && !Object.is(v, -0)) || (v instanceof SV && v.t.sort === S.INT)) return 'int'
	if (typeof v === 'string' || (v instanceof SV && v.t.sort === S.STR)) return 'str'
	return 'val'
}
export function shapeSorts(shape) {
	switch (shape) {
		case 'seq': case 'newseq': case 'newset': return [S.SEQ]
		case 'dict': case 'newrec': case 'newrec0': case 'newmap': return DICT.map(d => d[1])
		case 'bool': return [S.BOOL]
		case 'int': return [S.INT]
		case 'str': return [S.STR]
	}
	return [S.VAL]
}
/** the terms describing a value under a shape; undefined when it does not fit */
export function valueTerms(shape, v) {
	switch (shape) {
		case 'seq': return [O.seqTerm(v)]
		case 'newseq': return v instanceof Obj && v.kind === 'Array' ? [O.seqTerm(v.pieces)] : undefined
		case 'newset': return v instanceof Obj && v.kind === 'Set' ? [O.seqTerm(v.pieces)] : undefined
		case 'newmap': return v instanceof Obj && v.kind === 'Map' ? DICT.map(([f]) => v.dict[f]) : undefined
		case 'dict': return v ? DICT.map(([f]) => v[f]) : undefined
		case 'newrec': case 'newrec0': {
			if (!(v instanceof Obj) || v.kind !== 'Object' || v.proto !== (shape === 'newrec' ? undefined : null)) return undefined
			if (!v.dict) convertToDict(v)
			if (v.props.size) return undefined
			return DICT.map(([f]) => v.dict[f])
		}
		case 'bool': return v instanceof SV ? (v.t.sort === S.BOOL ? [v.t] : undefined) : typeof v === 'boolean' ? [S.bool(v)] : undefined
		case 'int': return v instanceof SV ? (v.t.sort === S.INT ? [v.t] : undefined) : Number.isInteger(v) && !Object.is(v, -0) ? [S.int(v)] : undefined
		case 'str': return v instanceof SV ? (v.t.sort === S.STR ? [v.t] : undefined) : typeof v === 'string' ? [S.str(v)] : undefined
	}
	return [toVal(v)]
}
/** a value of the shape made of the given terms */
export function shapeValue(shape, ts, info = {}) {
	switch (shape) {
		case 'seq': return ts[0] === S.SEMPTY ? [] : [{ s: ts[0], ...info }]
		case 'newseq': return O.makeArray(ts[0] === S.SEMPTY ? [] : [{ s: ts[0], ...info }])
		case 'newset': { const o = new Obj('Set'); o.pieces = ts[0] === S.SEMPTY ? [] : [{ s: ts[0], ...info }]; return o }
		case 'newmap': { const o = new Obj('Map'); o.dict = O.baseDict({ dom: ts[0], map: ts[1], keys: ts[2], syms: ts[3] }); return o }
		case 'dict': return O.baseDict({ dom: ts[0], map: ts[1], keys: ts[2], syms: ts[3] })
		case 'newrec': case 'newrec0': { const o = O.makeObject(shape === 'newrec' ? undefined : null); o.dict = O.baseDict({ dom: ts[0], map: ts[1], keys: ts[2], syms: ts[3] }); return o }
	}
	return fromTerm(ts[0])
}
/** engine objects a value mentions (so that a havocked location may still hold them) */
export function refsOf(v, out = new Set()) {
	if (v instanceof Obj) { if (v.asTerm) collectRefs(v.asTerm, out); else out.add(v.id) }
	else if (v instanceof SV) collectRefs(v.t, out)
	else if (Array.isArray(v)) for (const p of v) { if ('e' in p) refsOf(p.e, out); else if ('s' in p) collectRefs(p.s, out); else for (const a of p.comp.alts) for (const i of p.items(a)) refsOf(i, out) }
	else if (v && v.map && v.dom) { collectRefs(v.map, out); collectRefs(v.keys, out) }
	return out
}
export function collectRefs(t, out, memo = new Set()) {
	if (memo.has(t)) return
	memo.add(t)
	for (const r of M.refs.get(t) ?? []) out.add(r)
	if (t.op === 'VRef') { const n = S.intVal(t.args[0]); if (n !== undefined && M.objs.has(n)) out.add(n) }
	for (const a of t.args) collectRefs(a, out, memo)
}
// ------------------------------------------------------------ iteration
export function forEachOf(where, iterable, cb, opts = {}) {
	const src = O.resolve(iterable)
	const arr = src instanceof Obj && (src.kind === 'Array' || src.kind === 'Set') ? src : null
	const pieces = O.iterablePieces(iterable)
	const done = c => (c && c.type === 'break' && !c.label ? { stop: undefined } : c && !(c.type === 'continue' && !c.label) ? { stop: c } : null)
	if (pieces.every(p => 'e' in p)) {
		for (let i = 0; ; i++) {
			if (i > 3000) throw new Unsupported('endless iteration')
			if (arr && arr.pieces !== pieces) {
				const now = arr.pieces
				if (!now.every(p => 'e' in p)) {
					if (!opts.bounded) throw new Unsupported(`${where}: iterated collection changed symbolically`)
					if (i >= pieces.length) return
					if (!decide(S.lt(S.int(i), O.lengthTerm(arr)))) continue
					const d = done(cb(O.arrayAtTerm(arr, S.int(i)), i))
					if (d) return d.stop
					continue
				}
				if (opts.bounded && i >= pieces.length) return
				if (i >= now.length) return
				const d = done(cb(now[i].e, i))
				if (d) return d.stop
				continue
			}
			if (i >= pieces.length) return
			const d = done(cb(pieces[i].e, i))
			if (d) return d.stop
		}
	}
	let base = S.int(0)
	for (const p of pieces) {
		let c
		const off = base
		const live = (dflt, i) => {
			if (!arr || arr.pieces === pieces) return dflt()
			if (!opts.bounded) throw new Unsupported(`${where}: the iterated collection is modified during the iteration`)
			if (!decide(S.lt(i, O.lengthTerm(arr)))) return SKIP
			return O.arrayAtTerm(arr, i)
		}
		if ('e' in p) {
			const v = live(() => p.e, off)
			c = v === SKIP ? undefined : cb(v, fromTerm(off))
			base = S.add(base, S.int(1))
		} else if ('s' in p) {
			const n = S.slen(p.s)
			c = summarise(where, n, k => { const i = S.add(off, k); const v = live(() => O.seqElem(p, k), i); return v === SKIP ? undefined : cb(v, fromTerm(i)) })
			base = S.add(base, n)
		} else {
			const comp = p.comp
			const uniform = comp.alts.every(a => p.items(a).length === 1)
			c = summarise(where, comp.n, k => {
				const alts = comp.alts
				let a = alts.findIndex((x, i) => i < alts.length - 1 && decide(S.and(...x.conds)))
				if (a < 0) a = alts.length - 1
				for (const f of alts[a].conds) assume(f)
				for (const it of p.items(alts[a])) {
					const r = cb(it, uniform ? fromTerm(S.add(off, k)) : new SV(freshTerm('index', S.INT)))
					if (r) return r
				}
			}, { k: comp.k, guard: comp.guard })
			base = S.add(base, compLen(p))
		}
		const d = done(c)
		if (d) return d.stop
	}
	if (arr && arr.pieces !== pieces && !opts.bounded) throw new Unsupported(`${where}: the iterated collection is modified during the iteration`)
}
const SKIP = Symbol('skip')

/** iteration index range as a guard */
/** a collection that only grows is described by what was added to it */
const termsOf = (l, v) => (l.grows ? (startsWithPieces(v, l.pre) ? [O.seqTerm(v.slice(l.pre.length))] : undefined) : T.termsOf(l.tree, v))
const rebuild = (l, ts) => (l.grows ? [...l.pre, ...(ts[0] === S.SEMPTY ? [] : [{ s: ts[0] }])] : T.rebuild(l.tree, ts))
const range = (k, n) => S.and(S.le(S.int(0), k), S.lt(k, n))

const sayTotal = (l, ts) => { for (const i of l.total ?? []) (M.extra.totals ??= new Set()).add(`${ts[i].id}|${ts[i + 1].id}`) }
/** kinds of values the terms of a stored value hold */
const kindsOf = ts => (ts ?? []).map(t => new Set([S.VAL, S.SEQ, S.MAPV].includes(t.sort) ? [...O.KINDS.keys(), ...(t.sort === S.SEQ ? M.extra.held ?? [] : [])].filter(k => O.termHasKind(t, k)) : []))
const kindUnder = (conds, t, kind) => O.termHasKind(t, kind, g => query(S.and(...conds, S.not(g))) === 'unsat')

export function summarise(where, n, body, opts = {}) {
	if (S.intVal(n) === 0 || (S.intVal(n) === undefined && valid(S.le(n, S.int(0))))) return undefined
	const side = M.side
	const bornMark = M.born[side].size
	const base = M.nextId
	const k = opts.k ?? freshTerm('k', S.INT)
	const guard = opts.guard ?? range(k, n)
	const locs = new Map()
	const ord = M.callOrd[side]
	let paths
	// leaves that agree before the loop are taken to agree in every iteration until one tells them apart
	const groups = new Map()
	let nextGroup = 0
	const join = (id, sort, pre) => {
		for (const g of groups.values()) if (g.sort === sort && !g.members.has(id) && (g.pre === pre || valid(S.eq(g.pre, pre)))) { g.members.add(id); return }
		newGroup(sort, pre, [id])
	}
	const newGroup = (sort, pre, ids) => groups.set(nextGroup++, { sort, pre, members: new Set(ids), in: null, post: new Map() })
	const leave = l => { for (const [id, g] of groups) { for (const m of [...g.members]) if (m.startsWith(l.key + '|')) g.members.delete(m); if (!g.members.size) groups.delete(id) } }
	const groupOf = id => { for (const g of groups.values()) if (g.members.has(id)) return g }
	const record = (kt, inState) => {
		const pcMark = M.pc.length, trMark = M.trace[side].length, mt = M.microtasks[side].length, wMark = M.writes.length
		M.callOrd[side] = [...ord, 0]
		let c
		try { c = body(kt) } catch (e) { if (!(e instanceof Thrown)) throw e; c = { type: 'throw', value: e.value } }
		if (c && c.type === 'continue' && !c.label) c = undefined
		if (M.microtasks[side].length !== mt) throw new Unsupported(`${where}: asynchronous work started in a loop of unknown length`)
		const calls = M.callOrd[side][M.callOrd[side].length - 1] > 0
		return { c, pcMark, events: M.trace[side].slice(trMark), conds: M.pc.slice(pcMark), calls, writes: M.writes.slice(wMark) }
	}
	for (let round = 0; ; round++) {
		if (round > 12) throw new Unsupported(`${where}: loop frame does not stabilise`)
		let grown = false
		for (const l of locs.values()) {
			// an object with symbolic keys has to be a dictionary before the loop
			if (l.loc.k === 'd' && !l.loc.o.dict) convertToDict(l.loc.o)
		}
		paths = explore(() => {
			assume(guard)
			for (const l of locs.values()) if (l.ready) writeLoc(l.loc, l.inValue())
			const r = record(k)
			r.outs = new Map()
			for (const [key, l] of locs) r.outs.set(key, readLoc(l.loc))
			for (const w of r.writes) {
				if (w.o.id >= base || (w.o instanceof Obj && w.o.ghost)) continue
				const key = locKey(w)
				if (!locs.has(key)) { locs.set(key, newLoc(w, where)); grown = true }
			}
			return r
		})
		// the pre-state is the one outside the exploration
		for (const l of locs.values()) if (!l.ready) {
			if (l.loc.k === 'd' && !l.loc.o.dict) convertToDict(l.loc.o)
			l.pre = readLoc(l.loc)
			const hint = M.extra.treeHint?.(l.loc)
			l.tree = hint && T.termsOf(hint, l.pre) ? hint : T.buildTree(l.loc.k, l.pre, true)
			settle(l)
			l.ready = true
		}
		if (grown) continue
		// the shape chosen from the pre-state must fit what the body writes
		for (const [key, l] of locs) {
			for (const p of paths) {
				if (p.c) continue
				const v = p.outs.get(key)
				if (l.append) {
					if (!startsWithPieces(v, l.inPieces)) { l.append = false; settle(l); grown = true; continue }
					if (v.slice(l.inPieces.length).some(q => !('e' in q))) { l.append = false; l.grows = true; l.tree = { t: 'leaf', s: 'seq' }; settle(l); grown = true; continue }
				} else if (l.grows && !startsWithPieces(v, l.pre)) { l.grows = false; settle(l); grown = true; continue }
				else if (!termsOf(l, v)) {
					l.tree = T.widen(T.widen(l.tree, l.loc.k, v), l.loc.k, l.pre)
					if (!termsOf(l, v) || !termsOf(l, l.pre)) throw new Unsupported(`${where}: location of mixed kinds`)
					settle(l); grown = true
				}
				const ts = !l.append && l.inConsts && termsOf(l, v)
				const ins = l.inConsts
				if (ts) ts.forEach((t, i) => { if (l.fixed[i] && t !== ins[i]) { l.fixed[i] = false; join(`${key}|${i}`, t.sort, l.preTerms[i]); l.inConsts = null; grown = true } })
				if (ts && l.inConsts) ts.forEach((t, i) => { for (const kind of [...l.kinds[i] ?? []]) if (!l.fixed[i] && !kindUnder(p.conds, t, kind)) { l.kinds[i].delete(kind); l.inConsts = null; grown = true } })
				if (ts && l.inConsts) for (const i of [...l.total]) if (!O.isTotal(ts[i], ts[i + 1], (g, f) => query(S.and(...p.conds, f, S.not(g))) === 'unsat')) { l.total.delete(i); M.extra.totals.delete(`${l.inConsts[i].id}|${l.inConsts[i + 1].id}`); l.inConsts = null; grown = true }
				if (l.append) for (const q of v.slice(l.inPieces.length)) for (const kind of [...l.kinds[0]]) if (typeof kind !== 'string' || !('e' in q && kindUnder(p.conds, toVal(q.e), kind))) { l.kinds[0].delete(kind); l.inConsts = null; grown = true }
				// engine objects each part may hold
				const parts = l.append ? [v.slice(l.inPieces.length)] : termsOf(l, v).map(t => new SV(t))
				parts.forEach((x, i) => { if (l.append || !l.fixed[i]) for (const id of refsOf(x)) if (id < base && !l.refs[i].has(id)) { l.refs[i].add(id); grown = true } })
			}
		}
		if (!grown) for (const g of [...groups.values()]) {
			if (g.members.size < 2) continue
			const where = [...g.members].map(m => [m, ...splitLeaf(m)])
			for (const p of paths) {
				if (p.c || g.members.size < 2) continue
				const at = (key, i) => termsOf(locs.get(key), p.outs.get(key))[i]
				const live = where.filter(w => g.members.has(w[0]))
				const first = at(live[0][1], live[0][2])
				const apart = live.filter(([, key, i]) => { const t = at(key, i); return t !== first && query(S.and(...p.conds, S.not(S.eq(first, t)))) !== 'unsat' })
				if (apart.length && process.env.TSV_DEBUG) console.error("apart", first.s.slice(0,80), apart.map(a => a[0] + " = " + at(a[1], a[2]).s.slice(0, 80)), p.conds.map(c => c.s.slice(0, 100)))
				if (apart.length) { for (const [m, key] of apart) { g.members.delete(m); locs.get(key).inConsts = null } newGroup(g.sort, g.pre, apart.map(a => a[0])); grown = true }
			}
		}
		if (!grown) break
	}
	// what is known of the locations at the start of an arbitrary iteration
	for (const l of locs.values()) if (l.inConsts) l.inConsts.forEach((t, i) => { if (!l.append && l.fixed[i]) return; O.declareKinds(t, l.kinds[i] ?? new Set()); if (!l.append && t.sort === S.VAL) external(t, [...l.refs[i]]) })
	const normal = paths.filter(p => !p.c), abrupt = paths.filter(p => p.c)
	for (const p of normal) p.terms = new Map([...locs].map(([key, l]) => [key, l.append ? [] : termsOf(l, p.outs.get(key))]))
	const L = { id: M.loops.length, side, where, n, k, guard, locs, paths: normal, matched: null, bornMark, alts: null }
	// counters have a closed form
	for (const [key, l] of locs) {
		if (l.append || l.tree.t !== 'leaf' || l.tree.s !== 'int') continue
		const step = normal.map(p => S.intVal(S.sub(p.terms.get(key)[0], l.inConsts[0])))
		if (step.length && step.every(s => s !== undefined && s === step[0]) && !opts.noIndex) l.step = step[0]
	}
	const compOf = pick => { const alts = normal.map(p => ({ conds: p.conds, p })); return { loop: L, n, k, guard, alts, pick } }
	const anyEvents = paths.some(p => p.events.length), calls = paths.some(p => p.calls)
	const finish = (nn, suffix) => {
		// the effect of nn complete iterations
		for (const l of locs.values()) {
			if (l.append) {
				writeLoc(l.loc, [...l.pre, ...(normal.some(p => p.outs.get(l.key).length > l.inPieces.length) ? [simplifyComp(makeComp(L, nn, a => a.p.outs.get(l.key).slice(l.inPieces.length).flatMap(flattenPiece), normal))] : [])])
				continue
			}
			const cleared = !suffix && emptied(l)
			if (cleared) { l.post = cleared; writeLoc(l.loc, rebuild(l, l.post.slice())); continue }
			if (l.step !== undefined) { const t = S.add(valueTerms('int', l.pre)[0], S.mul(S.int(l.step), nn)); l.post = [t]; writeLoc(l.loc, fromTerm(t)); continue }
			l.post = T.sortsOf(l.tree).map((s, i) => l.fixed[i] ? l.inConsts[i] : postOf(groupOf(`${l.key}|${i}`), suffix, s))
			for (const [i, t] of l.post.entries()) if (l.fixed[i]) continue; else if (t.sort === S.VAL) external(t, [...l.refs[i]]); else M.refs.set(t, [...l.refs[i]])
			l.post.forEach((t, i) => l.fixed[i] || O.declareKinds(t, l.kinds[i] ?? new Set()))
			const preT = termsOf(l, l.pre)
			if (preT) for (const [i, t] of l.post.entries()) assume(S.or(S.lt(S.int(0), nn), S.eq(t, preT[i])))
			sayTotal(l, l.post)
			l.post.forEach((t, i) => { if (!l.fixed[i] && preT && (t.sort === S.SETV || t.sort === S.MAPV)) (M.extra.loopPosts ??= new Map()).set(t, { L, l, i, pre: preT[i], nn }) })
			writeLoc(l.loc, rebuild(l, l.post.slice()))
		}
		if (anyEvents && normal.some(p => p.events.length)) {
			pushEvent({ type: 'loop', comp: makeComp(L, nn, a => a.p.events, normal) })
		}
		if (calls) M.callOrd[side] = [...ord.slice(0, -1), ord[ord.length - 1] + 1]
	}
	// generic facts about counters
	const counterFacts = S.and(...[...locs.values()].filter(l => l.step !== undefined).map(l => S.eq(l.inConsts[0], S.add(valueTerms('int', l.pre)[0], S.mul(S.int(l.step), k)))))
	L.facts = counterFacts
	for (const p of normal) p.conds = counterFacts === S.TRUE ? p.conds : [...p.conds, ...(counterFacts.op === 'and' ? counterFacts.args : [counterFacts])]
	if (abrupt.length) {
		if (normal.length === 0) {
			// leaves in the first iteration
			if (!decide(S.lt(S.int(0), n))) return undefined
			return runExit(S.int(0))
		}
		const cond = S.or(...abrupt.map(p => S.and(...p.conds)))
		const dep = bornSince(cond, bornMark, k) && !onlyResults(cond, k, bornMark)
		const key = `${n.id}|${S.subst(cond, new Map([[k, S.constant('k!placeholder', S.INT)]])).id}`
		const table = (M.extra.exits ??= new Map())
		let x = dep ? undefined : table.get(key)
		const at = !x && exitIndex(abrupt, normal)
		if (at) { x = { flag: S.and(S.le(S.int(0), at), S.lt(at, n)), idx: at }; if (!dep) table.set(key, x) }
		if (!x) { x = { flag: freshTerm('exits', S.BOOL), idx: freshTerm('exitAt', S.INT) }; if (!dep) table.set(key, x) }
		if (decide(x.flag)) {
			assume(range(x.idx, n))
			finish(x.idx, 'x')
			return runExit(x.idx)
		}
	}
	/** the one index at which the loop is left, when the condition tells it */
	function exitIndex(abrupt, normal) {
		for (const c of abrupt[0].conds) {
			if (c.op !== '=' || c.args[0].sort !== S.INT) continue
			for (const [a, t] of [c.args, [c.args[1], c.args[0]]]) {
				const l = [...locs.values()].find(l => l.step === 1 && l.inConsts[0] === a)
				if (a !== k && !l) continue
				const i = a === k ? t : S.sub(t, valueTerms('int', l.pre)[0])
				if (bornSince(i, bornMark)) continue
				const here = S.eq(k, i)
				if (abrupt.every(p => query(S.and(guard, counterFacts, ...p.conds, S.not(here))) === 'unsat') && normal.every(p => query(S.and(guard, counterFacts, ...p.conds, here)) === 'unsat')) return i
			}
		}
	}
	/** a dictionary of which every key is removed */
	function emptied(l) {
		if (l.append || l.grows || l.tree.t !== 'leaf' || l.tree.frozen || !['dict', 'newrec', 'newrec0', 'newmap'].includes(l.tree.s) || !l.inConsts || abrupt.length) return
		const [, , keys, syms] = l.preTerms
		if (!valid(S.eq(n, S.slen(keys))) || !valid(S.eq(syms, S.SEMPTY))) return
		const elem = S.app('seq.nth', [keys, k], S.VAL)
		const all = [elem, S.V('VStr', S.sel('VStr', elem))].some(x => normal.every(p => { const [dom, map, , left] = termsOf(l, p.outs.get(l.key)); return dom === S.store(l.inConsts[0], x, S.FALSE) && (map === l.inConsts[1] || map === S.store(l.inConsts[1], x, S.VUNDEF)) && left === l.inConsts[3] }))
		return all ? [S.constArr(S.SETV, S.FALSE), S.constArr(S.MAPV, S.VUNDEF), S.SEMPTY, syms] : undefined
	}
	function runExit(idx) {
		const r = body(idx)
		if (!r || (r.type === 'continue' && !r.label)) throw new Prune()
		return r
	}
	M.loops.push(L)
	finish(n, '')
	if (side === 'G') matchLoop(L)
	return undefined
	/** leaves that are constants before the loop are taken to stay what they are until an iteration changes them */
	function settle(l) {
		l.preTerms = termsOf(l, l.pre)
		l.kinds = kindsOf(l.preTerms)
		l.total = new Set(l.append || !l.preTerms ? [] : T.dictsOf(l.tree).filter(i => O.isTotal(l.preTerms[i], l.preTerms[i + 1], (g, f) => valid(S.or(S.not(f), g)))))
		l.fixed = l.preTerms.map(isLiteral)
		l.inConsts = null
		l.refs = l.append ? [new Set()] : l.preTerms.map(t => refsOf(new SV(t)))
		leave(l)
		if (!l.append) l.preTerms.forEach((t, i) => l.fixed[i] || join(`${l.key}|${i}`, t.sort, t))
	}
	function postOf(g, suffix, s) { if (!g.post.has(suffix)) g.post.set(suffix, freshTerm(`post${suffix}!${[...g.members][0].split('|')[0]}`, s)); return g.post.get(suffix) }
	function newLoc(w, where) {
		const l = { loc: w, key: locKey(w), ready: false, append: w.k === 'a', refs: [], inConsts: null }
		l.inValue = () => {
			if (!l.inConsts) {
				l.inConsts = l.append ? [freshTerm('in!' + l.key, S.SEQ)] : T.sortsOf(l.tree).map((s, i) => l.fixed[i] ? l.preTerms[i] : (groupOf(`${l.key}|${i}`).in ??= freshTerm('in!' + l.key, s)))
			}
			l.inConsts.forEach((t, i) => (!l.append && l.fixed[i]) || O.declareKinds(t, l.kinds[i] ?? new Set()))
			if (l.append) { if (l.inPieces?.at(-1)?.s !== l.inConsts[0] || l.inPieces.length !== l.pre.length + 1) l.inPieces = [...l.pre, { s: l.inConsts[0] }]; M.refs.set(l.inConsts[0], [...l.refs[0]]); return l.inPieces }
			for (const [i, t] of l.inConsts.entries()) if (l.fixed[i]) continue; else if (t.sort === S.VAL) external(t, [...l.refs[i]]); else M.refs.set(t, [...l.refs[i]])
			sayTotal(l, l.inConsts)
			return rebuild(l, l.inConsts.slice())
		}
		return l
	}
}
const splitLeaf = m => { const i = m.lastIndexOf('|'); return [m.slice(0, i), Number(m.slice(i + 1))] }
const startsWithPieces = (v, pre) => v.length >= pre.length && pre.every((p, i) => v[i] === p)
function onlyResults(t, k, mark, memo = new Set()) {
	if (memo.has(t)) return true
	memo.add(t)
	if (t !== k && M.born[M.side].has(t) && M.born[M.side].get(t) >= mark && !t.op.replace(/^\|/, '').startsWith('result!')) return false
	return t.args.every(a => onlyResults(a, k, mark, memo))
}
const isLiteral = t => (t.args.length ? t.args.every(isLiteral) && !/^\|?\w+!/.test(t.op) : /^(int#|str#|real#)/.test(t.op) || ['true', 'false', 'VUndef', 'VNull', 'VNaN', 'VNegZ', 'seq.empty'].includes(t.op) || t === S.SEMPTY)
function flattenPiece(p) { if ('e' in p) return [p.e]; throw new Unsupported('a loop appends a collection of unknown length') }
export function makeComp(L, n, items, normal) {
	const alts = normal.map(p => ({ conds: p.conds, p }))
	const comp = { loop: L, n, k: L.k, guard: n === L.n ? L.guard : range(L.k, n), alts }
	return { comp, items, memoItems: new Map() }
}
/** the elements of a sequence that differ from one value */
function withoutValue(p) {
	const { comp } = p
	const keep = comp.alts.find(a => p.items(a).length === 1), drop = comp.alts.find(a => p.items(a).length === 0)
	if (!keep || !drop || !(p.items(keep)[0] instanceof SV)) return undefined
	const t = toVal(p.items(keep)[0])
	if (t.op !== 'seq.nth' || t.args[1] !== comp.k || S.slen(t.args[0]) !== comp.n) return undefined
	const q = t.args[0]
	let v
	const equates = x => { if (x.op === '=' && x.args.includes(t)) return x.args.filter(y => y !== t); return ['and', 'or', 'not'].includes(x.op) ? x.args.flatMap(equates) : [] }
	const both = drop.conds.filter(x => keep.conds.includes(x))
	const mine = c => (v = equates(c).find(v => c === S.eq(t, v) || query(S.and(...both, S.not(S.eq(c, S.eq(t, v))))) === 'unsat')) !== undefined
	const c = drop.conds.find(x => keep.conds.includes(S.not(x)) && mine(x))
	if (!c) return undefined
	if (bornSince(q, comp.loop.bornMark, comp.k, comp.loop.side) || bornSince(v, comp.loop.bornMark, comp.k, comp.loop.side)) return undefined
	const others = a => a.conds.filter(x => x !== c && x !== S.not(c))
	const elementFact = x => S.mentions(x, new Set([t]))
	if (![...others(keep), ...others(drop)].every(elementFact) || !O.seqHasKind(q, 'distinct')) return undefined
	return { s: decide(O.containsTerm(q, v)) ? O.kremOf(q, v) : q }
}
/** a comprehension that copies a sequence is that sequence */
function simplifyComp(p) {
	const { comp } = p
	const rem = comp.alts.length === 2 && withoutValue(p)
	if (rem) return rem
	if (comp.alts.length !== 1) return p
	const its = p.items(comp.alts[0])
	if (its.length !== 1 || !(its[0] instanceof SV)) return p
	let t = toVal(its[0])
	const conds = comp.alts[0].conds
	const nth = t.op === 'VStr' && t.args[0].op === 'vs' && t.args[0].args[0].op === 'seq.nth' ? t.args[0].args[0] : t.op === 'seq.nth' ? t : null
	if (!nth || nth.args[1] !== comp.k) return p
	if (S.slen(nth.args[0]) !== comp.n) return p
	if (bornSince(nth.args[0], comp.loop.bornMark, comp.k, comp.loop.side)) return p
	return { s: nth.args[0], sort: t === nth ? undefined : 'VStr', kind: t === nth ? undefined : x => S.is('VStr', x) }
}
export function compLen(p) {
	const counts = p.comp.alts.map(a => p.items(a).length)
	if (counts.every(c => c === counts[0])) return S.mul(S.int(counts[0]), p.comp.n)
	return S.slen(compSeq(p))
}
export function compSeq(p) {
	if (p.seq) return p.seq
	const known = (M.extra.compSeqs ??= [])
	for (const q of known) if (M.extra.compEqual && M.extra.compEqual(q, p)) return (p.seq = q.seq)
	p.seq = freshTerm('comp', S.SEQ)
	const ids = new Set()
	for (const a of p.comp.alts) for (const i of p.items(a)) refsOf(i, ids)
	M.refs.set(p.seq, [...ids])
	const counts = p.comp.alts.map(a => p.items(a).length)
	const n = p.comp.n
	const max = Math.max(...counts)
	assume(counts.every(c => c === counts[0]) ? S.eq(S.slen(p.seq), S.mul(S.int(counts[0]), n)) : S.le(S.slen(p.seq), S.mul(S.int(max), n)))
	known.push(p)
	return p.seq
}
export function compNth(p, i) {
	const { comp } = p
	if (comp.alts.every(a => p.items(a).length === 1)) {
		const m = new Map([[comp.k, i]])
		const ok = comp.alts.every(a => p.items(a).every(x => !(x instanceof Obj)) && [...a.conds, ...p.items(a).map(toVal)].every(t => !bornSince(t, comp.loop.bornMark, comp.k, comp.loop.side)))
		if (ok) {
			let r = S.subst(toVal(p.items(comp.alts[comp.alts.length - 1])[0]), m)
			for (const a of comp.alts.slice(0, -1).reverse()) r = S.ite(S.subst(S.and(...a.conds), m), S.subst(toVal(p.items(a)[0]), m), r)
			return fromTerm(r)
		}
	}
	const t = S.snth(compSeq(p), i)
	return fromTerm(external(t, M.refs.get(p.seq) ?? []))
}
// ------------------------------------------------------------ while loops
export function summariseWhile(where, cond, body, update) {
	const side = M.side
	// which condition is tested, in an arbitrary iteration
	const base = M.nextId
	const locs = new Map()
	let bound, counter
	if (valid(S.not(cond()))) return undefined
	const save = saveState()
	// the values used here are too arbitrary to say anything of the state
	const calls = M.onOpaqueCall
	if (calls) M.onOpaqueCall = { ...calls, snapshot: () => null }
	try { bound = boundOf() } finally { M.onOpaqueCall = calls; restoreState(save) }
	if (!counter) throw new Unsupported(`${where}: loop without a recognised bound`)
	function boundOf() {
	for (let round = 0; round < 8; round++) {
		let grown = false
		let info
		explore(() => {
			for (const l of locs.values()) l.shape ??= shapeOf(l.loc, readLoc(l.loc))
			for (const l of locs.values()) { l.in ??= l.shape === 'int' ? freshTerm('w!' + l.key, S.INT) : null; if (l.in) writeLoc(l.loc, fromTerm(l.in)); else if (l.loc.k === 'c') writeLoc(l.loc, new SV(freshTerm('w', S.VAL))) }
			const w = M.writes.length
			info = cond()
			if (!decide(info)) throw new Prune()
			const ordSave = M.callOrd[side]
			let c
			try { c = body() } catch (e) { if (!(e instanceof Thrown)) throw e; c = { type: 'throw' } }
			M.callOrd[side] = ordSave
			if (!c || c.type === 'continue') update()
			for (const x of M.writes.slice(w)) if (x.o.id < base) { const key = locKey(x); if (!locs.has(key)) { locs.set(key, { loc: x, key, in: null }); grown = true } }
			return 0
		})
		for (const l of locs.values()) if (!l.shape) l.shape = shapeOf(l.loc, readLoc(l.loc))
		if (!grown) {
			if (info && info.op === '<') {
				const [a, b] = info.args
				const ins = [...locs.values()].filter(l => l.in)
				const l = ins.find(l => l.in === a)
				if (l && !ins.some(x => S.mentions(b, new Set([x.in])))) { counter = l; return b }
			}
			return
		}
	}
	}
	const pre = valueTerms('int', readLoc(counter.loc))[0]
	if (!decide(S.lt(pre, bound))) return undefined
	const n = S.sub(bound, pre)
	let broke = false
	const c = summarise(where, n, k => {
		writeLoc(counter.loc, fromTerm(S.add(pre, k)))
		const t = cond()
		if (!valid(t)) throw new Unsupported(`${where}: the loop bound changes during the loop`)
		const r = body()
		if (r && !(r.type === 'continue' && !r.label)) return r
		update()
		const now = valueTerms('int', readLoc(counter.loc))
		if (!now || !valid(S.eq(now[0], S.add(pre, S.add(k, S.int(1)))))) throw new Unsupported(`${where}: loop counter does not advance by one`)
	}, { noIndex: true })
	if (!c) writeLoc(counter.loc, fromTerm(bound))
	return c && c.type === 'break' && !c.label ? undefined : c
}
// ------------------------------------------------------------ entries of dictionaries after a loop
/** facts about the entries, after loops, that are mentioned in the terms: what no iteration changes, and what some iteration removes */
export function loopFacts(terms) {
	const posts = M.extra.loopPosts
	if (!posts) return []
	const out = [], memo = new Set(), known = (M.extra.loopFactsOf ??= new Map())
	const walk = t => {
		if (memo.has(t)) return
		memo.add(t)
		t.args.forEach(walk)
		if (t.op !== 'select' || !posts.has(t.args[0])) return
		const key = t.args[0].id + '|' + t.args[1].id
		if (!known.has(key)) { known.set(key, []); known.set(key, entryFacts(posts.get(t.args[0]), t.args[0], t.args[1])) }
		for (const f of known.get(key)) { out.push(f); walk(f) }
	}
	terms.forEach(walk)
	return out
}
function entryFacts({ L, l, i, pre, nn }, post, x) {
	if (S.mentions(x, new Set([L.k, ...l.inConsts]))) return []
	const each = (f, sub = t => t) => L.paths.every(p => query(sub(S.and(range(L.k, nn), L.guard, ...p.conds, f(S.select(p.terms.get(l.key)[i], x), S.select(l.inConsts[i], x), p)))) === 'unsat')
	if (pre.op !== 'store') O.lookAt(pre, x)
	if (each((now, was) => S.not(S.eq(now, was)))) return [S.eq(S.select(post, x), S.select(pre, x))]
	if (post.sort !== S.SETV || !each((now, was) => S.and(now, S.not(was)))) return []
	const facts = [S.or(S.not(S.select(post, x)), S.select(pre, x))]
	const lists = new Set(), seen = new Set()
	const find = t => { if (seen.has(t)) return; seen.add(t); t.args.forEach(find); if (t.op === 'seq.nth' && t.args[1] === L.k && !S.mentions(t.args[0], new Set([L.k]))) lists.add(t.args[0]) }
	for (const p of L.paths) { p.conds.forEach(find); find(p.terms.get(l.key)[i]) }
	for (const s of lists) if (valid(S.eq(S.slen(s), nn)) && each(now => now, t => S.subst(t, new Map([[S.app('seq.nth', [s, L.k], S.VAL), x]])))) facts.push(S.or(S.not(O.containsTerm(s, x)), S.not(S.select(post, x))))
	return facts
}
// ------------------------------------------------------------ matching the loops of implementation and contract
/** all pairs of paths that can be taken together in iteration k */
function* jointPaths(A, B, premise) {
	for (const p of A.paths) for (const q of B.paths) {
		const c = S.and(...premise, ...p.conds, ...q.conds)
		if (c === S.FALSE || query(c) === 'unsat') continue
		yield [p, q, c]
	}
}
export function matchLoop(G) {
	const eventful = L => L.paths.some(p => (M.extra.relevant ? M.extra.relevant(p.events) : p.events).length)
	let best
	for (const R of M.loops) {
		if (R.side !== 'R' || R.matched || !valid(S.eq(R.n, G.n)) || eventful(R) !== eventful(G)) continue
		const pairs = pairsOf(R, G)
		if (!best || pairs.length > best.pairs.length) best = { R, pairs }
	}
	if (!best) return
	const { R, pairs } = best
	R.matched = G; G.matched = R
	assume(S.eq(R.k, G.k))
	for (const { g, r } of pairs) {
		assume(M.corresponding(inOf(r), inOf(g)))
		if (g.l.post && r.l.post) assume(M.corresponding(r.l.post[r.i], g.l.post[g.i]))
	}
}
const inOf = x => x.l.inConsts[x.i]
/** leaves of the modified locations that agree before the loop and after every iteration */
function pairsOf(R, G) {
	const kEq = S.eq(R.k, G.k)
	const leaves = L => [...L.locs.values()].flatMap(l => {
		if (l.append) return [{ l, append: true, i: 0, pre: O.seqTerm(l.pre) }]
		return (termsOf(l, l.pre) ?? []).map((pre, i) => ({ l, i, pre }))
	})
	const gl = leaves(G), rl = leaves(R)
	let pairs = []
	for (const g of gl) for (const r of rl) {
		if (!!g.append !== !!r.append || g.pre.sort !== r.pre.sort) continue
		if (g.append || valid(S.eq(g.pre, r.pre)) || (O.recableTerm(r.pre) && O.recableTerm(g.pre) && (M.extra.sameUnder?.(S.TRUE, r.pre, g.pre) ?? false))) pairs.push({ g, r })
	}
	for (;;) {
		const ins = pairs.map(({ g, r }) => M.corresponding(inOf(r), inOf(g)))
		const premise = [kEq, R.guard, G.guard, ...ins]
		let removed = false
		for (const [p, q, c] of jointPaths(R, G, premise)) {
			pairs = pairs.filter(pr => {
				let ok
				if (pr.g.append) {
					const a = p.outs.get(pr.r.l.key).slice(pr.r.l.inPieces.length), b = q.outs.get(pr.g.l.key).slice(pr.g.l.inPieces.length)
					ok = M.extra.piecesEqualUnder ? M.extra.piecesEqualUnder(c, a, b) : a.length === b.length && a.every((x, i) => 'e' in x && 'e' in b[i] && query(S.and(c, S.not(S.eq(toVal(x.e), toVal(b[i].e))))) === 'unsat')
				} else {
					const a = p.terms.get(pr.r.l.key)[pr.r.i], b = q.terms.get(pr.g.l.key)[pr.g.i]
					ok = a === b || query(S.and(c, S.not(S.eq(a, b)))) === 'unsat' || (M.extra.sameUnder?.(c, a, b) ?? false)
				}
				if (!ok) removed = true
				return ok
			})
		}
		if (!removed) return pairs
	}
}
