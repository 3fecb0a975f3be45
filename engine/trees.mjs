// Flattening of stored values into terms ("leaves"), so that the content of a location can be made arbitrary and compared.
import * as S from './smt.mjs'
import { M, Obj, SV, fromTerm, toVal, decide } from './machine.mjs'
import * as O from './objects.mjs'
import { shapeOf, shapeSorts, valueTerms, shapeValue, collectRefs } from './loops.mjs'

const plainObj = v => v instanceof Obj && v.kind === 'Object' && (v.proto === undefined || v.proto === null) && !v.ghost
const allE = ps => ps.length > 0 && ps.every(p => 'e' in p)
/** tree for the value of a location of kind k ('c' cell, 'p' property, 's' field, 'a' array content, 'd' dictionary content) */
export function buildTree(k, v, opened = false, depth = 0) {
	if (k === 'd') return { t: 'leaf', s: 'dict' }
	if (k === 'a') return allE(v) ? { t: 'tup', elems: v.map(p => buildTree('c', p.e, false, depth + 1)) } : { t: 'leaf', s: 'seq' }
	if (v instanceof Obj && (v.asTerm || (v.frozen && O.recable(v)))) return { t: 'leaf', s: 'val' }
	if (v instanceof Obj && depth < 5) {
		if ((v.frozen || opened) && v.kind === 'Array') return allE(v.pieces) ? { t: 'tup', obj: true, frozen: v.frozen, elems: v.pieces.map(p => buildTree('c', p.e, opened, depth + 1)) } : { t: 'leaf', s: 'newseq', frozen: v.frozen }
		if ((v.frozen || opened) && plainObj(v)) {
			if (!v.dict && v.props.size && [...v.props.values()].every(s => 'v' in s)) return { t: 'rec', proto: v.proto, frozen: v.frozen, fields: [...v.props].map(([n, s]) => [n, buildTree('c', s.v, opened, depth + 1)]) }
			return { t: 'leaf', s: v.proto === null ? 'newrec0' : 'newrec', frozen: v.frozen }
		}
		if (opened && !v.native && ['Set', 'Map'].includes(v.kind)) return { t: 'leaf', s: v.kind === 'Set' ? 'newset' : 'newmap' }
		return { t: 'leaf', s: 'val' }
	}
	return { t: 'leaf', s: shapeOf({ k }, v) }
}
/** terms for a part that is not there */
const NONE = new Map([[S.SETV, () => S.constArr(S.SETV, S.FALSE)], [S.MAPV, () => S.constArr(S.MAPV, S.VUNDEF)], [S.SEQ, () => S.SEMPTY], [S.BOOL, () => S.FALSE], [S.STR, () => S.str('')], [S.INT, () => S.int(0)], [S.VAL, () => S.VUNDEF]])
/** either a value of the tree `of`, or any other value */
export const either = of => ({ t: 'alt', of })
export const sortsOf = t => (t.frozen === 'maybe' ? [S.BOOL, ...partsOf(t)] : partsOf(t))
function partsOf(t) {
	switch (t.t) {
		case 'leaf': return shapeSorts(t.s)
		case 'tup': return t.elems.flatMap(sortsOf)
		case 'rec': return t.fields.flatMap(f => sortsOf(f[1]))
		case 'pre': return [...t.elems.flatMap(sortsOf), S.SEQ]
		case 'alt': return [S.BOOL, S.VAL, ...sortsOf(t.of)]
	}
}
/** the mutable objects that the terms of a value stand for */
export function ownedIn(t, v, out = []) {
	if (!(v instanceof Obj) || v.asTerm || (v.frozen && O.recable(v))) return out
	const own = o => { if (!o.frozen) out.push(o) }
	if (t.t === 'alt') return termsOf(t.of, v) ? ownedIn(t.of, v, out) : out
	if (t.t === 'leaf') { if (['newrec', 'newrec0', 'newseq', 'newset', 'newmap'].includes(t.s)) own(v) }
	else if (t.t === 'rec') { own(v); for (const [n, f] of t.fields) ownedIn(f, v.props.get(n).v, out) }
	else if (t.obj) { own(v); t.elems.forEach((e, i) => ownedIn(e, v.pieces[i].e, out)) }
	return out
}
/** how often each of the objects is referred to; `deep`: also from variables that only code in progress can see */
export function references(ids, deep, extra = []) {
	const count = new Map([...ids].map(id => [id, 0]))
	const add = id => { if (count.has(id)) count.set(id, count.get(id) + 1) }
	const term = t => { const s = new Set(); collectRefs(t, s); s.forEach(add) }
	const value = v => { if (v instanceof Obj) add(v.id); else if (v instanceof SV) term(v.t) }
	const pieces = ps => { for (const p of ps) { if ('e' in p) value(p.e); else if ('s' in p) term(p.s); else if ('comp' in p) for (const a of p.comp.alts) p.items(a).forEach(value) } }
	const envs = new Set()
	const live = e => { for (; e && !envs.has(e); e = e.parent) envs.add(e) }
	for (const o of M.objs.values()) {
		if (ids.size === 0) break
		for (const s of o.props.values()) { value(s.v); value(s.get); value(s.set) }
		for (const [n, f] of Object.entries(o)) {
			if (n === 'pieces') { if (f) pieces(f) }
			else if (n === 'dict') { if (f) for (const t of Object.values(f)) term(t) }
			else if (n === 'env') live(f)
			else if (f instanceof Obj || f instanceof SV) value(f)
			else if (Array.isArray(f)) f.forEach(value)
			else if (f?.pieces) pieces(f.pieces)
			else if (f?.env) live(f.env)
		}
	}
	for (const m of M.modules.values()) if (m.env) live(m.env)
	for (const e of M.extra.keptEnvs ?? []) live(e)
	const dead = M.extra.dead ?? new Set()
	if (deep) { for (const c of M.cells.values()) if (!dead.has(c)) value(c.v) }
	else { const seen = new Set(); for (const e of envs) for (const c of e.vars.values()) if (!seen.has(c) && !dead.has(c)) { seen.add(c); value(c.v) } }
	for (const side of ['R', 'G']) for (const e of M.trace[side]) if (e.args) pieces(e.args)
	extra.forEach(value)
	return count
}
/** positions of the dictionaries among the terms */
export function dictsOf(t, at = 0, out = []) {
	if (t.frozen === 'maybe') at++
	if (t.t === 'alt') return dictsOf(t.of, at + 2, out)
	if (t.t === 'leaf') { if (['dict', 'newrec', 'newrec0', 'newmap'].includes(t.s)) out.push(at) } else for (const f of t.t === 'rec' ? t.fields.map(f => f[1]) : t.elems) { dictsOf(f, at, out); at += sortsOf(f).length }
	return out
}
export function pathsOf(t, p = '') {
	if (t.frozen === 'maybe') return [p + '/frozen', ...pathsOf({ ...t, frozen: false }, p)]
	switch (t.t) {
		case 'leaf': return shapeSorts(t.s).map((_, i) => `${p}/${t.s}${i}`)
		case 'tup': return t.elems.flatMap((e, i) => pathsOf(e, `${p}[${i}]`))
		case 'rec': return t.fields.flatMap(f => pathsOf(f[1], `${p}.${String(f[0].desc ?? f[0])}`))
		case 'pre': return [...t.elems.flatMap((e, i) => pathsOf(e, `${p}[${i}]`)), p + '[..]']
		case 'alt': return [p + '/there', p + '/else', ...pathsOf(t.of, p)]
	}
}
/** terms of a value under a tree; undefined when the value does not fit */
export function termsOf(t, v) {
	if (t.frozen === 'maybe') {
		if (!(v instanceof Obj)) return undefined
		const ts = termsOf({ ...t, frozen: !!v.frozen }, v)
		return ts && [S.bool(!!v.frozen), ...ts]
	}
	switch (t.t) {
		case 'leaf':
			if (t.frozen !== undefined && v instanceof Obj && !!v.frozen !== !!t.frozen) return undefined
			return valueTerms(t.s, v)
		case 'tup': {
			const ps = t.obj ? (v instanceof Obj && v.kind === 'Array' && !!v.frozen === !!t.frozen ? v.pieces : undefined) : v
			if (!ps || ps.length !== t.elems.length || !ps.every(p => 'e' in p)) return undefined
			return gather(t.elems.map((e, i) => termsOf(e, ps[i].e)))
		}
		case 'pre': {
			const ps = t.obj ? (v instanceof Obj && v.kind === 'Array' && !!v.frozen === !!t.frozen ? v.pieces : undefined) : v
			const n = t.elems.length
			if (!ps || ps.length < n || !ps.slice(0, n).every(p => 'e' in p)) return undefined
			return gather([...t.elems.map((e, i) => termsOf(e, ps[i].e)), [O.seqTerm(ps.slice(n))]])
		}
		case 'alt': {
			const ts = termsOf(t.of, v)
			if (ts) return [S.TRUE, S.VUNDEF, ...ts]
			if (v instanceof Obj && mutable(v)) return undefined
			return [S.FALSE, toVal(v), ...sortsOf(t.of).map(s => NONE.get(s)())]
		}
		case 'rec': {
			if (!plainObj(v) || v.proto !== t.proto || v.dict || !!v.frozen !== !!t.frozen || v.props.size !== t.fields.length) return undefined
			return gather(t.fields.map(([n, f]) => { const s = v.props.get(n); return s && 'v' in s ? termsOf(f, s.v) : undefined }))
		}
	}
}
/** data that code may change */
export const mutable = v => v instanceof Obj && !v.asTerm && !v.frozen && !O.isFunction(v) && !v.native && ['Object', 'Array', 'Map', 'Set'].includes(v.kind)
const gather = xs => (xs.every(x => x) ? xs.flat() : undefined)
export function rebuild(t, ts, info) {
	const n = sortsOf(t).length
	const mine = ts.splice(0, n)
	return build(t, mine, info)
}
function build(t, ts, info) {
	if (t.frozen === 'maybe') { const f = ts.shift(); return build({ ...t, frozen: decide(f) }, ts, info) }
	switch (t.t) {
		case 'alt': { const [there, other] = ts.splice(0, 2), of = ts.splice(0, sortsOf(t.of).length); return decide(there) ? build(t.of, of, info) : fromTerm(other) }
		case 'leaf': { const v = shapeValue(t.s, ts, t.s === 'seq' || t.s === 'newseq' || t.s === 'newset' ? info?.(ts[0]) : undefined); if (t.frozen && v instanceof Obj) v.frozen = true; return v }
		case 'tup': { const ps = t.elems.map(e => ({ e: build(e, ts.splice(0, sortsOf(e).length), info) })); if (!t.obj) return ps; const o = O.makeArray(ps); o.frozen = !!t.frozen; return o }
		case 'pre': { const ps = t.elems.map(e => ({ e: build(e, ts.splice(0, sortsOf(e).length), info) })); ps.push(...(ts[0] === S.SEMPTY ? [] : [{ s: ts[0] }])); if (!t.obj) return ps; const o = O.makeArray(ps); o.frozen = !!t.frozen; return o }
		case 'rec': { const o = O.makeObject(t.proto); for (const [n, f] of t.fields) o.props.set(n, { v: build(f, ts.splice(0, sortsOf(f).length), info), enumerable: true, writable: true }); o.frozen = !!t.frozen; return o }
	}
}
const frozenness = (t, v) => (t.frozen === 'maybe' || !!t.frozen !== !!v.frozen ? 'maybe' : !!t.frozen)
/** a tree that also fits v */
export function widen(t, k, v) {
	if (termsOf(t, v)) return t
	switch (t.t) {
		case 'leaf':
			if (t.s === 'val' || t.s === 'dict' || t.s === 'seq') return t
			if (t.frozen !== undefined && v instanceof Obj) { const u = { ...t, frozen: 'maybe' }; if (termsOf(u, v)) return u }
			return { t: 'leaf', s: 'val' }
		case 'alt': return mutable(v) ? { ...t, of: widen(t.of, k, v) } : t
		case 'tup': case 'pre': {
			const ps = t.obj ? (v instanceof Obj && v.kind === 'Array' ? v.pieces : undefined) : v
			if (!ps) return { t: 'leaf', s: 'val' }
			const n = t.elems.length
			const frozen = t.obj ? frozenness(t, v) : undefined
			if (t.t === 'tup' && ps.length === n && ps.every(p => 'e' in p)) return { ...t, frozen, elems: t.elems.map((e, i) => widen(e, 'c', ps[i].e)) }
			if (ps.length >= n && ps.slice(0, n).every((p, i) => 'e' in p && termsOf(t.elems[i], p.e))) return { ...t, t: 'pre', frozen }
			return { t: 'leaf', s: t.obj ? 'newseq' : 'seq', frozen: t.obj ? frozen : undefined }
		}
		case 'rec': {
			if (!plainObj(v)) return { t: 'leaf', s: 'val' }
			const frozen = frozenness(t, v)
			if (!v.dict && v.proto === t.proto && v.props.size === t.fields.length && t.fields.every(([n]) => v.props.has(n))) return { ...t, frozen, fields: t.fields.map(([n, f]) => [n, widen(f, 'c', v.props.get(n).v)]) }
			return { t: 'leaf', s: t.proto === null ? 'newrec0' : 'newrec', frozen }
		}
	}
}
