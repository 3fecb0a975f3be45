// SMT terms (hash-consed, lightly simplified) and a synchronous z3 session.
import { spawn, spawnSync, execFileSync } from 'node:child_process'
import { openSync, writeSync, readSync, closeSync, mkdtempSync, rmSync } from 'node:fs'
import { tmpdir } from 'node:os'
import { join } from 'node:path'

const table = new Map()
let nextTerm = 0
export class Term {
	constructor(op, args, sort, lit) {
		this.op = op; this.args = args; this.sort = sort; this.text = lit; this.id = nextTerm++
		this.size = 1
		for (const a of args) this.size += a.size
	}
	/** text for people; large terms are cut short */
	get s() { return this.size > 4000 ? `<term of size ${this.size}>` : printed(this, a => a.s) }
	toString() { return this.s }
}
const printed = (t, arg) => (t.args.length === 0 ? t.text ?? t.op : t.op === 'constarr' ? `((as const ${t.sort}) ${arg(t.args[0])})` : `(${t.op} ${t.args.map(arg).join(' ')})`)
function mk(op, args, sort, text) {
	let key = op + '|' + sort
	for (const a of args) key += ',' + a.id
	let t = table.get(key)
	if (!t) { t = new Term(op, args, sort, text); table.set(key, t) }
	return t
}
/** text for a solver: large terms are named once, and the name is used from then on */
function solverText(t, named, define) {
	const ref = a => {
		if (a.size < 40) return printed(a, ref)
		let n = named.get(a.id)
		if (n === undefined) { const body = printed(a, ref); n = 'd!' + a.id; named.set(a.id, n); define(`(define-fun ${n} () ${a.sort} ${body})`) }
		return n
	}
	return ref(t)
}
export const BOOL = 'Bool', INT = 'Int', REAL = 'Real', STR = 'String', VAL = 'Val', SEQ = '(Seq Val)', SETV = '(Array Val Bool)', MAPV = '(Array Val Val)'
export const TRUE = mk('true', [], BOOL), FALSE = mk('false', [], BOOL)
export const bool = b => (b ? TRUE : FALSE)
export const int = n => mk('int#' + n, [], INT, n < 0 ? `(- ${-n})` : String(n))
const isInt = t => t.op.startsWith('int#')
export const intVal = t => (isInt(t) ? Number(t.op.slice(4)) : undefined)
export function smtStr(v) {
	let out = ''
	for (const ch of v) {
		const c = ch.codePointAt(0)
		if (c === 34) out += '""'
		else if (c >= 32 && c < 127 && c !== 92) out += ch
		else out += `\\u{${c.toString(16)}}`
	}
	return `"${out}"`
}
export const str = v => { const t = mk('str#' + v, [], STR, smtStr(v)); t.lit = v; return t }
export const strLit = t => t.lit
export function realLit(n) {
	// exact rational for a JS number
	if (!Number.isFinite(n)) throw new Error('no such rational: ' + n)
	if (Number.isInteger(n)) return mk('real#' + n, [], REAL, n < 0 ? `(- ${BigInt(-n)}.0)` : `${BigInt(n)}.0`)
	let d = 1n, x = n
	while (!Number.isInteger(x)) { x *= 2; d *= 2n }
	const num = BigInt(x)
	return mk('real#' + n, [], REAL, num < 0n ? `(- (/ ${-num}.0 ${d}.0))` : `(/ ${num}.0 ${d}.0)`)
}
// ---- declarations
const decls = new Map() // name -> declaration text
const declOrder = []
const constSort = new Map()
export function declare(name, text) { if (!decls.has(name)) { decls.set(name, text); declOrder.push(text); for (const s of sessions) s.send(text) } }
const sortTag = s => s.replace(/[^A-Za-z]/g, '')
export function constant(name, sort) {
	const old = constSort.get(name)
	if (old !== undefined && old !== sort) return constant(name.endsWith('|') ? `${name.slice(0, -1)}:${sortTag(sort)}|` : `|${name}:${sortTag(sort)}|`, sort)
	constSort.set(name, sort)
	declare(name, `(declare-const ${name} ${sort})`)
	return mk(name, [], sort)
}
export function ufun(name, argSorts, sort) {
	declare(name, `(declare-fun ${name} (${argSorts.join(' ')}) ${sort})`)
	return (...args) => mk(name, args, sort)
}
export const app = (name, args, sort) => mk(name, args, sort)

// ---- boolean connectives
export function not(a) {
	if (a === TRUE) return FALSE
	if (a === FALSE) return TRUE
	if (a.op === 'not') return a.args[0]
	return mk('not', [a], BOOL)
}
export function and(...xs) {
	const out = []
	for (const x of xs.flat()) {
		if (x === TRUE) continue
		if (x === FALSE) return FALSE
		if (x.op === 'and') { for (const y of x.args) if (!out.includes(y)) out.push(y) }
		else if (!out.includes(x)) out.push(x)
	}
	for (const x of out) if (x.op === 'not' && out.includes(x.args[0])) return FALSE
	return out.length === 0 ? TRUE : out.length === 1 ? out[0] : mk('and', out, BOOL)
}
export function or(...xs) {
	const out = []
	for (const x of xs.flat()) {
		if (x === FALSE) continue
		if (x === TRUE) return TRUE
		if (x.op === 'or') { for (const y of x.args) if (!out.includes(y)) out.push(y) }
		else if (!out.includes(x)) out.push(x)
	}
	for (const x of out) if (x.op === 'not' && out.includes(x.args[0])) return TRUE
	return out.length === 0 ? FALSE : out.length === 1 ? out[0] : mk('or', out, BOOL)
}
export const implies = (a, b) => or(not(a), b)
export const iff = (a, b) => eq(a, b)

// ---- Val constructors
export const CTORS = {
	VUndef: [], VNull: [], VBool: [BOOL], VNum: [REAL], VNaN: [], VNegZ: [], VInf: [BOOL], VStr: [STR], VSym: [INT], VRef: [INT]
}
const SEL = { VBool: 'vb', VNum: 'vn', VInf: 'vi', VStr: 'vs', VSym: 'vy', VRef: 'vr' }
export const V = (c, ...a) => mk(c, a, VAL)
export const VUNDEF = V('VUndef'), VNULL = V('VNull'), VNAN = V('VNaN'), VNEGZ = V('VNegZ')
export const isCtor = t => t.op in CTORS && t.sort === VAL
export function is(c, t) {
	if (isCtor(t)) return bool(t.op === c)
	if (t.op === 'ite') return ite(t.args[0], is(c, t.args[1]), is(c, t.args[2]))
	return mk(`(_ is ${c})`, [t], BOOL)
}
export function sel(c, t) {
	if (t.op === c) return t.args[0]
	if (t.op === 'ite' && isCtor(t.args[1]) && t.args[1].op === c && isCtor(t.args[2]) && t.args[2].op === c) return ite(t.args[0], sel(c, t.args[1]), sel(c, t.args[2]))
	return mk(SEL[c], [t], CTORS[c][0])
}
const isLit = t => t === TRUE || t === FALSE || isInt(t) || t.op.startsWith('real#') || t.op.startsWith('str#')
export function eq(a, b) {
	if (a === b) return TRUE
	if (a.sort !== b.sort) {
		if (a.sort === INT && b.sort === REAL) return eq(toReal(a), b)
		if (a.sort === REAL && b.sort === INT) return eq(a, toReal(b))
		throw new Error(`eq sorts ${a.sort} ${b.sort}`)
	}
	if (isLit(a) && isLit(b)) return FALSE
	if (a.sort === BOOL) {
		if (a === TRUE) return b
		if (b === TRUE) return a
		if (a === FALSE) return not(b)
		if (b === FALSE) return not(a)
	}
	if (a.sort === VAL && isCtor(a) && isCtor(b)) {
		if (a.op !== b.op) return FALSE
		return and(...a.args.map((x, i) => eq(x, b.args[i])))
	}
	if (a.sort === STR && (a.op === 'str.++' || b.op === 'str.++')) {
		let x = a.op === 'str.++' ? a.args : [a], y = b.op === 'str.++' ? b.args : [b], i = 0, j = 0
		while (i < x.length && i < y.length && x[i] === y[i]) i++
		while (j < x.length - i && j < y.length - i && x[x.length - 1 - j] === y[y.length - 1 - j]) j++
		if (i || j) return eq(concat(...x.slice(i, x.length - j)), concat(...y.slice(i, y.length - j)))
		const n = knownLength(x[0])
		if (n !== undefined && n === knownLength(y[0])) return and(eq(x[0], y[0]), eq(concat(...x.slice(1)), concat(...y.slice(1))))
	}
	if (b.op === 'ite' && a.op !== 'ite' && isCtor(a)) return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
	if (a.op === 'ite' && b.op !== 'ite' && isCtor(b)) return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
	if (a.id > b.id) [a, b] = [b, a]
	return mk('=', [a, b], BOOL)
}
export function ite(c, a, b) {
	if (c === TRUE) return a
	if (c === FALSE) return b
	if (a === b) return a
	if (a.sort !== b.sort) { a = toReal(a); b = toReal(b) }
	if (a.sort === BOOL) {
		if (a === TRUE && b === FALSE) return c
		if (a === FALSE && b === TRUE) return not(c)
		if (a === TRUE) return or(c, b)
		if (a === FALSE) return and(not(c), b)
		if (b === TRUE) return or(not(c), a)
		if (b === FALSE) return and(c, a)
	}
	return mk('ite', [c, a, b], a.sort)
}
// ---- arithmetic
export const toReal = t => (t.sort === REAL ? t : isInt(t) ? realLit(intVal(t)) : mk('to_real', [t], REAL))
function lin(t) { // linear form over Int: {k: const, m: Map(term->coef)}
	if (isInt(t)) return { k: intVal(t), m: new Map() }
	if (t.op === '+' && t.sort === INT) { let k = 0; const m = new Map(); for (const a of t.args) { const l = lin(a); k += l.k; for (const [x, c] of l.m) m.set(x, (m.get(x) ?? 0) + c) } return { k, m } }
	if (t.op === '*' && isInt(t.args[0])) { const l = lin(t.args[1]); const c = intVal(t.args[0]); return { k: l.k * c, m: new Map([...l.m].map(([x, d]) => [x, d * c])) } }
	return { k: 0, m: new Map([[t, 1]]) }
}
function unlin({ k, m }) {
	const parts = [...m].filter(([, c]) => c !== 0).sort((a, b) => a[0].id - b[0].id).map(([x, c]) => (c === 1 ? x : mk('*', [int(c), x], INT)))
	if (k !== 0 || parts.length === 0) parts.push(int(k))
	return parts.length === 1 ? parts[0] : mk('+', parts, INT)
}
export function add(a, b) {
	if (a.sort === INT && b.sort === INT) { const x = lin(a), y = lin(b); const m = new Map(x.m); for (const [t, c] of y.m) m.set(t, (m.get(t) ?? 0) + c); return unlin({ k: x.k + y.k, m }) }
	return mk('+', [toReal(a), toReal(b)], REAL)
}
export function neg(a) { if (a.sort === INT) { const x = lin(a); return unlin({ k: -x.k, m: new Map([...x.m].map(([t, c]) => [t, -c])) }) } return mk('-', [a], REAL) }
export const sub = (a, b) => (a.sort === INT && b.sort === INT ? add(a, neg(b)) : mk('-', [toReal(a), toReal(b)], REAL))
export const mul = (a, b) => {
	if (a.sort === INT && b.sort === INT) {
		if (isInt(a) && isInt(b)) return int(intVal(a) * intVal(b))
		if (isInt(b)) [a, b] = [b, a]
		if (isInt(a)) { const x = lin(b), c = intVal(a); return unlin({ k: x.k * c, m: new Map([...x.m].map(([t, d]) => [t, d * c])) }) }
		return mk('*', [a, b], INT)
	}
	return mk('*', [toReal(a), toReal(b)], REAL)
}
export function lt(a, b) {
	if (a.sort === INT && b.sort === INT) { const d = lin(sub(a, b)); if ([...d.m.values()].every(c => c === 0)) return bool(d.k < 0) }
	else { a = toReal(a); b = toReal(b); if (a.op.startsWith('real#') && b.op.startsWith('real#')) return bool(Number(a.op.slice(5)) < Number(b.op.slice(5))) }
	return mk('<', [a, b], BOOL)
}
export const le = (a, b) => not(lt(b, a))
// ---- strings
export function concat(...xs) {
	const out = []
	for (const x of xs.flatMap(x => (x.op === 'str.++' ? x.args : [x]))) {
		const l = out[out.length - 1]
		if (strLit(x) === '') continue
		if (l && strLit(l) !== undefined && strLit(x) !== undefined) out[out.length - 1] = str(strLit(l) + strLit(x))
		else out.push(x)
	}
	return out.length === 0 ? str('') : out.length === 1 ? out[0] : mk('str.++', out, STR)
}
/** function symbols whose texts have a length of their own */
const LENGTH_OF = { digits36of11: 11 }
const knownLength = t => {
	if (strLit(t) !== undefined) return strLit(t).length
	if (t.op !== 'str.substr') return LENGTH_OF[t.op]
	const l = knownLength(t.args[0]), i = intVal(t.args[1]), n = intVal(t.args[2])
	return l !== undefined && i >= 0 && i <= l && n >= 0 ? Math.min(n, l - i) : undefined
}
export function strlen(t) {
	if (t.op === 'str.++') return t.args.map(strlen).reduce(add)
	const n = knownLength(t)
	return n !== undefined ? int(n) : mk('str.len', [t], INT)
}
export function substr(t, from, count) {
	let i = intVal(from), n = intVal(count)
	if (n !== undefined && n <= 0) return str('')
	if (i === 0 && count === strlen(t)) return t
	if (i === undefined || i < 0 || n === undefined) return mk('str.substr', [t, from, count], STR)
	const parts = t.op === 'str.++' ? t.args : [t], out = []
	for (let k = 0; k < parts.length && n > 0; k++) {
		const p = parts[k], l = knownLength(p)
		if (l === undefined) { out.push(mk('str.substr', [concat(...parts.slice(k)), int(i), int(n)], STR)); break }
		if (i >= l) { i -= l; continue }
		const m = Math.min(n, l - i)
		out.push(m === l ? p : strLit(p) !== undefined ? str(strLit(p).slice(i, i + m)) : mk('str.substr', [p, int(i), int(m)], STR))
		n -= m; i = 0
	}
	return concat(...out)
}
export function strOp(op, args, sort) {
	if (op === 'str.len') return strlen(args[0])
	if (op === 'str.substr') return substr(...args)
	if (op === 'str.prefixof') {
		const [x, y] = args.map(a => (a.op === 'str.++' ? a.args : [a]))
		if (x.length <= y.length && x.every((a, i) => a === y[i] || (i === x.length - 1 && strLit(a) !== undefined && strLit(y[i])?.startsWith(strLit(a))))) return TRUE
	}
	return mk(op, args, sort)
}
// ---- sequences
export const SEMPTY = mk('seq.empty', [], SEQ, '(as seq.empty (Seq Val))')
export const unit = v => mk('seq.unit', [v], SEQ)
export function scat(...xs) {
	const out = xs.flatMap(x => (x.op === 'seq.++' ? x.args : x === SEMPTY ? [] : [x]))
	return out.length === 0 ? SEMPTY : out.length === 1 ? out[0] : mk('seq.++', out, SEQ)
}
export function slen(t) {
	if (t === SEMPTY) return int(0)
	if (t.op === 'seq.unit') return int(1)
	if (t.op === 'seq.++') return t.args.map(slen).reduce(add)
	return mk('seq.len', [t], INT)
}
export function snth(t, i) {
	if (t.op === 'seq.unit' && intVal(i) === 0) return t.args[0]
	if (t.op === 'seq.++' && intVal(i) !== undefined) {
		let k = intVal(i)
		for (const a of t.args) { if (a.op !== 'seq.unit') break; if (k === 0) return a.args[0]; k-- }
	}
	return mk('seq.nth', [t, i], VAL)
}
export const sextract = (t, i, n) => {
	if (intVal(i) === 0 && n === slen(t)) return t
	if (intVal(n) === 0) return SEMPTY
	return mk('seq.extract', [t, i, n], SEQ)
}
export function scontains(t, v) {
	if (t === SEMPTY) return FALSE
	if (t.op === 'seq.unit') return eq(t.args[0], v)
	if (t.op === 'seq.++') return or(...t.args.map(a => scontains(a, v)))
	return mk('seq.contains', [t, unit(v)], BOOL)
}
export function sindexof(t, v) { return t === SEMPTY ? int(-1) : mk('seq.indexof', [t, unit(v), int(0)], INT) }
// ---- arrays
export const constArr = (sort, v) => mk('constarr', [v], sort)
export function store(a, k, v) {
	if (a.op === 'store' && a.args[1] === k) return store(a.args[0], k, v)
	return mk('store', [a, k, v], a.sort)
}
export function select(a, k) {
	const sort = a.sort === SETV ? BOOL : VAL
	if (a.op === 'constarr') return a.args[0]
	if (a.op === 'store') {
		const e = eq(a.args[1], k)
		if (e === TRUE) return a.args[2]
		if (e === FALSE) return select(a.args[0], k)
		return ite(e, a.args[2], select(a.args[0], k))
	}
	if (a.op === 'ite') return ite(a.args[0], select(a.args[1], k), select(a.args[2], k))
	return mk('select', [a, k], sort)
}
// ---- substitution
export function subst(t, map, memo = new Map()) {
	if (map.has(t)) return map.get(t)
	if (!t.args.length) return t
	const m = memo.get(t)
	if (m) return m
	const as = t.args.map(a => subst(a, map, memo))
	const r = as.every((a, i) => a === t.args[i]) ? t : rebuild(t, as)
	memo.set(t, r)
	return r
}
function rebuild(t, as) {
	const sm = /^\(_ is (\w+)\)$/.exec(t.op)
	if (sm) return is(sm[1], as[0])
	switch (t.op) {
		case 'not': return not(as[0])
		case 'and': return and(...as)
		case 'or': return or(...as)
		case '=': return eq(as[0], as[1])
		case 'ite': return ite(...as)
		case '+': return as.reduce(add)
		case '<': return lt(...as)
		case 'select': return select(...as)
		case 'store': return store(...as)
		case 'seq.++': return scat(...as)
		case 'str.++': return concat(...as)
		case 'str.prefixof': case 'str.len': case 'str.substr': return strOp(t.op, as, t.sort)
		case 'seq.len': return slen(as[0])
		case 'seq.nth': return snth(...as)
		case 'constarr': return constArr(t.sort, as[0])
		case 'to_real': return toReal(as[0])
		case 'vb': case 'vn': case 'vi': case 'vs': case 'vy': case 'vr': { const c = Object.keys(SEL).find(k => SEL[k] === t.op); return sel(c, as[0]) }
	}
	return mk(t.op, as, t.sort)
}
/** the constants and functions that a term is about; which objects are functions, or frozen, does not tie things together */
const NONE = []
export function symbols(t) {
	if (t.syms) return t.syms
	const own = decls.has(t.op) && !/^(fn\?|prom\?|frozen\?|frozeR|frozeG)$/.test(t.op)
	let r
	if (!t.args.length) r = own ? [t.op] : NONE
	else {
		const parts = t.args.map(symbols).filter(x => x.length)
		if (!own && parts.length === 0) r = NONE
		else if (!own && parts.every(x => x === parts[0])) r = parts[0]
		else { const set = new Set(own ? [t.op] : []); for (const p of parts) for (const x of p) set.add(x); r = [...set] }
	}
	return t.syms = r
}
export function mentions(t, set, memo = new Map()) {
	if (set.has(t)) return true
	if (memo.has(t)) return memo.get(t)
	const r = t.args.some(a => mentions(a, set, memo))
	memo.set(t, r)
	return r
}

// ---- solver session
export const PRELUDE = `(set-option :global-declarations true)
(declare-datatypes ((Val 0)) (((VUndef) (VNull) (VBool (vb Bool)) (VNum (vn Real)) (VNaN) (VNegZ) (VInf (vi Bool)) (VStr (vs String)) (VSym (vy Int)) (VRef (vr Int)))))
`
const sessions = []
export const stats = { queries: 0, ms: 0, unknown: 0, cvc5: 0, bySolver: {} }
export class Session {
	constructor(bin = 'z3-new', timeoutMs = 8000) {
		this.bin = bin
		this.dir = mkdtempSync(join(tmpdir(), 'tsv-'))
		const i = join(this.dir, 'in'), o = join(this.dir, 'out')
		execFileSync('mkfifo', [i, o])
		this.proc = spawn('/bin/sh', ['-c', `exec ${bin} -in -smt2 < ${i} > ${o} 2>&1`], { stdio: 'ignore' })
		this.win = openSync(i, 'w')
		this.rout = openSync(o, 'r')
		this.buf = ''
		this.stack = []
		this.log = []
		this.send(PRELUDE)
		this.send(`(set-option :timeout ${timeoutMs})`)
		for (const d of declOrder) this.send(d)
		sessions.push(this)
	}
	text(t) { return solverText(t, this.named ??= new Map(), d => this.send(d)) }
	send(s) { const b = Buffer.from(s + '\n'); let off = 0; while (off < b.length) off += writeSync(this.win, b, off) }
	line() {
		for (;;) {
			const n = this.buf.indexOf('\n')
			if (n >= 0) { const l = this.buf.slice(0, n); this.buf = this.buf.slice(n + 1); return l }
			const b = Buffer.alloc(65536)
			const k = readSync(this.rout, b, 0, b.length)
			if (k === 0) throw new Error('solver died: ' + this.buf)
			this.buf += b.toString('utf8', 0, k)
		}
	}
	sync(pc) {
		let i = 0
		while (i < this.stack.length && i < pc.length && this.stack[i] === pc[i]) i++
		if (this.stack.length > i) { this.send(`(pop ${this.stack.length - i})`); this.stack.length = i }
		for (; i < pc.length; i++) { { const x = this.text(pc[i]); this.send(`(push 1)(assert ${x})`) }; this.stack.push(pc[i]) }
	}
	/** is pc /\ extra satisfiable: 'sat' | 'unsat' | 'unknown' */
	check(pc, extra) {
		if (extra === FALSE) return 'unsat'
		const t0 = performance.now()
		this.sync(pc)
		if (extra && extra !== TRUE) { const x = this.text(extra); this.send(`(push 1)(assert ${x})(check-sat)`) }
		else this.send('(push 1)(check-sat)')
		let r = this.line()
		while (r !== 'sat' && r !== 'unsat' && r !== 'unknown') { if (r.startsWith('(error')) { if (process.env.TSV_DUMP) console.error(r, extra && extra.s); throw new Error('smt: ' + r) } r = this.line() }
		if (r !== 'sat') this.send('(pop 1)')
		else this.openModel = true
		stats.queries++
		stats.ms += performance.now() - t0
		if (process.env.TSV_SLOW && performance.now() - t0 > Number(process.env.TSV_SLOW)) console.error(Math.round(performance.now() - t0), r, extra?.s.slice(0, 400), 'pc', pc.length)
		if (r === 'unknown') stats.unknown++
		this.lastSat = r === 'sat'
		if (this.lastSat && !this.keepModel) { this.send('(pop 1)') }
		return r
	}
	/** evaluate terms in a model of pc /\ extra; null if none found */
	model(pc, extra, terms) {
		this.keepModel = true
		let r
		try { r = this.check(pc, extra) } finally { this.keepModel = false }
		if (r !== 'sat') return null
		const out = []
		for (const t of terms) {
			const x = this.text(t)
			this.send(`(eval ${x})(echo "<<<")`)
			let s = ''
			for (;;) { const l = this.line(); if (l === '<<<') break; s += l + ' ' }
			out.push(s.trim())
		}
		this.send('(pop 1)')
		return out
	}
	close() { try { closeSync(this.win); closeSync(this.rout); this.proc.kill() } catch { } rmSync(this.dir, { recursive: true, force: true }); sessions.splice(sessions.indexOf(this), 1) }
}
/** one-shot check with another solver */
export function oneShot(bin, pc, extra, ms = 20000) {
	const lines = [], named = new Map()
	for (const p of [...pc, extra]) { const x = solverText(p, named, d => lines.push(d)); lines.push(`(assert ${x})`) }
	const script = (bin === 'cvc5' ? '(set-logic ALL)\n' : '') + PRELUDE + declOrder.join('\n') + '\n' + lines.join('\n') + '\n(check-sat)\n'
	const args = bin === 'cvc5' ? ['--lang=smt2', '--strings-exp', `--tlimit=${ms}`, '-'] : ['-in', '-smt2', `-T:${Math.ceil(ms / 1000)}`]
	const t0 = performance.now()
	const r = spawnSync(bin, args, { input: script, encoding: 'utf8', timeout: ms + 5000 })
	stats.ms += performance.now() - t0
	stats.bySolver[bin] = (stats.bySolver[bin] ?? 0) + 1
	const m = /^(sat|unsat|unknown)/m.exec(r.stdout ?? '')
	return m ? m[1] : 'unknown'
}
