// Which variables no code can use any more once construction is over (nothing that is left refers to them).
import ts from '/opt/veriftools/node/node_modules/typescript/lib/typescript.js'
import { M, Obj, Cell, SV, Unsupported } from './machine.mjs'
import { Env } from './interp.mjs'
import { collectRefs } from './loops.mjs'

const namesOf = new WeakMap()
/** every identifier in the text of a function: more than its free variables */
function identifiers(node) {
	let s = namesOf.get(node)
	if (!s) {
		namesOf.set(node, s = new Set())
		const walk = n => { if (ts.isIdentifier(n)) s.add(n.text); ts.forEachChild(n, walk) }
		walk(node)
	}
	return s
}
const isTerm = x => typeof x.op === 'string' && Array.isArray(x.args)
/** the cells that existed and could still be used, starting from the given values; undefined when that cannot be told */
export function liveCells(roots) {
	const seen = new Set(), cells = new Set(), memo = new Set(), refs = new Set()
	// no code is waiting to be resumed
	for (const o of [...M.objs.values(), ...M.promises.values()]) if (o.state === 'pending' && o.reactions?.length) return undefined
	if (M.microtasks.R.length || M.microtasks.G.length) return undefined
	const todo = [...roots, M.trace, M.symbols, M.globals, ...Object.entries(M.extra).filter(([k]) => k !== 'keptEnvs' && k !== 'dead').map(([, v]) => v)]
	const name = (env, n) => { const c = env.lookup(n); if (c) todo.push(c) }
	try {
		for (;;) {
			while (todo.length) {
				const x = todo.pop()
				if (x === null || (typeof x !== 'object' && typeof x !== 'function') || seen.has(x)) continue
				seen.add(x)
				if (x instanceof Cell) { cells.add(x); todo.push(x.v); continue }
				if (x instanceof SV) { collectRefs(x.t, refs, memo); continue }
				if (x instanceof Env) { for (let e = x; e; e = e.parent) { if (e.table) return undefined; todo.push(...e.vars.values()) } continue }
				if (x instanceof Map) { todo.push(...x.keys(), ...x.values()); continue }
				if (x instanceof Set || Array.isArray(x)) { todo.push(...x); continue }
				if (typeof x === 'function') continue
				if (isTerm(x)) { collectRefs(x, refs, memo); continue }
				if (x instanceof Obj && x.env) {
					for (const n of x.cls ? [x.cls.node, ...(x.node ? [x.node] : [])] : [x.node]) for (const id of identifiers(n)) name(x.env, id)
					for (const [k, v] of Object.entries(x)) if (k !== 'env' && k !== 'node' && k !== 'cls') todo.push(v)
					if (x.cls) todo.push(x.cls.parent, x.cls.proto)
					continue
				}
				if (x.getSourceFile) continue
				for (const [k, v] of Object.entries(x)) if (k !== 'node') todo.push(v)
			}
			for (const id of refs) { const o = M.objs.get(id); if (o && !seen.has(o)) todo.push(o) }
			if (!todo.length) return cells
		}
	} catch (e) { if (e instanceof Unsupported) return undefined; throw e }
}
