// Interpreter for the TypeScript/JavaScript subset over concrete and symbolic values.
// The class body is written with generators (for await); a plain synchronous twin is derived from the same text.
import ts from '/opt/veriftools/node/node_modules/typescript/lib/typescript.js'
import * as S from './smt.mjs'
import { M, Obj, Cell, SV, Sy, TDZ, Thrown, Prune, Unsupported, setCell, initCell, setSlot, delSlot, decide, toVal, fromTerm, assume, setFieldQuiet } from './machine.mjs'
import * as O from './objects.mjs'
import { summariseWhile, forEachOf } from './loops.mjs'
const K = ts.SyntaxKind

export class Env {
	constructor(parent, fn = false) { this.vars = new Map(); this.parent = parent; this.fn = fn; if (parent?.keep) this.hold() }
	/** its variables may be used again though no function refers to it */
	hold() { this.keep = true; M.made++; (M.extra.keptEnvs ??= []).push(this) }
	lookup(name) { let e = this; for (;;) { const c = e.vars.get(name); if (c) return c; if (!e.parent) return undefined; e = e.parent; if (e.table) return e.lookup(name) } }
	declare(name, v) { const c = new Cell(v); this.vars.set(name, c); return c }
}
export const where = node => { const sf = node.getSourceFile(); const { line } = sf.getLineAndCharacterOfPosition(node.getStart()); return `${sf.fileName.replace(/^.*\/repo\//, '')}:${line + 1}` }
const unsupported = (node, what) => { throw new Unsupported(`${where(node)}: ${what ?? K[node.kind]} is outside the fragment`, node) }

function skip(n) {
	while (n.kind === K.ParenthesizedExpression || n.kind === K.AsExpression || n.kind === K.NonNullExpression || n.kind === K.SatisfiesExpression || n.kind === K.TypeAssertionExpression || n.kind === K.ExpressionWithTypeArguments) n = n.expression
	return n
}
/** names bound by a pattern */
function names(p, out = []) {
	if (ts.isIdentifier(p)) out.push(p.text)
	else for (const e of p.elements) if (!ts.isOmittedExpression(e)) names(e.name, out)
	return out
}
function hoistVars(node, out) {
	ts.forEachChild(node, c => {
		if (ts.isFunctionLike(c) || ts.isClassLike(c)) return
		if (ts.isVariableDeclarationList(c) && !(c.flags & (ts.NodeFlags.Let | ts.NodeFlags.Const))) for (const d of c.declarations) names(d.name, out)
		hoistVars(c, out)
	})
	return out
}
const usesCache = new WeakMap()
/** after which statement of a list the variables declared in it are not used any more */
function lastUses(stmts) {
	let u = usesCache.get(stmts)
	if (u) return u
	const last = new Map()
	for (const s of stmts) if (ts.isVariableStatement(s) && s.declarationList.flags & (ts.NodeFlags.Let | ts.NodeFlags.Const)) for (const d of s.declarationList.declarations) for (const n of names(d.name)) last.set(n, 0)
	if (last.size) stmts.forEach((s, i) => {
		const walk = (n, inner) => {
			if (ts.isIdentifier(n) && last.has(n.text)) last.set(n.text, inner ? Infinity : Math.max(last.get(n.text), i))
			ts.forEachChild(n, c => walk(c, inner || ts.isFunctionLike(n) || ts.isClassLike(n)))
		}
		walk(s, false)
	})
	const ends = new Map()
	for (const [n, i] of last) if (i < stmts.length - 1) ends.set(i + 1, [...ends.get(i + 1) ?? [], n])
	u = { forget(i, env) { if (M.extra.dead) for (const n of ends.get(i) ?? []) { const c = env.vars.get(n); if (c) M.extra.dead.add(c) } } }
	usesCache.set(stmts, u)
	return u
}
export const isAsync = n => !!(ts.canHaveModifiers(n) && ts.getModifiers(n)?.some(m => m.kind === K.AsyncKeyword))

export class Gen {
	*block(stmts, env) {
		this.hoist(stmts, env)
		const uses = lastUses(stmts)
		for (const [i, s] of stmts.entries()) {
			uses.forget(i, env)
			const c = yield* this.stmt(s, env)
			if (c) return c
		}
	}
	hoist(stmts, env) {
		for (const s of stmts) {
			if (ts.isVariableStatement(s)) {
				if (s.modifiers?.some(m => m.kind === K.DeclareKeyword)) continue
				if (s.declarationList.flags & (ts.NodeFlags.Let | ts.NodeFlags.Const)) for (const d of s.declarationList.declarations) for (const n of names(d.name)) env.declare(n, TDZ)
			} else if (ts.isFunctionDeclaration(s) && s.body) {
				const c = env.vars.get(s.name?.text ?? 'default') ?? env.declare(s.name?.text ?? 'default', undefined)
				c.v = O.makeFunction(s, env)
			} else if (ts.isClassDeclaration(s)) env.declare(s.name?.text ?? 'default', TDZ)
		}
	}
	*stmt(s, env) {
		if (++M.steps > 400000) throw new Unsupported('too many steps')
		switch (s.kind) {
			case K.VariableStatement: {
				if (s.modifiers?.some(m => m.kind === K.DeclareKeyword)) return
				yield* this.declList(s.declarationList, env)
				return
			}
			case K.ExpressionStatement: yield* this.ev(s.expression, env); return
			case K.ReturnStatement: return { type: 'return', value: s.expression ? yield* this.ev(s.expression, env) : undefined }
			case K.IfStatement: {
				if (O.truthy(yield* this.ev(s.expression, env))) return yield* this.stmt(s.thenStatement, env)
				if (s.elseStatement) return yield* this.stmt(s.elseStatement, env)
				return
			}
			case K.Block: return yield* this.block(s.statements, new Env(env))
			case K.FunctionDeclaration: case K.InterfaceDeclaration: case K.TypeAliasDeclaration: case K.EmptyStatement: case K.ImportDeclaration: case K.ExportDeclaration: return
			case K.ModuleDeclaration: return
			case K.ClassDeclaration: {
				const cell = env.vars.get(s.name?.text ?? 'default')
				initCell(cell, yield* this.classDef(s, env))
				return
			}
			case K.ThrowStatement: throw new Thrown(yield* this.ev(s.expression, env))
			case K.BreakStatement: return { type: 'break', label: s.label?.text }
			case K.ContinueStatement: return { type: 'continue', label: s.label?.text }
			case K.ForStatement: {
				let e = new Env(env)
				const perIter = s.initializer && ts.isVariableDeclarationList(s.initializer) && s.initializer.flags & ts.NodeFlags.Let ? s.initializer.declarations.flatMap(d => names(d.name)) : []
				if (s.initializer) {
					if (ts.isVariableDeclarationList(s.initializer)) {
						if (s.initializer.flags & (ts.NodeFlags.Let | ts.NodeFlags.Const)) for (const d of s.initializer.declarations) for (const n of names(d.name)) e.declare(n, TDZ)
						yield* this.declList(s.initializer, e)
					} else yield* this.ev(s.initializer, e)
				}
				const sync = this.twin()
				const cond = () => (s.condition ? O.truthTerm(sync.ev(s.condition, e)) : S.TRUE)
				const fresh = () => { const e2 = new Env(env); for (const [n, c] of e.vars) if (perIter.includes(n)) e2.declare(n, c.v); else e2.vars.set(n, c); return e2 }
				// concrete iterations are run as such (also in async functions)
				for (let guard = 0; ; guard++) {
					const t = cond()
					if (t === S.FALSE) return
					if (t !== S.TRUE) {
						// symbolic trip count: bindings are kept in place for the summary
						return summariseWhile(where(s), cond, () => sync.stmt(s.statement, new Env(e)), () => { if (s.incrementor) sync.ev(s.incrementor, e) })
					}
					if (guard > 2000) unsupported(s, 'loop without a symbolic bound')
					const c = yield* this.stmt(s.statement, e)
					if (c) {
						if (c.type === 'break' && !c.label) return
						if (c.type !== 'continue' || c.label) return c
					}
					e = fresh()
					if (s.incrementor) yield* this.ev(s.incrementor, e)
				}
			}
			case K.WhileStatement: case K.DoStatement: {
				const sync = this.twin()
				const cond = () => O.truthTerm(sync.ev(s.expression, env))
				let first = s.kind === K.DoStatement
				for (let guard = 0; ; guard++) {
					const t = first ? S.TRUE : cond()
					first = false
					if (t === S.FALSE) return
					if (t !== S.TRUE) return summariseWhile(where(s), cond, () => sync.stmt(s.statement, env), () => { })
					if (guard > 2000) unsupported(s, 'loop without a symbolic bound')
					const c = yield* this.stmt(s.statement, env)
					if (c) {
						if (c.type === 'break' && !c.label) return
						if (c.type !== 'continue' || c.label) return c
					}
				}
			}
			case K.ForOfStatement: {
				if (s.awaitModifier) unsupported(s)
				const it = yield* this.ev(s.expression, env)
				const pieces = O.iterablePieces(it)
				const concrete = pieces.every(p => 'e' in p)
				const bind = (v, self) => {
					const e = new Env(env)
					if (ts.isVariableDeclarationList(s.initializer)) {
						const d = s.initializer.declarations[0]
						for (const n of names(d.name)) e.declare(n, TDZ)
						self.bindSync(d.name, v, e, true)
					} else self.assignSync(s.initializer, v, e)
					return e
				}
				const sync = this.twin()
				if (concrete) {
					for (let i = 0; ; i++) {
						const now = O.iterablePieces(it, true)
						if (i >= now.length) return
						if (!('e' in now[i])) unsupported(s, 'iterated collection changed symbolically')
						const c = yield* this.stmt(s.statement, bind(now[i].e, sync))
						if (c) {
							if (c.type === 'break' && !c.label) return
							if (c.type !== 'continue' || c.label) return c
						}
					}
				}
				const c = forEachOf(where(s), it, v => sync.stmt(s.statement, bind(v, sync)))
				return c
			}
			case K.ForInStatement: {
				const o = yield* this.ev(s.expression, env)
				const keys = O.ownKeyPieces(O.toObj(o), 'string')
				const arr = O.makeArray(keys)
				const sync = this.twin()
				return forEachOf(where(s), arr, v => {
					const e = new Env(env)
					const d = s.initializer.declarations[0]
					e.declare(d.name.text, v)
					return sync.stmt(s.statement, e)
				})
			}
			case K.TryStatement: {
				let c
				try {
					c = yield* this.block(s.tryBlock.statements, new Env(env))
				} catch (err) {
					if (!(err instanceof Thrown) || !s.catchClause) { if (s.finallyBlock && err instanceof Thrown) { const f = yield* this.block(s.finallyBlock.statements, new Env(env)); if (f) return f } throw err }
					const e = new Env(env)
					if (s.catchClause.variableDeclaration) { for (const n of names(s.catchClause.variableDeclaration.name)) e.declare(n, TDZ); yield* this.bind(s.catchClause.variableDeclaration.name, err.value, e, true) }
					try { c = yield* this.block(s.catchClause.block.statements, e) } catch (e2) {
						if (s.finallyBlock && e2 instanceof Thrown) { const f = yield* this.block(s.finallyBlock.statements, new Env(env)); if (f) return f }
						throw e2
					}
				}
				if (s.finallyBlock) { const f = yield* this.block(s.finallyBlock.statements, new Env(env)); if (f) return f }
				return c
			}
			case K.SwitchStatement: {
				const v = yield* this.ev(s.expression, env)
				const e = new Env(env)
				const clauses = s.caseBlock.clauses
				for (const c of clauses) this.hoist(c.statements, e)
				let start = -1
				for (let i = 0; i < clauses.length && start < 0; i++) if (ts.isCaseClause(clauses[i]) && O.isTrue(O.strictEq(v, yield* this.ev(clauses[i].expression, e)))) start = i
				if (start < 0) start = clauses.findIndex(c => ts.isDefaultClause(c))
				if (start < 0) return
				for (let i = start; i < clauses.length; i++) for (const st of clauses[i].statements) {
					const c = yield* this.stmt(st, e)
					if (c) return c.type === 'break' && !c.label ? undefined : c
				}
				return
			}
			case K.LabeledStatement: {
				const c = yield* this.stmt(s.statement, env)
				if (c && c.type === 'break' && c.label === s.label.text) return
				return c
			}
			case K.ExportAssignment: initCell(env.vars.get('default') ?? env.declare('default', undefined), yield* this.ev(s.expression, env)); return
		}
		unsupported(s)
	}
	*declList(list, env) {
		for (const d of list.declarations) {
			const isVar = !(list.flags & (ts.NodeFlags.Let | ts.NodeFlags.Const))
			if (!d.initializer) { if (!isVar) yield* this.bind(d.name, undefined, env, true); continue }
			const v = yield* this.evNamed(d.initializer, env, ts.isIdentifier(d.name) ? d.name.text : '')
			yield* this.bind(d.name, v, env, !isVar)
		}
	}
	*evNamed(node, env, name) {
		const n = skip(node)
		if ((ts.isArrowFunction(n) || ts.isFunctionExpression(n)) && !n.name) return O.makeFunction(n, env, name)
		return yield* this.ev(n, env)
	}
	/** bind a pattern; init = initialise a fresh lexical binding (not a write) */
	*bind(p, v, env, init) {
		if (ts.isIdentifier(p)) {
			const c = init ? env.vars.get(p.text) : env.lookup(p.text)
			if (!c) unsupported(p, 'binding ' + p.text)
			if (init) initCell(c, v); else setCell(c, v)
			return
		}
		if (ts.isObjectBindingPattern(p)) {
			if (O.isNullish(v)) throw O.typeError('Cannot destructure undefined')
			const seen = []
			for (const e of p.elements) {
				if (e.dotDotDotToken) { yield* this.bind(e.name, O.objectRest(v, seen), env, init); continue }
				const key = e.propertyName ? yield* this.propName(e.propertyName, env) : e.name.text
				seen.push(key)
				let x = O.get(v, key)
				if (e.initializer && O.isUndef(x)) x = yield* this.evNamed(e.initializer, env, '')
				yield* this.bind(e.name, x, env, init)
			}
			return
		}
		if (ts.isArrayBindingPattern(p)) {
			let i = 0
			const arr = O.iterableArray(v)
			for (const e of p.elements) {
				if (ts.isOmittedExpression(e)) { i++; continue }
				if (e.dotDotDotToken) { yield* this.bind(e.name, O.callMethod(arr, 'slice', [i]), env, init); continue }
				let x = O.get(arr, i++)
				if (e.initializer && O.isUndef(x)) x = yield* this.evNamed(e.initializer, env, '')
				yield* this.bind(e.name, x, env, init)
			}
			return
		}
		unsupported(p)
	}
	*propName(n, env) {
		if (ts.isIdentifier(n) || ts.isStringLiteral(n) || ts.isNumericLiteral(n)) return n.text
		if (ts.isPrivateIdentifier(n)) return n.text
		if (ts.isComputedPropertyName(n)) return O.toKey(yield* this.ev(n.expression, env))
		unsupported(n)
	}
	*classDef(node, env) {
		const e = new Env(env)
		let parent = null
		const h = node.heritageClauses?.find(h => h.token === K.ExtendsKeyword)
		if (h) parent = yield* this.ev(h.types[0].expression, env)
		const proto = O.makeObject(parent instanceof Obj ? O.get(parent, 'prototype') : undefined)
		const ctorNode = node.members.find(m => ts.isConstructorDeclaration(m) && m.body)
		const cls = O.makeClass(node, e, parent, proto, ctorNode)
		if (node.name) { e.declare(node.name.text, cls) }
		for (const m of node.members) {
			const isStatic = ts.canHaveModifiers(m) && ts.getModifiers(m)?.some(x => x.kind === K.StaticKeyword)
			if (ts.isMethodDeclaration(m) && m.body) O.defineHidden(isStatic ? cls : proto, yield* this.propName(m.name, e), O.makeFunction(m, e, undefined, isStatic ? cls : proto))
			else if (ts.isGetAccessor(m)) O.defineAccessor(isStatic ? cls : proto, yield* this.propName(m.name, e), O.makeFunction(m, e, undefined, proto), undefined)
			else if (ts.isSetAccessor(m)) O.defineAccessor(isStatic ? cls : proto, yield* this.propName(m.name, e), undefined, O.makeFunction(m, e, undefined, proto))
			else if (ts.isPropertyDeclaration(m) && isStatic) O.define(cls, yield* this.propName(m.name, e), m.initializer ? yield* this.ev(m.initializer, e) : undefined)
			else if (ts.isClassStaticBlockDeclaration(m)) unsupported(m)
		}
		return cls
	}
	*ref(n, env) {
		n = skip(n)
		if (ts.isIdentifier(n)) return { id: n.text, node: n }
		if (ts.isPropertyAccessExpression(n)) {
			if (n.expression.kind === K.SuperKeyword) return { base: env.lookup('#this').v, key: n.name.text, sup: env.lookup('#home').v.proto }
			return { base: yield* this.ev(n.expression, env), key: n.name.text }
		}
		if (ts.isElementAccessExpression(n)) { const base = yield* this.ev(n.expression, env); const k = yield* this.ev(n.argumentExpression, env); return { base, key: O.toKey(k) } }
		unsupported(n)
	}
	readRef(r, env) { return 'id' in r ? this.ident(r.node, env) : O.get(r.base, r.key) }
	writeRef(r, v, env) {
		if ('id' in r) {
			const c = env.lookup(r.id)
			if (!c) unsupported(r.node, 'assignment to ' + r.id)
			if (c.v === TDZ) throw O.makeThrown('ReferenceError', r.id)
			if (c.constant) throw O.typeError('Assignment to constant variable.')
			setCell(c, v)
		} else O.set(r.base, r.key, v)
	}
	*assign(target, v, env) {
		target = skip(target)
		if (ts.isArrayLiteralExpression(target)) {
			const arr = O.iterableArray(v)
			let i = 0
			for (const e of target.elements) {
				if (ts.isOmittedExpression(e)) { i++; continue }
				if (ts.isSpreadElement(e)) { yield* this.assign(e.expression, O.callMethod(arr, 'slice', [i]), env); continue }
				yield* this.assign(e, O.get(arr, i++), env)
			}
			return
		}
		if (ts.isObjectLiteralExpression(target)) {
			for (const p of target.properties) {
				if (ts.isShorthandPropertyAssignment(p)) this.writeRef({ id: p.name.text, node: p.name }, O.get(v, p.name.text), env)
				else if (ts.isPropertyAssignment(p)) yield* this.assign(p.initializer, O.get(v, yield* this.propName(p.name, env)), env)
				else unsupported(p)
			}
			return
		}
		if (ts.isBinaryExpression(target) && target.operatorToken.kind === K.EqualsToken) {
			if (O.isUndef(v)) v = yield* this.ev(target.right, env)
			return yield* this.assign(target.left, v, env)
		}
		const r = yield* this.ref(target, env)
		this.writeRef(r, v, env)
	}
	ident(n, env) {
		const name = n.text
		if (name === 'undefined') return undefined
		const c = env.lookup(name)
		if (c) {
			if (c.v === TDZ) throw O.makeThrown('ReferenceError', `Cannot access '${name}' before initialization`)
			return c.v
		}
		return O.globalValue(name, n)
	}
	*args(list, env) {
		const out = []
		let pieces = null
		for (const a of list) {
			if (ts.isSpreadElement(a)) {
				const ps = O.iterablePieces(yield* this.ev(a.expression, env))
				if (!pieces && ps.every(p => 'e' in p)) for (const p of ps) out.push(p.e)
				else { pieces ??= out.map(e => ({ e })); pieces.push(...ps) }
			} else {
				const v = yield* this.ev(a, env)
				if (pieces) pieces.push({ e: v }); else out.push(v)
			}
		}
		if (pieces) { const r = []; r.pieces = pieces; return r }
		return out
	}
	*ev(node, env) {
		const n = skip(node)
		switch (n.kind) {
			case K.Identifier: return this.ident(n, env)
			case K.StringLiteral: case K.NoSubstitutionTemplateLiteral: return n.text
			case K.NumericLiteral: return Number(n.text)
			case K.TrueKeyword: return true
			case K.FalseKeyword: return false
			case K.NullKeyword: return null
			case K.ThisKeyword: { const c = env.lookup('#this'); return c ? (c.v === TDZ ? unsupported(n, 'this before super()') : c.v) : undefined }
			case K.VoidExpression: yield* this.ev(n.expression, env); return undefined
			case K.TemplateExpression: {
				const parts = [S.str(n.head.text)]
				for (const sp of n.templateSpans) { parts.push(O.toStringTerm(yield* this.ev(sp.expression, env))); parts.push(S.str(sp.literal.text)) }
				return O.concatenated(S.concat(...parts))
			}
			case K.ArrowFunction: case K.FunctionExpression: return O.makeFunction(n, env)
			case K.ClassExpression: return yield* this.classDef(n, env)
			case K.ObjectLiteralExpression: {
				const o = O.makeObject()
				for (const p of n.properties) {
					if (ts.isPropertyAssignment(p)) {
						const key = yield* this.propName(p.name, env)
						O.define(o, key, yield* this.evNamed(p.initializer, env, typeof key === 'string' ? key : ''))
					} else if (ts.isShorthandPropertyAssignment(p)) O.define(o, p.name.text, this.ident(p.name, env))
					else if (ts.isSpreadAssignment(p)) O.spreadInto(o, yield* this.ev(p.expression, env))
					else if (ts.isMethodDeclaration(p)) { const key = yield* this.propName(p.name, env); O.define(o, key, O.makeFunction(p, env, key, o)) }
					else if (ts.isGetAccessor(p)) O.defineAccessor(o, yield* this.propName(p.name, env), O.makeFunction(p, env, '', o), undefined, true)
					else if (ts.isSetAccessor(p)) O.defineAccessor(o, yield* this.propName(p.name, env), undefined, O.makeFunction(p, env, '', o), true)
					else unsupported(p)
				}
				return o
			}
			case K.ArrayLiteralExpression: {
				const pieces = []
				for (const e of n.elements) {
					if (ts.isSpreadElement(e)) pieces.push(...O.iterablePieces(yield* this.ev(e.expression, env)))
					else if (ts.isOmittedExpression(e)) unsupported(e)
					else pieces.push({ e: yield* this.ev(e, env) })
				}
				return O.makeArray(pieces)
			}
			case K.ConditionalExpression: return O.truthy(yield* this.ev(n.condition, env)) ? yield* this.ev(n.whenTrue, env) : yield* this.ev(n.whenFalse, env)
			case K.PropertyAccessExpression: case K.ElementAccessExpression: case K.CallExpression: return (yield* this.chain(n, env)).v
			case K.NewExpression: {
				const f = yield* this.ev(n.expression, env)
				return O.construct(f, yield* this.args(n.arguments ?? [], env))
			}
			case K.TypeOfExpression: {
				const x = skip(n.expression)
				if (ts.isIdentifier(x) && !env.lookup(x.text) && !O.hasGlobal(x.text) && x.text !== 'undefined') return 'undefined'
				return O.typeOf(yield* this.ev(x, env))
			}
			case K.DeleteExpression: {
				const r = yield* this.ref(n.expression, env)
				O.remove(r.base, r.key)
				return true
			}
			case K.PrefixUnaryExpression: {
				if (n.operator === K.PlusPlusToken || n.operator === K.MinusMinusToken) {
					const r = yield* this.ref(n.operand, env)
					const v = O.arith(n.operator === K.PlusPlusToken ? '+' : '-', O.toNumber(this.readRef(r, env)), 1)
					this.writeRef(r, v, env)
					return v
				}
				const v = yield* this.ev(n.operand, env)
				switch (n.operator) {
					case K.ExclamationToken: return fromTerm(S.not(O.truthTerm(v)))
					case K.MinusToken: return O.arith('-', 0, v, true)
					case K.PlusToken: return O.toNumber(v)
				}
				return unsupported(n)
			}
			case K.PostfixUnaryExpression: {
				const r = yield* this.ref(n.operand, env)
				const old = O.toNumber(this.readRef(r, env))
				this.writeRef(r, O.arith(n.operator === K.PlusPlusToken ? '+' : '-', old, 1), env)
				return old
			}
			case K.BinaryExpression: return yield* this.binary(n, env)
			case K.AwaitExpression: { const v = yield* this.ev(n.expression, env); return yield v }
			case K.RegularExpressionLiteral: return O.makeRegExp(n.text)
			case K.TaggedTemplateExpression: case K.YieldExpression: return unsupported(n)
		}
		return unsupported(n)
	}
	/** member access and calls, with optional chaining: {v, self, short} */
	*chain(node, env) {
		const n = skip(node)
		if (ts.isPropertyAccessExpression(n) || ts.isElementAccessExpression(n)) {
			if (n.expression.kind === K.SuperKeyword) {
				const self = env.lookup('#this').v
				return { v: O.getFrom(env.lookup('#home').v.proto, n.name.text, self), self }
			}
			const b = yield* this.chain(n.expression, env)
			if (b.short) return b
			if (n.questionDotToken && O.isNullish(b.v)) return { v: undefined, short: true }
			const key = ts.isPropertyAccessExpression(n) ? n.name.text : O.toKey(yield* this.ev(n.argumentExpression, env))
			return { v: O.get(b.v, key), self: b.v }
		}
		if (ts.isCallExpression(n)) {
			if (n.expression.kind === K.SuperKeyword) {
				const cell = env.lookup('#this')
				const f = env.lookup('#fn').v
				const o = O.construct(f.cls.parent, yield* this.args(n.arguments, env), env.lookup('#newtarget').v)
				initCell(cell, o)
				O.initFields(f, o)
				return { v: undefined }
			}
			if (n.expression.kind === K.ImportKeyword) unsupported(n, 'dynamic import')
			const c = yield* this.chain(n.expression, env)
			if (c.short) return c
			if (n.questionDotToken && O.isNullish(c.v)) return { v: undefined, short: true }
			const args = yield* this.args(n.arguments, env)
			return { v: O.call(c.v, c.self, args, n) }
		}
		return { v: yield* this.ev(n, env) }
	}
	*binary(n, env) {
		const op = n.operatorToken.kind
		switch (op) {
			case K.EqualsToken: {
				const l = skip(n.left)
				if (ts.isArrayLiteralExpression(l) || ts.isObjectLiteralExpression(l)) { const v = yield* this.ev(n.right, env); yield* this.assign(l, v, env); return v }
				const r = yield* this.ref(l, env)
				const v = yield* this.evNamed(n.right, env, ts.isIdentifier(l) ? l.text : '')
				this.writeRef(r, v, env)
				return v
			}
			case K.AmpersandAmpersandToken: { const l = yield* this.ev(n.left, env); return O.truthy(l) ? yield* this.ev(n.right, env) : l }
			case K.BarBarToken: { const l = yield* this.ev(n.left, env); return O.truthy(l) ? l : yield* this.ev(n.right, env) }
			case K.QuestionQuestionToken: { const l = yield* this.ev(n.left, env); return O.isNullish(l) ? yield* this.ev(n.right, env) : l }
			case K.CommaToken: yield* this.ev(n.left, env); return yield* this.ev(n.right, env)
			case K.AmpersandAmpersandEqualsToken: case K.BarBarEqualsToken: case K.QuestionQuestionEqualsToken: {
				const r = yield* this.ref(n.left, env)
				const l = this.readRef(r, env)
				const go = op === K.AmpersandAmpersandEqualsToken ? O.truthy(l) : op === K.BarBarEqualsToken ? !O.truthy(l) : O.isNullish(l)
				if (!go) return l
				const v = yield* this.ev(n.right, env)
				this.writeRef(r, v, env)
				return v
			}
			case K.PlusEqualsToken: case K.MinusEqualsToken: case K.AsteriskEqualsToken: case K.SlashEqualsToken: {
				const r = yield* this.ref(n.left, env)
				const l = this.readRef(r, env)
				const v = O.binop({ [K.PlusEqualsToken]: '+', [K.MinusEqualsToken]: '-', [K.AsteriskEqualsToken]: '*', [K.SlashEqualsToken]: '/' }[op], l, yield* this.ev(n.right, env))
				this.writeRef(r, v, env)
				return v
			}
			case K.InKeyword: { const k = yield* this.ev(n.left, env); return fromTerm(O.hasProp(O.toObj(yield* this.ev(n.right, env)), O.toKey(k))) }
			case K.InstanceOfKeyword: { const l = yield* this.ev(n.left, env); return O.instanceOf(l, yield* this.ev(n.right, env)) }
		}
		const l = yield* this.ev(n.left, env), r = yield* this.ev(n.right, env)
		switch (op) {
			case K.EqualsEqualsEqualsToken: return fromTerm(O.strictEq(l, r))
			case K.ExclamationEqualsEqualsToken: return fromTerm(S.not(O.strictEq(l, r)))
			case K.EqualsEqualsToken: return fromTerm(O.looseEq(l, r))
			case K.ExclamationEqualsToken: return fromTerm(S.not(O.looseEq(l, r)))
			case K.PlusToken: return O.binop('+', l, r)
			case K.MinusToken: return O.binop('-', l, r)
			case K.AsteriskToken: return O.binop('*', l, r)
			case K.SlashToken: return O.binop('/', l, r)
			case K.GreaterThanGreaterThanGreaterThanToken: return O.unsigned(l, r)
			case K.PercentToken: return O.binop('%', l, r)
			case K.LessThanToken: return fromTerm(O.less(l, r))
			case K.GreaterThanToken: return fromTerm(O.less(r, l))
			case K.LessThanEqualsToken: return fromTerm(O.lessEq(l, r))
			case K.GreaterThanEqualsToken: return fromTerm(O.lessEq(r, l))
		}
		return unsupported(n)
	}
	/** evaluate a function body */
	*body(f, thisArg, args, newTarget) {
		const node = f.node
		const env = new Env(f.env, true)
		if (this === genInterp) env.hold()
		if (!ts.isArrowFunction(node)) {
			env.declare('#this', thisArg)
			env.declare('#fn', f)
			env.declare('#newtarget', newTarget)
			if (f.home) env.declare('#home', f.home)
			if (bodyMentions(node, 'arguments')) env.declare('arguments', O.makeArray(args.pieces ?? args.map(e => ({ e }))))
		}
		if (ts.isFunctionExpression(node) && node.name) env.declare(node.name.text, f)
		for (const p of node.parameters) if (!(ts.isIdentifier(p.name) && p.name.text === 'this')) for (const nm of names(p.name)) env.declare(nm, undefined)
		for (const nm of hoistVars(node.body ?? node, [])) if (!env.vars.has(nm)) env.declare(nm, undefined)
		let i = 0
		for (const p of node.parameters) {
			if (ts.isIdentifier(p.name) && p.name.text === 'this') continue
			if (p.dotDotDotToken) { yield* this.bind(p.name, O.restArray(args, i), env, true); break }
			let v = O.argAt(args, i++)
			if (p.initializer && O.isUndef(v)) v = yield* this.evNamed(p.initializer, env, ts.isIdentifier(p.name) ? p.name.text : '')
			yield* this.bind(p.name, v, env, true)
			if (ts.isParameterPropertyDeclaration(p, p.parent) && newTarget) env.paramProps = [...(env.paramProps ?? []), p.name.text]
		}
		if (!ts.isBlock(node.body)) return yield* this.ev(node.body, env)
		const e2 = new Env(env)
		if (newTarget && f.cls) {
			// parameter properties are assigned right after super()
			e2.paramProps = env.paramProps
			if (!f.cls.parent) { O.initFields(f, thisArg); for (const n of env.paramProps ?? []) O.define(thisArg, n, env.vars.get(n).v) }
		}
		this.hoist(node.body.statements, e2)
		const uses = lastUses(node.body.statements)
		for (const [i, s] of node.body.statements.entries()) {
			uses.forget(i, e2)
			const c = yield* this.stmt(s, e2)
			if (newTarget && f.cls?.parent && ts.isExpressionStatement(s) && ts.isCallExpression(s.expression) && s.expression.expression.kind === K.SuperKeyword) for (const n of env.paramProps ?? []) O.define(env.lookup('#this').v, n, env.vars.get(n).v)
			if (c) { if (newTarget && f.cls) break; return c.value }
		}
		if (newTarget) return env.lookup('#this').v
		return undefined
	}
	twin() { return syncInterp }
	bindSync(p, v, env, init) { return syncInterp.bind(p, v, env, init) }
	assignSync(t, v, env) { return syncInterp.assign(t, v, env) }
}
const mentionCache = new WeakMap()
function bodyMentions(node, name) {
	if (mentionCache.has(node)) return mentionCache.get(node)
	let r = false
	const walk = n => { if (r) return; if (ts.isIdentifier(n) && n.text === name) { r = true; return } ts.forEachChild(n, walk) }
	if (node.body) walk(node.body)
	mentionCache.set(node, r)
	return r
}
// the synchronous twin: same text without generators
const noAwait = () => { throw new Unsupported('await in a synchronous context') }
const text = Gen.toString().replace(/^class Gen/, 'class Plain').replace(/yield\* /g, '').replace(/return yield v/g, 'return noAwait(v)').replace(/^\t\*(\w+)\(/gm, '\t$1(')
const Plain = eval('(' + text + ')')
export const genInterp = new Gen()
export const syncInterp = new Plain()
export { ts, K, skip, names }
