// Loads the real source files (and contract files) for the interpreter; links imports by the place a name is defined.
import { readFileSync, existsSync, realpathSync, readdirSync, statSync } from 'node:fs'
import { dirname, join, resolve as rp } from 'node:path'
import ts from '/opt/veriftools/node/node_modules/typescript/lib/typescript.js'
import * as S from './smt.mjs'
import { M, Obj, Cell, TDZ, Unsupported, initCell } from './machine.mjs'
import { Env, syncInterp, genInterp, names, K } from './interp.mjs'
import * as O from './objects.mjs'

export const REPO = process.env.TSV_REPO ?? '/repo'
export const HERE = rp(import.meta.dirname, '..')
const sources = new Map()
export function parse(file) {
	let s = sources.get(file)
	if (!s) {
		s = ts.createSourceFile(file, readFileSync(file, 'utf8'), ts.ScriptTarget.ESNext, true, file.endsWith('x') ? ts.ScriptKind.TSX : file.endsWith('.ts') ? ts.ScriptKind.TS : ts.ScriptKind.JS)
		sources.set(file, s)
	}
	return s
}
let pkgs
export function packages() {
	if (pkgs) return pkgs
	pkgs = new Map()
	for (const d of ['frameworks', 'libraries', 'plugins', 'presets']) {
		if (!existsSync(join(REPO, d))) continue
		for (const p of readdirSync(join(REPO, d))) {
			const f = join(REPO, d, p, 'package.json')
			if (existsSync(f)) pkgs.set(JSON.parse(readFileSync(f, 'utf8')).name, join(REPO, d, p))
		}
	}
	return pkgs
}
/** names of libraries replaced by assumed contracts */
export const EXT = new Map()
const fileCache = new Map()
export function resolveFile(spec, from) {
	const key = spec + '|' + dirname(from)
	if (fileCache.has(key)) return fileCache.get(key)
	const r = resolveFile0(spec, from)
	fileCache.set(key, r)
	return r
}
function resolveFile0(spec, from) {
	if (spec.startsWith('.') || spec.startsWith('/')) {
		const base = rp(dirname(from), spec)
		for (const c of [base, base.replace(/\.(m?)js$/, '.ts'), base.replace(/\.js$/, '.tsx'), base + '.ts', base + '.js', base + '.mjs', join(base, 'index.ts'), join(base, 'index.js')]) if (existsSync(c) && statSync(c).isFile()) return c
		throw new Unsupported('module ' + spec + ' from ' + from)
	}
	const parts = spec.split('/')
	const name = spec.startsWith('@') ? parts.slice(0, 2).join('/') : parts[0]
	const sub = parts.slice(name.split('/').length).join('/')
	if (packages().has(name)) { const d = packages().get(name); return join(d, 'src', sub, 'index.ts') }
	if (EXT.has(spec)) return EXT.get(spec)
	for (let d = realpathSync(dirname(from)); d !== '/'; d = dirname(d)) {
		const p = join(d, 'node_modules', name)
		if (!existsSync(p)) continue
		const pj = JSON.parse(readFileSync(join(p, 'package.json'), 'utf8'))
		let e = pj.exports?.[sub ? './' + sub : '.'] ?? (sub ? undefined : pj.exports)
		const pick = x => (typeof x === 'string' ? x : Array.isArray(x) ? pick(x[0]) : x ? pick(x.import ?? x.module ?? x.node ?? x.default) : undefined)
		const f = pick(e) ?? (sub ? sub : pj.module ?? pj.main ?? 'index.js')
		return realpathSync(join(p, f))
	}
	const hoisted = join(REPO, 'node_modules/.pnpm/node_modules', name)
	if (existsSync(hoisted)) return resolveFile0(spec, join(hoisted, 'x.js'))
	throw new Unsupported('module ' + spec + ' from ' + from)
}
// ------------------------------------------------------------ static export tables
const tables = new Map()
/** exports of a file: name -> {local} | {from, name} ; stars: [file] */
function exportTable(file) {
	let t = tables.get(file)
	if (t) return t
	t = { map: new Map(), stars: [], imports: new Map() }
	tables.set(file, t)
	if (file.startsWith('native:')) return t
	const typeOnly = new Set()
	for (const s of parse(file).statements) {
		if (ts.isImportDeclaration(s)) {
			if (!s.importClause || s.importClause.isTypeOnly) continue
			const spec = s.moduleSpecifier.text
			if (s.importClause.name) t.imports.set(s.importClause.name.text, { spec, name: 'default' })
			const nb = s.importClause.namedBindings
			if (nb && ts.isNamespaceImport(nb)) t.imports.set(nb.name.text, { spec, ns: true })
			else if (nb) for (const e of nb.elements) if (!e.isTypeOnly) t.imports.set(e.name.text, { spec, name: (e.propertyName ?? e.name).text })
		} else if (ts.isExportDeclaration(s)) {
			if (s.isTypeOnly) continue
			const spec = s.moduleSpecifier?.text
			if (!s.exportClause) t.stars.push(spec)
			else if (ts.isNamespaceExport(s.exportClause)) t.map.set(s.exportClause.name.text, { spec, ns: true })
			else for (const e of s.exportClause.elements) if (!e.isTypeOnly) t.map.set(e.name.text, spec ? { spec, name: (e.propertyName ?? e.name).text } : { local: (e.propertyName ?? e.name).text })
		} else if (ts.isExportAssignment(s)) t.map.set('default', { local: 'default' })
		else if (ts.canHaveModifiers(s) && ts.getModifiers(s)?.some(m => m.kind === K.ExportKeyword)) {
			const isDefault = ts.getModifiers(s).some(m => m.kind === K.DefaultKeyword)
			if (ts.isVariableStatement(s)) for (const d of s.declarationList.declarations) for (const n of names(d.name)) t.map.set(n, { local: n })
			else if (ts.isFunctionDeclaration(s) || ts.isClassDeclaration(s)) { if (ts.isFunctionDeclaration(s) && !s.body) continue; const n = s.name?.text ?? 'default'; t.map.set(isDefault ? 'default' : n, { local: n }) }
		}
	}
	return t
}
/** where a name exported by a file is defined: {file, local} */
export function findExport(file, name, seen = new Set()) {
	if (seen.has(file)) return undefined
	seen.add(file)
	if (file.startsWith('native:')) return { file, local: name }
	const t = exportTable(file)
	const e = t.map.get(name)
	if (e) {
		if (e.spec) { const f = resolveFile(e.spec, file); return e.ns ? { file: f, ns: true } : findExport(f, e.name) ?? { file: f, local: e.name } }
		const imp = t.imports.get(e.local)
		if (imp) { const f = resolveFile(imp.spec, file); return imp.ns ? { file: f, ns: true } : findExport(f, imp.name) }
		return { file, local: e.local }
	}
	if (name === 'default') return undefined
	for (const s of t.stars) { const f = resolveFile(s, file); const r = findExport(f, name, seen); if (r) return r }
	return undefined
}
export function exportNames(file, out = new Set()) {
	const t = exportTable(file)
	for (const n of t.map.keys()) out.add(n)
	for (const s of t.stars) exportNames(resolveFile(s, file), out)
	return out
}
// ------------------------------------------------------------ evaluation
/** native modules: name -> () => {export: value} */
export const natives = new Map()
/** linking policy of the component under proof: (file, local) -> {file, local} of the contract to use instead */
export const policy = { substitute: () => undefined, used: new Set(), loaded: new Set() }

function nativeModule(file, inst) {
	const key = inst + '|' + file
	let m = M.modules.get(key)
	if (!m) { m = { env: null, exports: natives.get(file)() }; M.modules.set(key, m) }
	return m
}
/** the cell (or native value) a name is bound to */
function bindingOf(def, inst) {
	if (inst === 'R') {
		const c = policy.substitute(def.file, def.local)
		if (c) { policy.used.add(`${c.file}#${c.local}`); def = c; inst = 'C' }
	}
	if (def.file.startsWith('native:')) {
		const m = nativeModule(def.file, 'N' + M.side)
		if (!(def.local in m.exports)) throw new Unsupported(`${def.file} has no ${def.local}`)
		return new Cell0(m.exports[def.local])
	}
	if (def.ns) return new Cell0(namespaceObject(def.file, inst))
	const m = loadModule(def.file, inst)
	const c = m.env.vars.get(def.local)
	if (!c) throw new Unsupported(`${def.file} has no ${def.local}`)
	return c
}
class Cell0 { constructor(v) { this.v = v; this.id = 0 } }
function namespaceObject(file, inst) {
	const o = O.makeObject(null)
	if (file.startsWith('native:')) { for (const [k, v] of Object.entries(nativeModule(file, 'N' + M.side).exports)) o.props.set(k, { v, enumerable: true, writable: false }); return o }
	for (const n of exportNames(file)) { const d = findExport(file, n); if (d) o.props.set(n, { v: bindingOf(d, inst).v, enumerable: true, writable: false }) }
	return o
}
/** environment whose imports are linked on first use */
class ModuleEnv extends Env {
	lookup(name) {
		const c = this.vars.get(name)
		if (c) return c
		const imp = this.table.imports.get(name)
		if (!imp) return undefined
		const f = resolveFile(imp.spec, this.file)
		let b
		if (imp.ns) b = new Cell0(namespaceObject(f, this.inst))
		else {
			const d = findExport(f, imp.name)
			if (!d) throw new Unsupported(`${imp.spec} does not export ${imp.name}`)
			b = bindingOf(d, this.inst)
		}
		this.linked.set(name, b)
		return b
	}
}
// a linked import found again quickly
const lookup0 = ModuleEnv.prototype.lookup
ModuleEnv.prototype.lookup = function (name) { return this.linked.get(name) ?? lookup0.call(this, name) }

export function loadModule(file, inst) {
	const key = inst + '|' + file
	let m = M.modules.get(key)
	if (m) return m
	const sf = parse(file)
	if (inst === 'R') policy.loaded.add(file)
	const env = new ModuleEnv(null)
	env.file = file; env.inst = inst; env.table = exportTable(file); env.linked = new Map()
	m = { env }
	M.modules.set(key, m)
	const n0 = names
	for (const st of sf.statements) { if (ts.isVariableStatement(st) && !(st.declarationList.flags & (ts.NodeFlags.Let | ts.NodeFlags.Const))) for (const d of st.declarationList.declarations) for (const n of n0(d.name)) env.declare(n, undefined) }
	syncInterp.hoist(sf.statements, env)
	// `default` exports
	for (const s of sf.statements) syncInterp.stmt(s, env)
	return m
}
/** value exported under a name */
export function importValue(file, name, inst) {
	const d = file.startsWith('native:') ? { file, local: name } : findExport(file, name)
	if (!d) throw new Unsupported(`${file} does not export ${name}`)
	return bindingOf(d, inst).v
}
export function realFunction(file, name) { return findExport(file, name) }
