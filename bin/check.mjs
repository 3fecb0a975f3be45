// node bin/check.mjs PROPERTY : decides one property for the current sources of /repo
import { spawn } from 'node:child_process'
import { mkdirSync, readFileSync, writeFileSync, existsSync, mkdtempSync, rmSync } from 'node:fs'
import { join, resolve } from 'node:path'
import { tmpdir } from 'node:os'
import { decides } from '../properties.mjs'
import { byId } from '../components.mjs'
import { allOps } from './ops.mjs'

const t0 = Date.now()
const HERE = resolve(import.meta.dirname, '..')
const REPO = process.env.TSV_REPO ?? '/repo'
const id = process.argv[2]
const tier = process.env.VERIF_TIER === 'thorough' || process.argv.includes('--thorough') ? 'thorough' : 'quick'
const seed = Number.parseInt(process.env.VERIF_SEED ?? '1', 10) || 1
const wanted = decides[id]
if (!wanted) { console.error(`no check for ${id}`); process.exit(2) }
const comps = Object.keys(wanted)
const evidenceDir = join(HERE, 'evidence')
mkdirSync(evidenceDir, { recursive: true })
const tmp = mkdtempSync(join(tmpdir(), 'tsv-check-'))
const clean = () => rmSync(tmp, { recursive: true, force: true })
process.on('exit', clean)
const read = f => JSON.parse(readFileSync(f, 'utf8'))
const expected = read(join(HERE, 'expected.json'))
const known = read(join(HERE, 'known-findings.json')).findings.filter(k => k.property === id)

const conf = tier === 'quick' ? { proofMs: 300000, runs: 400, searchMs: 40000, deepRuns: 4000, deepMs: 60000 } : { proofMs: 800000, runs: 12000, searchMs: 300000, deepRuns: 12000, deepMs: 120000 }
function worker(script, args, ms) {
	return new Promise(ok => {
		const out = join(tmp, `${script}-${args.join('-')}.json`.replace(/[^\w.-]/g, '_'))
		const [comp, ...rest] = args
		const p = spawn(process.execPath, ['--max-old-space-size=6000', '--stack-size=4000', join(HERE, 'bin', script), comp, out, ...rest.map(String)], { stdio: ['ignore', 'ignore', 'pipe'], env: process.env })
		let err = ''
		p.stderr.on('data', d => { err = (err + d).slice(-3000) })
		const timer = setTimeout(() => p.kill('SIGKILL'), ms)
		p.on('close', () => { clearTimeout(timer); ok(existsSync(out) ? read(out) : { error: err.trim().split('\n').slice(0, 6).join(' | ') || 'no result' }) })
	})
}
const covers = (comp, op) => wanted[comp] === '*' || op === undefined || op === 'construct' || op === '(construct)' || wanted[comp].includes(op)
const opOf = r => r.op ?? r.id.replace(/^[^/]*\//, '').split('/')[0].replace(/^lemma /, '')

const proofs = {}, searches = {}
await Promise.all(comps.flatMap(c => [
	// where nothing is known to be provable yet, a failed proof says nothing
	(expected[c] ?? []).some(op => covers(c, op)) || tier === 'thorough' ? worker('prove.mjs', [c, conf.proofMs], conf.proofMs + 60000).then(r => { proofs[c] = r }) : Promise.resolve().then(() => { proofs[c] = { results: [], contractsUsed: [], filesLoaded: [], stats: { byZ3: 0, byCvc5: 0, syntactic: 0, paths: 0 }, smt: { queries: 0, ms: 0 }, skipped: true } }),
	worker('search.mjs', [c, conf.runs, conf.searchMs, seed], conf.searchMs + 60000).then(r => { searches[c] = r })
]))
// ------------------------------------------------------------ what was found
const violations = [], knownSeen = new Set(), failedObligations = [], alsoFailed = [], elsewhere = []
const obligations = { total: 0, discharged: 0, checks: 0, bounded: [], names: [] }
const expectedOf = c => new Set(expected[c] ?? [])
for (const c of comps) {
	const p = proofs[c], exp = expectedOf(c)
	if (p.error) { if (exp.size) failedObligations.push({ component: c, id: 'component', kind: 'undecided', detail: p.error }); continue }
	const bad = new Map()
	for (const r of p.results) {
		const op = opOf(r)
		const whole = ['component', 'engine'].includes(r.id)
		if (!whole && !covers(c, op)) { if (!r.ok && exp.has(op)) alsoFailed.push({ component: c, ...r, op }); continue }
		obligations.total++; obligations.checks += r.checks ?? 1
		if (r.ok) { obligations.discharged++; if (obligations.names.length < 400) obligations.names.push(`${c}: ${r.id}`) }
		else if (whole ? exp.size : exp.has(op)) failedObligations.push({ component: c, ...r, op })
		else bad.set(op, r.detail)
	}
	for (const [op, detail] of bad) obligations.bounded.push({ component: c, op, reason: String(detail).slice(0, 300) })
	if (p.skipped) { const a = await allOps(c); for (const op of [...a.ops, ...a.lemmas]) if (covers(c, op)) { obligations.total++; obligations.bounded.push({ component: c, op, reason: 'outside what the verifier decides so far' }) } }
	// an operation that has to be proved has obligations
	for (const op of exp) if (covers(c, op) && !p.results.some(r => opOf(r) === op) && !failedObligations.some(f => f.component === c)) failedObligations.push({ component: c, id: op, op, kind: 'missing', detail: 'no obligation was generated for this operation' })
}
const concrete = (c, s) => {
	if (s.error) { violations.push({ component: c, kind: 'error', op: 'search', why: s.error, nofailing: true }); return }
	for (const f of s.found) if (f.involved ? f.involved.some(op => covers(c, op)) : covers(c, f.op)) {
		const k = known.find(k => k.component === c && k.op === f.op && f.why.includes(k.why))
		if (k) knownSeen.add(k)
		else violations.push({ component: c, ...f })
	} else elsewhere.push({ component: c, op: f.op, why: f.why })
}
for (const c of comps) concrete(c, searches[c])
// the obligations of one component support each other: what holds of one operation may rest on the others
if (!failedObligations.length && !violations.length && !elsewhere.length) failedObligations.push(...alsoFailed)
if (!violations.some(v => !v.nofailing) && failedObligations.length) {
	// the proof failed: look harder for an input that fails
	const again = [...new Set(failedObligations.map(f => f.component))]
	const deeper = {}
	await Promise.all(again.flatMap(c => [1, 2, 3].map(k => worker('search.mjs', [c, conf.deepRuns, conf.deepMs, seed + 1000 * k], conf.deepMs + 60000).then(r => { if (!r.error) deeper[`${c}#${k}`] = r }))))
	for (const [k, r] of Object.entries(deeper)) concrete(k.split('#')[0], r)
}
// ------------------------------------------------------------ known findings are shown on the real code
const knownLines = []
for (const k of known) {
	const [file, name] = k.demo.split('#')
	const shown = await (await import(join(HERE, file)))[name]()
	if (shown) knownLines.push(`KNOWN-FINDING: property=${id} ${k.what}`)
}
// ------------------------------------------------------------ evidence
const sum = f => comps.reduce((n, c) => n + (proofs[c].error ? 0 : f(proofs[c])), 0)
const histories = comps.reduce((n, c) => n + (searches[c].stats?.histories ?? 0), 0), lemmaRuns = comps.reduce((n, c) => n + (searches[c].stats?.lemmaRuns ?? 0), 0)
const manifest = read(join(HERE, 'MANIFEST.json')).checks.find(c => c.property === id)
const { assumptionsOf } = await import('../assumptions.mjs')
const real = violations.filter(v => !v.nofailing)
const nViolations = real.length || failedObligations.length || violations.length ? 1 : 0
const level = manifest?.level ?? 'proof'
const evidence = {
	property: id, tier, seed, level,
	coverage: {
		obligations: obligations.total,
		discharged: obligations.discharged,
		checker_cmd: `node bin/check.mjs ${id}`,
		trusted_base: ['engine/*.mjs (verification condition generator written for this repository)', 'TypeScript 5.9.3 (parser)', 'z3 (z3-new)', 'cvc5 1.1.2', 'assumed contracts of libraries (see assumptions)'],
		evaluations: histories + lemmaRuns,
		distinct_nontrivial: histories + Object.values(searches).reduce((n, s) => n + Object.values(s.stats?.lemmaAsserted ?? {}).reduce((a, b) => a + b, 0), 0),
		rule: 'concrete histories of random operations and inputs run on the real code and on its contract and compared step by step, and lemma runs that reached an assertion on the real code; every history has its own seed',
		samples: [obligations.names.slice(0, 5)],
		path_checks: obligations.checks,
		functions_under_contract: comps.flatMap(c => Object.entries(byId(c).subjects).filter(([, s]) => !s.dep).map(([n, s]) => `${s.real[0]}: ${n}`)),
		obligation_names: obligations.names,
		bounded_only: obligations.bounded,
		verification_conditions: { by_z3: sum(p => p.stats.byZ3), by_cvc5: sum(p => p.stats.byCvc5), by_simplification: sum(p => p.stats.syntactic), solver_queries: sum(p => p.smt.queries), solver_ms: Math.round(sum(p => p.smt.ms)), paths: sum(p => p.stats.paths) },
		contracts_used_at_calls: [...new Set(comps.flatMap(c => proofs[c].contractsUsed ?? []))].map(f => f.replace(HERE + '/', '')),
		files_verified: [...new Set(comps.flatMap(c => proofs[c].filesLoaded ?? []))].map(f => f.replace(REPO + '/', '')),
		concrete: { histories, lemma_runs: lemmaRuns, bound: `${conf.runs} seeds for each variant, up to 8 operations each` },
		explanation: 'Every operation of the real code is executed symbolically, on all paths, next to its contract, from every pair of states that the inferred relation admits; the obligations are that results, calls to the outside, errors logged and states agree. Lemmas are proved over the contracts. The concrete histories confirm that contracts and engine describe what really runs.'
	},
	assumptions: assumptionsOf(comps.map(byId), proofs, obligations.bounded),
	wall_s: (Date.now() - t0) / 1000,
	violations: nViolations
}
writeFileSync(join(evidenceDir, `${id}.json`), JSON.stringify(evidence, null, 1))
for (const l of knownLines) console.log(l)
if (nViolations) {
	const dir = join(evidenceDir, 'replay')
	mkdirSync(dir, { recursive: true })
	const file = join(dir, `${id}.json`)
	const v = real[0]
	writeFileSync(file, JSON.stringify({ property: id, replay: v ? `node bin/replay.mjs ${file}` : undefined, failing: real, failed_obligations: failedObligations.map(f => ({ ...f, path: f.path?.slice(0, 60) })), errors: violations.filter(x => x.nofailing) }, null, 1))
	for (const f of failedObligations.slice(0, 5)) console.log(`obligation not discharged: ${f.component}: ${f.id} (${f.kind}) ${String(f.detail).slice(0, 300)}`)
	if (v) { console.log(`${v.component}: ${v.op}: ${v.why}`.slice(0, 600)); console.log(`VIOLATION property=${id} replay=${file}`) }
	else { for (const x of violations.slice(0, 3)) console.log(`${x.component}: ${x.why}`.slice(0, 500)); console.log(`VIOLATION property=${id} replay=${file} no-failing-input-found`) }
	process.exit(1)
}
console.log(`${id}: ${obligations.discharged} of ${obligations.total} obligations discharged, ${histories} histories, ${lemmaRuns} lemma runs, ${((Date.now() - t0) / 1000).toFixed(1)} s${obligations.bounded.length ? `; bounded only: ${obligations.bounded.map(b => `${b.component}.${b.op}`).join(' ')}` : ''}`)
process.exit(0)
