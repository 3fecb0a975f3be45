// writes MANIFEST.json from properties.jsonl, properties.mjs and expected.json (development only)
import { readFileSync, writeFileSync } from 'node:fs'
import { join, resolve } from 'node:path'
import { decides } from '../properties.mjs'
const HERE = resolve(import.meta.dirname, '..')
const props = readFileSync(join(HERE, 'properties.jsonl'), 'utf8').trim().split('\n').map(l => JSON.parse(l))
const expected = JSON.parse(readFileSync(join(HERE, 'expected.json'), 'utf8'))
const { allOps } = await import('./ops.mjs')
const checks = [], not_applicable = []
for (const p of props) {
	const d = decides[p.id]
	if (!d) { not_applicable.push({ property: p.id, reason: 'no check has been built for it yet' }); continue }
	const names = []
	for (const [c, ops] of Object.entries(d)) { const a = await allOps(c); for (const o of a.ops.concat(a.lemmas)) if (ops === '*' || ops.includes(o)) names.push([c, o]) }
	const missing = names.filter(([c, o]) => !expected[c]?.includes(o))
	const level = missing.length ? 'exploration' : 'proof'
	checks.push({
		property: p.id,
		quick_cmd: `node bin/check.mjs ${p.id}`,
		thorough_cmd: `node bin/check.mjs ${p.id} --thorough`,
		technique: missing.length ? 'contracts on the real functions, deductive verification where decided, bounded concrete histories elsewhere' : 'contract-based deductive verification of the real functions (relational symbolic execution, z3 and cvc5)',
		level,
		level_note: (missing.length ? `Proved: ${names.filter(([c, o]) => expected[c]?.includes(o)).map(x => x.join('.')).join(', ') || 'nothing'}. Bounded only (random histories against the contract, never counted as proved): ${missing.map(x => x.join('.')).join(', ')}. ` : `All operations and lemmas are proved for all inputs and all states: ${names.map(x => x.join('.')).join(', ')}. `) + 'Trusted: the verification condition generator in engine/, z3, cvc5, the TypeScript parser and the assumed contracts of libraries and built-ins that the evidence lists.'
	})
}
writeFileSync(join(HERE, 'MANIFEST.json'), JSON.stringify({ version: 1, setup_cmd: 'node bin/setup.mjs', hooks: { guard: 'none', enable: 'no hooks are needed: the checks read the sources of /repo as they are', source_commits: [] }, checks, not_applicable, notes: 'See DESIGN.md.' }, null, 1) + '\n')
console.log(checks.map(c => `${c.property}:${c.level}`).join(' '), '| not claimed:', not_applicable.map(n => n.property).join(' '))
