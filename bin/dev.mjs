// developer tool: node bin/dev.mjs COMPONENT [ops] : proof; -c: concrete search
import { components, byId, linker } from '../components.mjs'
import { verifyComponent, stats } from '../engine/verify.mjs'
import { REPO, HERE, findExport } from '../engine/modules.mjs'
const args = process.argv.slice(2)
const concrete = args.includes('-c'), only = args.includes('-p')
const [id, ops] = args.filter(a => !a.startsWith('-'))
const comp = byId(id)
if (!concrete) {
	const r = verifyComponent(comp, { registry: linker(REPO, HERE, findExport), onlyOps: ops?.split(',') })
	for (const x of r.results) { if (!x.ok || process.env.V) console.log(x.ok ? 'ok  ' : 'FAIL', x.id, x.kind ?? '', x.detail ?? ''); if (!x.ok && process.env.P && x.path) console.log(x.path) }
	console.log(r.results.filter(x => x.ok).length, 'of', r.results.length, Math.round(r.ms) + 'ms', JSON.stringify(stats), 'contracts:', r.contractsUsed.join(' '))
	if (process.env.V) console.log(r.filesLoaded)
}
if (!only) {
	const { search } = await import('../engine/concrete.mjs')
	const t = Date.now()
	const c = await search(comp, { runs: Number(process.env.RUNS ?? 300) })
	for (const d of c.found) console.log(JSON.stringify(process.env.V ? d : { op: d.op, kind: d.kind, why: d.why, variant: d.variant }, null, process.env.V ? 1 : 0).slice(0, 4000))
	console.log(JSON.stringify(c.stats), Date.now() - t)
}
process.exit(0)
