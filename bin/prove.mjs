// worker: node bin/prove.mjs COMPONENT OUT.json BUDGET_MS : proof of one component against the current sources
import { writeFileSync } from 'node:fs'
import { byId, linker } from '../components.mjs'
import { verifyComponent, stats } from '../engine/verify.mjs'
import { stats as smtStats } from '../engine/smt.mjs'
import { REPO, HERE, findExport } from '../engine/modules.mjs'
const [id, out, budget] = process.argv.slice(2)
const r = verifyComponent(byId(id), { registry: linker(REPO, HERE, findExport), budgetMs: Number(budget) })
writeFileSync(out, JSON.stringify({ component: id, ms: Math.round(r.ms), results: r.results, contractsUsed: r.contractsUsed, filesLoaded: r.filesLoaded, stats, smt: smtStats }))
process.exit(0)
