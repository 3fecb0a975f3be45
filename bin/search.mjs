// worker: node bin/search.mjs COMPONENT OUT.json RUNS BUDGET_MS SEED : concrete histories of the current sources
import { writeFileSync } from 'node:fs'
import { byId } from '../components.mjs'
import { search } from '../engine/concrete.mjs'
const [id, out, runs, budget, seed] = process.argv.slice(2)
const r = await search(byId(id), { runs: Number(runs), budgetMs: Number(budget), seed: Number(seed) })
writeFileSync(out, JSON.stringify({ component: id, ...r }))
process.exit(0)
