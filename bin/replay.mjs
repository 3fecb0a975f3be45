// node bin/replay.mjs FILE : replays the failing history of a violation against the real code
import { readFileSync } from 'node:fs'
import { byId } from '../components.mjs'
import { loadComponent, history, lemma } from '../engine/concrete.mjs'
const r = JSON.parse(readFileSync(process.argv[2], 'utf8'))
process.on('unhandledRejection', () => { })
let bad = 0
for (const f of r.failing) {
	const L = await loadComponent(byId(f.component))
	const d = f.kind === 'lemma' ? await lemma(L, 'real', f.op, f.seed, f.variant, f.len) : await history(L, f.seed, f.variant, f.len, f.skip)
	if (d?.kind) { bad++; console.log(`${f.component}: ${d.op}: ${d.why}`); for (const l of d.real.slice(-12)) console.log('   ', l) }
	else console.log(`${f.component}: ${f.op}: does not fail any more`)
}
if (!r.failing.length) console.log('no failing input was found; failed obligations:', r.failed_obligations.map(f => `${f.component}: ${f.id}`).join('; '))
process.exit(bad ? 1 : 0)
