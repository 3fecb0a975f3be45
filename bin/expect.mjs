// node bin/expect.mjs [COMPONENT...] : records which operations are proved on the current tree (development only; committed in expected.json)
import { readFileSync, writeFileSync, existsSync } from 'node:fs'
import { spawnSync } from 'node:child_process'
import { join, resolve } from 'node:path'
import { components } from '../components.mjs'
const HERE = resolve(import.meta.dirname, '..'), file = join(HERE, 'expected.json')
const all = existsSync(file) ? JSON.parse(readFileSync(file, 'utf8')) : {}
const ids = process.argv.slice(2).length ? process.argv.slice(2) : components.map(c => c.id)
for (const id of ids) {
	const out = `/tmp/expect-${id}.json`
	spawnSync(process.execPath, ['--max-old-space-size=6000', '--stack-size=4000', join(HERE, 'bin/prove.mjs'), id, out, '300000'], { stdio: 'ignore', timeout: 400000 })
	if (!existsSync(out)) { all[id] = []; console.log(id, 'no result'); continue }
	const r = JSON.parse(readFileSync(out, 'utf8'))
	const op = x => x.op ?? x.id.replace(/^[^/]*\//, '').split('/')[0].replace(/^lemma /, '')
	const broken = r.results.some(x => ['component', 'engine'].includes(x.id))
	const bad = new Set(r.results.filter(x => !x.ok).map(op)), ok = new Set(r.results.filter(x => x.ok).map(op))
	all[id] = broken ? [] : [...ok].filter(o => !bad.has(o)).sort()
	console.log(id, `${r.results.filter(x => x.ok).length}/${r.results.length}`, `${r.ms} ms`, 'proved:', all[id].join(' '), bad.size ? `NOT: ${[...bad].join(' ')}` : '')
}
writeFileSync(file, JSON.stringify(all, null, 1) + '\n')
