// Shows on the real code what happens to browser preferences of apps whose names contain a colon.
import { loadComponent } from '../engine/concrete.mjs'
import { byId } from '../components.mjs'
async function apps(names) {
	const L = await loadComponent(byId('browserPreferences'))
	const { browserPreferencesGizmo, commandsGizmoFn } = L.real.make({ console, addEventListener() { }, removeEventListener() { } })
	const values = Object.create(null)
	const localStorage = { getItem: k => values[k] ?? null, setItem: (k, v) => { values[k] = v }, removeItem: k => { delete values[k] }, key: i => Object.keys(values)[i] ?? null, get length() { return Object.keys(values).length } }
	const log = new Proxy({}, { get: (_, p) => (p === 'getLogger' ? () => log : () => { }) })
	const out = []
	for (const name of names) {
		const ctx = { name, log, browser: { localStorage } }
		ctx.commands = (await commandsGizmoFn().create(ctx)).commands
		out.push((await browserPreferencesGizmo.create(ctx)).preferences)
	}
	return out
}
/** clearing the preferences of app `a` also clears those of app `a:b` */
export async function cleared() {
	const [a, ab] = await apps(['a', 'a:b'])
	await ab.set('c', 'kept')
	a.clearAll()
	return ab.get('c') !== 'kept'
}
/** preference `b:c` of app `a` and preference `c` of app `a:b` are one entry */
export async function shared() {
	const [a, ab] = await apps(['a', 'a:b'])
	await ab.set('c', 'kept')
	await a.set('b:c', 'other')
	return ab.get('c') !== 'kept'
}
