// P03, P04, P05: preferences kept in the local storage of the page, by two apps
import { createStorage } from '../env/storage.js'
export async function construct(sym, { browserPreferencesGizmo, commandsGizmoFn }) {
	const localStorage = createStorage(sym.dict('stored', 'str'))
	const browser = { localStorage }
	const app = async name => {
		const ctx = { name, log: sym.log(name), browser }
		ctx.commands = (await commandsGizmoFn().create(ctx)).commands
		return (await browserPreferencesGizmo.create(ctx)).preferences
	}
	const name = sym.str('name'), other = sym.str('other')
	// P03 P04: names of apps have no colon; see known-findings.json for what happens to those that have
	sym.assume(name !== other && !name.includes(':') && !other.includes(':'))
	return { a: await app(name), b: await app(other), app, name, other, localStorage }
}
const optional = (sym, name) => (sym.bool(name + '?') ? sym.str(name) : undefined)
const of = (sym, s) => (sym.bool('which') ? s.a : s.b)
export const ops = {
	get: (sym, s) => of(sym, s).get(sym.str('key'), optional(sym, 'default')),
	set: [(sym, s, m) => { m.key = sym.str('key'); m.p = of(sym, s); return m.p.set(m.key, optional(sym, 'value')) }, (sym, s, m) => m.p.get(m.key)],
	setNothing: (sym, s, m, { nothing }) => { of(sym, s).set(sym.str('key'), nothing) },
	update: [(sym, s, m) => { m.key = sym.str('key'); m.p = of(sym, s); return m.p.set(m.key, sym.fn('u', 'text')) }, (sym, s, m) => m.p.get(m.key), 'others', 'settle', (sym, s, m) => m.p.get(m.key)],
	clearAll: (sym, s) => { of(sym, s).clearAll() },
	stored: (sym, { localStorage }) => localStorage.getItem(sym.str('key')),
	typed: (sym, s) => { const store = of(sym, s).createStore(sym.str('key'), sym.bool('default?') ? sym.json('default') : undefined); store.set(sym.bool('value?') ? sym.json('value') : undefined); return store.get() }
}
const read = (sym, s) => { sym.read('preference', s.a.get(sym.str('rkey'))) }
const all = (sym, { localStorage }) => { for (let i = 0; i < localStorage.length; i++) { const k = localStorage.key(i); sym.read(k, localStorage.getItem(k)) } }
export const nativeOps = { all }
export const reenter = { read }
export const lemmas = {
	/** P03: a preference is read unchanged by a later app of the same name, and gone once removed */
	reload: async (sym, s) => {
		const key = sym.str('key'), value = sym.str('value')
		s.a.set(key, value)
		const again = await s.app(s.name)
		sym.assert(again.get(key) === value, 'the value is read after a reload')
		again.set(key, undefined)
		sym.assert((await s.app(s.name)).get(key) === undefined, 'a removed value stays removed')
	},
	/** P03: nothing else in the local storage is modified */
	own: (sym, s) => {
		const k = sym.str('entry'), key = sym.str('key')
		sym.assume(k !== `${s.name}:${key}`)
		const before = s.localStorage.getItem(k)
		s.a.set(key, optional(sym, 'value'))
		sym.assert(s.localStorage.getItem(k) === before, 'other entries stay')
	},
	/** P03 P04: each pair of app and key has an entry of its own */
	apart: (sym, s) => {
		const key = sym.str('key'), other = sym.str('okey')
		s.b.set(other, sym.str('kept'))
		s.a.set(key, optional(sym, 'value'))
		sym.assert(s.b.get(other) === sym.str('kept'), 'the preference of the other app stays when one is set or removed')
	},
	/** P03 P04: clearAll concerns one app */
	apartCleared: (sym, s) => {
		const other = sym.str('okey')
		s.b.set(other, sym.str('kept'))
		s.a.clearAll()
		sym.assert(s.b.get(other) === sym.str('kept'), 'the preference of the other app stays when all are cleared')
	},
	/** P03: nothing is left after clearAll */
	cleared: (sym, s) => {
		s.a.clearAll()
		sym.assert(s.a.get(sym.str('key')) === undefined, 'nothing is left')
	}
}
