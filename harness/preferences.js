// P01, P02, P05: preferences kept in memory
export const variants = ['commands', 'keyboard']
export async function construct(sym, { memoryPreferencesGizmo, commandsGizmoFn, keyboardGizmoFn }, variant) {
	const ctx = { log: sym.log('app') }
	ctx.commands = (await commandsGizmoFn().create(ctx)).commands
	if (variant === 'keyboard') ctx.keyboard = (await keyboardGizmoFn().create(ctx)).keyboard
	return (await memoryPreferencesGizmo.create(ctx)).preferences
}
const optional = (sym, name) => (sym.bool(name + '?') ? sym.str(name) : undefined)
export const ops = {
	get: (sym, s) => s.get(sym.str('key'), optional(sym, 'default')),
	set: (sym, s) => { const key = sym.str('key'); return [s.set(key, optional(sym, 'value')), s.get(key)] },
	setNothing: (sym, s, m, { nothing }) => { const key = sym.str('key'); return [s.set(key, nothing), s.get(key)] },
	update: [(sym, s, m) => s.set(m.key = sym.str('key'), sym.fn('u', 'text')), (sym, s, m) => s.get(m.key), 'others', 'settle', (sym, s, m) => s.get(m.key)],
	clearAll: (sym, s) => { s.clearAll() },
	typed: (sym, s) => { const store = s.createStore(sym.str('key'), sym.bool('default?') ? sym.json('default') : undefined); return [store.get(), store.set(sym.bool('value?') ? sym.json('value') : undefined), store.get()] },
	typedUpdate: [(sym, s, m) => { m.d = sym.bool('default?') ? sym.json('default') : undefined; m.store = s.createStore(sym.str('key'), m.d); return m.store.set(sym.fn('u', 'json')) }, (sym, s, m) => m.store.get(), 'others', 'settle', (sym, s, m) => [m.store.get(), m.d]]
}
const read = (sym, s) => { sym.read('preference', s.get(sym.str('rkey'))) }
const all = (sym, s) => { for (const key of ['a', 'b', 'c', '0', '1', 'constructor', '__proto__', 'toString', '']) sym.read(key, s.get(key)) }
export const nativeOps = { all }
export const reenter = { read, write: (sym, s) => { s.set(sym.str('rkey'), sym.str('rvalue')) } }
export const lemmas = {
	/** P01: a preference that was set is read, whatever the default */
	set: (sym, s) => {
		const key = sym.str('key'), value = sym.str('value')
		s.set(key, value)
		sym.assert(s.get(key) === value && s.get(key, sym.str('default')) === value, 'the value that was set is read')
		let seen
		s.set(key, v => { seen = v; return sym.str('next') })
		sym.assert(seen === value && s.get(key) === sym.str('next'), 'an updater gets the value and its result is set')
	},
	/** P01: a preference that was removed is read as its default */
	removed: (sym, s, m, { nothing }) => {
		const key = sym.str('key')
		s.set(key, sym.str('value'))
		s.set(key, sym.bool('how') ? nothing : undefined)
		sym.assert(s.get(key) === undefined && s.get(key, sym.str('default')) === sym.str('default'), 'a removed preference reads as its default')
	},
	/** P01: other keys are not affected */
	others: (sym, s) => {
		const key = sym.str('key'), other = sym.str('other')
		sym.assume(key !== other)
		const before = s.get(other)
		s.set(key, optional(sym, 'value'))
		sym.assert(sym.same(s.get(other), before), 'another preference stays')
	},
	/** P01: nothing is left after clearAll */
	cleared: (sym, s) => {
		s.set(sym.str('key'), sym.str('value'))
		s.clearAll()
		sym.assert(s.get(sym.str('key')) === undefined && s.get(sym.str('other')) === undefined, 'nothing is left')
	},
	/** P02: JSON values are read again as they were set */
	roundTrip: (sym, s) => {
		const value = sym.json('value')
		const store = s.createStore(sym.str('key'), sym.bool('default?') ? sym.json('default') : undefined)
		store.set(value)
		sym.assert(JSON.stringify(store.get()) === JSON.stringify(value), 'an equal value is read')
		store.set(undefined)
		sym.assert(s.get(sym.str('key')) === undefined, 'undefined removes it')
	}
}
