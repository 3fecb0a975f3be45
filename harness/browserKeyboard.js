// K03: keys that are bound in the browser
export const variants = ['only', 'second']
export async function construct(sym, { browserKeyboardGizmo, createRegistry }, variant) {
	if (variant === 'second') {
		// another app was started in this page before
		const c = sym.obj('earlier', 'contribution')
		const [, start] = await browserKeyboardGizmo.create({ log: sym.log('other'), keyboard: { keyBindingContributions: createRegistry({ [c.id]: c }) }, commands: { handlers: { invoke: sym.fn('other invoke', 'handler') } }, os: { isMac: () => false } })
		start()
	}
	const contributions = createRegistry(sym.dict('given', 'contribution'))
	const mac = sym.bool('mac')
	const ctx = { log: sym.log('app'), keyboard: { keyBindingContributions: contributions }, commands: { handlers: { invoke: sym.fn('invoke', 'handler') } }, os: { isMac: () => mac } }
	const [value, start] = await browserKeyboardGizmo.create(ctx)
	start()
	return { value, contributions }
}
export const objects = { event: o => (o.chance(0.7) ? { preventDefault: o.fn('preventDefault', 'handler') } : {}) }
export const types = { contribution: { id: 'string', 'key?': 'string', 'mac?': 'string' }, event: { 'preventDefault?': 'function' } }
/** what the environment calls the functions with that it is given */
export const handed = { 'mousetrap.bind': sym => [sym.obj('event', 'event')] }
export const ops = {
	put: (sym, { contributions }) => { const c = sym.obj('c', 'contribution'); contributions.set(record => { record[c.id] = c }) },
	remove: (sym, { contributions }) => { const id = sym.str('id'); contributions.set(record => { delete record[id] }) },
	replace: (sym, { contributions }) => { contributions.set(sym.dict('given again', 'contribution')) }
}
const press = (sym, s) => {
	const bound = [...sym.page.bound]
	if (!bound.length) return
	const [key, handler] = bound[Math.abs(sym.int('key')) % bound.length]
	sym.event('press', key)
	sym.read('result', handler(sym.obj('event', 'event')))
}
export const nativeOps = { press }
export const only = { second: ['construct', 'put'] }
