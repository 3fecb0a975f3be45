// C01, C03: handlers and contributions
export const variants = ['empty', 'given']
export async function construct(sym, { commandsGizmoFn }, variant) {
	const options = variant === 'given' ? { handlers: sym.record('handlers', 'fn'), contributions: sym.list('contributions', 'contribution') } : undefined
	const { commands } = await commandsGizmoFn(options).create({ log: sym.log('app') })
	return commands
}
export const ops = {
	register: (sym, { handlers }) => { const id = sym.str('id'); sym.assume(id !== '__proto__'); return handlers.register(id, sym.fn('handler')) },
	invoke: (sym, { handlers }) => handlers.invoke(sym.str('id'), ...sym.args('args')),
	/** P04: the command palette is the one of this app */
	palette: (sym, { showCommandPalette }) => showCommandPalette(),
	has: (sym, { handlers }) => handlers.has(sym.str('id')),
	keys: (sym, { handlers }) => handlers.keys(),
	add: (sym, { contributions }) => contributions.add(sym.obj('c', 'contribution')),
	addMany: (sym, { contributions }) => contributions.add(...sym.list('cs', 'contribution')),
	contribution: (sym, { contributions }) => { const id = sym.str('id'); return contributions.has(id) ? contributions.get()[id] : undefined },
	ids: (sym, { contributions }) => [contributions.keys(), contributions.size()],
	contributions: (sym, { contributions }) => contributions.values(),
	changed: [
		(sym, { contributions }, m) => { m.off = contributions.onChange(sym.fn('h', 'handler')) },
		'others',
		(sym, s, m) => m.off()
	]
}
const keep = (sym, { contributions }) => { contributions.onChange(sym.fn('k', 'handler')) }
const add = (sym, { contributions }) => { contributions.add(sym.obj('n', 'contribution')) }
export const nativeOps = { keep, registerPalette: (sym, { handlers }) => { handlers.register('just-web.showCommandPalette', sym.fn('palette', 'handler')) } }
export const reenter = { keep, invoke: (sym, { handlers }) => { handlers.invoke(sym.str('rid')) } }
export const lemmas = {
	/** C01: the handler registered last runs with the given arguments, and its result is returned */
	invoked: (sym, { handlers }) => {
		sym.quiet()
		const id = sym.str('id'), args = sym.args('args'), result = sym.val('result')
		sym.assume(id !== '__proto__')
		const seen = []
		handlers.register(id, () => sym.assert(false, 'a replaced handler does not run'))
		handlers.register(id, (...given) => { seen.push(given); return result })
		sym.assert(sym.same(handlers.invoke(id, ...args), result), 'the result is returned')
		sym.assert(seen.length === 1, 'the handler runs once')
		sym.assert(seen[0].length === args.length, 'with all arguments')
		sym.assert(handlers.has(id), 'the id is known')
	},
	/** P04: the command palette of an app is the one that was registered in it */
	palette: (sym, { handlers, showCommandPalette }) => {
		sym.quiet()
		let runs = 0
		handlers.register('just-web.showCommandPalette', () => { runs++ })
		showCommandPalette()
		sym.assert(runs === 1, 'it runs once')
	},
	/** C01: nothing is registered under a name before it is registered */
	unknown: (sym, s, m, { commandsGizmoFn }) => {
		const id = sym.str('id')
		sym.assert(!s.handlers.has(id) || s.handlers.keys().length > 0, 'an id that is known is among the keys')
	}
}
