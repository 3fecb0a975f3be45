// S07: add() of a store with an adder
export const variants = ['push', 'unshift', 'opaque']
export function construct(sym, { createStore, withAdder, push, unshift }, variant) {
	const store = createStore(sym.list('init'), { logger: sym.logger() })
	return withAdder(store, variant === 'push' ? push : variant === 'unshift' ? unshift : sym.fn('entry', 'adder'))
}
export const ops = {
	add: (sym, s) => [s.add(sym.val('x')), s.get()],
	addMany: (sym, s) => [s.add(...sym.args('xs')), s.get()],
	addNothing: (sym, s) => [s.add(), s.get()],
	get: (sym, s) => s.get(),
	set: (sym, s) => s.set(sym.list('ys')),
	onChange: [(sym, s, m) => { m.off = s.onChange(sym.fn('h')) }, 'others', (sym, s, m) => m.off()]
}
const keep = (sym, s) => { s.onChange(sym.fn('k', 'handler')) }
export const nativeOps = { keep }
export const reenter = { read: (sym, s) => { sym.read('entries', s.get()) } }
export const lemmas = {
	/** S07: the entries go to the end, in the order in which they were given, and that is one change */
	'push:appended': (sym, s) => {
		sym.quiet()
		const a = sym.data('a'), b = sym.data('b')
		const before = s.get()
		let changes = 0
		s.onChange(() => { changes++ })
		s.add(a, b)
		const after = s.get(), n = before.length
		sym.assert(after.length === n + 2, 'two entries more')
		sym.assert(sym.same(after[n], a) && sym.same(after[n + 1], b), 'in the order given')
		sym.assert(changes === 1, 'one change')
		sym.assert(before.length === n, 'the old list is as it was')
	},
	'unshift:prepended': (sym, s) => {
		sym.quiet()
		const a = sym.data('a')
		const before = s.get()
		s.add(a)
		const after = s.get()
		sym.assert(after.length === before.length + 1, 'one entry more')
		sym.assert(sym.same(after[0], a), 'at the front')
	}
}
