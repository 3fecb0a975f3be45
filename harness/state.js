export const variants = ['data', 'function']
export function construct(sym, { createState }, variant) {
	const init = variant === 'data' ? sym.data('init') : sym.fn('init')
	const [value, set, onChange, reset] = createState(init, sym.optional('meta', { logger: sym.logger() }))
	return { value, set, onChange, reset }
}
export const ops = {
	set: (sym, s) => s.set(sym.val('x')),
	update: [(sym, s, m) => (m.p = s.set(sym.fn('u', 'updater'))), 'others', 'settle'],
	reset: (sym, s) => s.reset(),
	onChange: [
		(sym, s, m) => { m.off = s.onChange(sym.fn('h')) },
		'others',
		(sym, s, m) => m.off(),
		'others',
		(sym, s, m) => m.off()
	]
}

/** subscriptions that stay, for the concrete histories */
const keep = (sym, s) => { (s.offs ??= []).push(s.onChange(sym.fn('k', 'handler'))) }
const drop = (sym, s) => { if (s.offs?.length) s.offs[Math.abs(sym.int('which')) % s.offs.length]() }
export const nativeOps = { keep, drop }
export const reenter = { keep, drop }
/** an updater may also write the state itself */
export const reenterUpdater = { set: ops.set }

export const lemmas = {
	/** S02: a direct write of another value tells every subscriber once: the new value and the one it replaces */
	told: (sym, s, m) => {
		sym.quiet()
		const seen = []
		const x = sym.data('x'), y = sym.data('y')
		s.set(x)
		s.onChange((v, p) => { seen.push([v, p]) })
		const r = s.set(y)
		sym.assert(sym.same(r, y), 'the value is returned')
		if (sym.same(x, y)) sym.assert(seen.length === 0, 'an identical value tells nobody')
		else {
			sym.assert(seen.length === 1, 'told once')
			sym.assert(sym.same(seen[0][0], y), 'told the new value')
		}
	},
	/** S02: the value that is replaced is the one that the updater wrote itself before it finished */
	'data:nested': (sym, s) => {
		sym.quiet()
		const seen = []
		const x = sym.data('x'), y = sym.data('y')
		s.set(null)
		s.onChange((v, p) => { seen.push([v, p]) })
		s.set(() => { s.set(x); return y })
		if (sym.same(x, null)) return
		sym.assert(seen.length === 2, 'told twice')
		sym.assert(sym.same(seen[0][0], x) && sym.same(seen[0][1], null), 'told of the nested write')
		sym.assert(sym.same(seen[1][1], x), 'told the value it replaces')
	},
}
