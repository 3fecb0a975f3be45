// S09: states made by an app
export const variants = ['state', 'state of functions', 'two states', 'store', 'store of functions', 'two stores', 'registry', 'empty registry', 'two registries', 'logger']
const make = (sym, states, variant, n, meta) => {
	const init = variant.endsWith('functions') ? sym.fn(`init${n}`) : sym.data(`init${n}`)
	if (variant.includes('state')) {
		const [value, set, onChange, reset] = states.createState(init, meta)
		return { value, set, onChange, reset }
	}
	return variant.includes('store') ? states.createStore(init, meta) : states.createRegistry(variant.startsWith('empty') ? undefined : sym.record(`init${n}`), meta)
}
/** a logger that only tells that it was used */
const spy = (seen, name) => Object.fromEntries(['error', 'warn', 'notice', 'info', 'debug', 'trace', 'planck', 'on'].map(level => [level, () => { seen[name] = true }]))
export async function construct(sym, { statesGizmo }, variant) {
	if (variant === 'logger') {
		const seen = { own: false, app: false }
		return { seen, ...(await statesGizmo.create({ log: { getLogger: () => spy(seen, 'app') } })) }
	}
	const { states } = await statesGizmo.create({ log: sym.log('app') })
	if (!variant.startsWith('two')) return make(sym, states, variant, 1, sym.optional('meta', { logger: sym.logger('own') }))
	const one = make(sym, states, variant, 1)
	return { ...one, other: make(sym, states, variant, 2, { logger: sym.logger('own') }) }
}
const read = s => (s.get ? s.get() : s.value)
export const ops = {
	set: (sym, s) => s.set(s.has ? sym.record('x') : sym.data('x')),
	update: (sym, s) => { if (!s.other) s.set(sym.fn('f', 'updater')) },
	reset: (sym, s) => s.reset(),
	get: (sym, s) => [read(s), s.other && read(s.other)],
	setOther: (sym, s) => s.other?.set(s.has ? sym.record('x') : sym.data('x')),
	onChange: [(sym, s, m) => { m.off = s.onChange(sym.fn('h')) }, 'others', (sym, s, m) => m.off()],
	onChangeOther: [(sym, s, m) => { m.off = s.other?.onChange(sym.fn('h')) }, 'others', (sym, s, m) => m.off?.()],
	put: (sym, s) => { const k = sym.key('k'), v = sym.data('v'); sym.assume(k !== '__proto__'); if (s.has && !s.other) s.set(d => { d[k] = v }) },
	keys: (sym, s) => s.keys?.(),
	has: (sym, s) => s.has?.(sym.key('k'))
}
/** S09: the logger that is used is the one given, or else the one of the app */
ops.logged = (sym, { states, seen }) => {
	const given = sym.bool('given'), init = sym.data('init'), x = sym.data('x')
	const kind = sym.pick('kind', ['state', 'store', 'registry'])
	const meta = given ? { logger: spy(seen, 'own') } : undefined
	const after = kind === 'registry' ? {} : x
	const s = make(sym, { createState: states.createState, createStore: states.createStore, createRegistry: (_, meta) => states.createRegistry({}, meta) }, kind === 'registry' ? 'empty registry' : kind, 3, meta)
	seen.own = seen.app = false
	s.set(after)
	const changed = kind === 'registry' || !sym.same(init, after)
	sym.read('by the other', given ? seen.app : seen.own)
	sym.read('by the right one', changed ? (given ? seen.own : seen.app) : true)
}
const of = (...names) => ['construct', 'set', 'reset', 'get', 'onChange', ...names]
export const only = {
	state: of('update'), 'state of functions': of('update'), 'two states': of('setOther', 'onChangeOther'),
	store: of('update'), 'store of functions': of('update'), 'two stores': of('setOther', 'onChangeOther'),
	registry: of('put', 'keys', 'has'), 'empty registry': of('put', 'keys', 'has'), 'two registries': of('setOther', 'onChangeOther'),
	logger: ['construct', 'logged']
}
