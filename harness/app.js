// A01: an app has its name, an id of its own and every gizmo's values
export const variants = ['app', 'test']
const options = (sym, name, logged = []) => ({ name, log: { logLevel: 1000, reporters: [{ id: 'reporter', isConsoleReporter: false, level: undefined, formatter: x => x, filter: undefined, write: e => { logged.push(e) } }] } })
const KINDS = ['none', 'gives', 'starts and gives', 'starts']
const gizmo = (sym, n, kind) => ({
	create: async app => {
		sym.event(`create ${n}`, app.name, Object.keys(app).filter(k => k !== 'load').length)
		const value = { [n]: sym.obj(n) }
		return kind === 'gives' ? value : [kind === 'starts' ? undefined : value, () => { sym.event(`start ${n}`) }]
	}
})
export const construct = (sym, { justApp, justTestApp }, variant) => ({ make: variant === 'test' ? justTestApp : justApp, variant })
const look = (sym, app) => { sym.read('name', app.name); sym.read('id', /^[0-9a-z]{15}$/.test(app.id)); for (const k of Object.keys(app).sort()) if (k !== 'log' && k !== 'id') sym.read(k, app[k]) }
const create = names => async (sym, s) => {
	const name = sym.str('name')
	sym.assume(/^[\w:-]+$/.test(name))
	const logged = []
	const { name: _, ...unnamed } = options(sym, name, logged)
	let a = s.make(s.variant === 'test' && sym.bool('unnamed') ? unnamed : options(sym, name, logged))
	for (const n of names) {
		const kind = sym.pick(n, KINDS)
		if (kind !== 'none') a = a.with(gizmo(sym, n, kind))
	}
	const app = await (sym.bool('start') ? a.create(async app => { sym.event('started', app.name) }) : a.create())
	look(sym, app)
	app.log.info('made')
	// the creation is logged once, with the id
	for (const e of logged) sym.event('logged', e.id, e.level, e.args.length, String(e.args[0]).includes(app.id))
	if (s.variant === 'test') for (const e of app.log.reporter.logs) sym.event('kept', e.id, e.level, e.args.length, String(e.args[0]).includes(app.id))
}
export const ops = {
	create: [create(['one', 'two']), 'settle'],
	/** the creation is logged once, also when a gizmo provides a log of its own or takes the log away */
	replaced: [async (sym, s) => {
		const logged = []
		const log = sym.bool('own') ? { info: (...args) => { sym.event('info', ...args.map(a => typeof a)) } } : undefined
		const app = await s.make(options(sym, 'a', logged)).with({ create: async () => ({ log }) }).create()
		for (const e of logged) sym.event('logged', e.id, e.level, e.args.length, String(e.args[0]).includes(app.id))
	}, 'settle'],
	/** apps have ids of their own, also when they are created by the same incubator */
	own: [async (sym, s) => {
		sym.generic()
		const incubator = s.make(options(sym, 'a'))
		const a = await incubator.create(), b = await incubator.create(), c = await s.make(options(sym, 'a')).create()
		sym.generic(false)
		sym.read('differ', a.id !== b.id && a.id !== c.id && b.id !== c.id)
	}, 'settle']
}
export const nativeOps = { more: [create(['one', 'two', 'three', 'four']), 'settle'] }
export const lemmas = {
	/** A01: the id is text of 15 lower-case letters and digits, and it is logged */
	id: async (sym, s) => {
		const logged = []
		const app = await s.make(options(sym, 'b', logged)).create()
		sym.assert(logged.length === 1 && logged[0].id === 'b' && String(logged[0].args[0]).includes(app.id), 'the creation is logged once with the id')
		sym.assert(/^[0-9a-z]{15}$/.test(app.id) && app.name === 'b', 'the id has 15 lower-case letters and digits')
	},
	/** A01: apps have ids of their own, also when they are created by the same incubator */
	own: async (sym, s) => {
		sym.generic()
		const incubator = s.make(options(sym, 'a'))
		const a = await incubator.create(), b = await incubator.create(), c = await s.make(options(sym, 'a')).create()
		sym.assert(a.id !== b.id && a.id !== c.id && b.id !== c.id, 'each app has an id of its own')
	}
}
export const page = (fn, side) => {
	const RANDOM = [0, 0.5, 0.25, 0.75, 1 / 36, 0.1, 2 ** -53, 1 - 2 ** -53, 2 ** -30, 0.999, 35 / 36, 1e-7]
	let n = 0
	const math = Object.assign(Object.create(Math), { random: () => { const r = side.rand('random', n++); return r.chance(0.6) && !math.generic ? RANDOM[r.int(RANDOM.length)] : r.next() } })
	return { Math: math }
}
