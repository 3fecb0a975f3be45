// R01, R02, R03: routes
export async function construct(sym, { routesGizmo }) {
	return (await routesGizmo.create({ log: sym.log('app') })).routes
}
export const ops = {
	navigate: (sym, s) => s.navigate(sym.str('route')),
	start: (sym, s) => s.navigate(),
	register: [
		(sym, s, m) => { m.off = s.register(sym.str('route'), sym.fn('handler', 'handler')) },
		'others',
		(sym, s, m) => m.off(),
		'others',
		(sym, s, m) => m.off()
	],
	hasRoute: (sym, s) => s.hasRoute(sym.str('route')),
	clearRoutes: (sym, s) => s.clearRoutes(),
	config: (sym, s) => s.config({ initialRoute: sym.str('initial') }),
	configNothing: (sym, s) => s.config({})
}
const keep = (sym, s) => { (s.offs ??= []).push(s.register(sym.str('kept'), sym.fn('handler', 'handler'))) }
const drop = (sym, s) => { if (s.offs?.length) s.offs[Math.abs(sym.int('which')) % s.offs.length]() }
const stale = (sym, s) => {
	const route = sym.str('stale')
	const first = sym.fn('first', 'handler')
	const off = s.register(route, first)
	if (sym.bool('clear')) s.clearRoutes()
	else off()
	s.register(route, sym.bool('same') ? first : sym.fn('second', 'handler'))
	off()
	sym.read('route', s.hasRoute(route))
	s.navigate(route)
}
export const nativeOps = { keep, drop, stale }
export const reenter = { keep, drop, clearRoutes: (sym, s) => { s.clearRoutes() } }
export const lemmas = {
	/** R01, R02: the handler that was registered first runs, once, until it is unregistered */
	first: (sym, s) => {
		sym.quiet()
		const route = sym.str('route')
		sym.assume(!s.hasRoute(route))
		let runs = 0
		const off = s.register(route, () => { runs++ })
		const again = s.register(route, () => sym.assert(false, 'a second handler does not run'))
		sym.assert(s.hasRoute(route), 'the route is there')
		again()
		sym.assert(s.hasRoute(route), 'the second registration cannot remove the first')
		s.navigate(route)
		sym.assert(runs === 1, 'the first handler runs once')
		off()
		sym.assert(!s.hasRoute(route), 'the route is gone')
		s.navigate(route)
		sym.assert(runs === 1, 'it does not run any more')
	},
	/** R02: registering a route leaves all others alone */
	others: (sym, s) => {
		const route = sym.str('route'), other = sym.str('other')
		sym.assume(route !== other)
		const before = s.hasRoute(other)
		const off = s.register(route, sym.fn('handler'))
		sym.assert(s.hasRoute(other) === before, 'no other route appears or disappears')
		off()
		sym.assert(s.hasRoute(other) === before, 'nor when it is unregistered')
	},
	/** R02: a registration that was cleared removes nothing later, not even the same handler */
	stale: (sym, s) => {
		const route = sym.str('route'), handler = sym.fn('handler')
		sym.assume(!s.hasRoute(route))
		const off = s.register(route, handler)
		s.clearRoutes()
		sym.assert(!s.hasRoute(route), 'all routes are gone')
		s.register(route, handler)
		off()
		sym.assert(s.hasRoute(route), 'the later registration stays')
	},
	/** R03: without a route, the configured route is the target */
	initial: (sym, s) => {
		sym.quiet()
		const route = sym.str('route')
		s.clearRoutes()
		let runs = 0
		s.register(route, () => { runs++ })
		s.config({ initialRoute: route })
		s.navigate()
		sym.assert(runs === 1, 'the initial route is navigated to')
	}
}
