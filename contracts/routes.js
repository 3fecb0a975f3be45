// Contract of plugins/routes
/** at most one handler for each route, and the route to start with */
export const routesGizmo = {
	async create({ log }) {
		const logger = log.getLogger('@just-web/routes')
		let routes = Object.create(null)
		let initialRoute = '/'
		// a registration ends when it is removed or when all are cleared
		let cleared = 0
		return {
			routes: {
				navigate(route) {
					const target = route ?? initialRoute
					if (routes[target]) routes[target]()
					else logger.error(target)
				},
				register(route, handler) {
					if (routes[route]) {
						logger.error(route)
						return () => { }
					}
					routes[route] = handler
					let mine = true
					const then = cleared
					return () => {
						if (mine && cleared === then) delete routes[route]
						mine = false
					}
				},
				hasRoute: route => !!routes[route],
				clearRoutes() {
					cleared++
					routes = Object.create(null)
				},
				config(options) { if (options.initialRoute !== undefined) initialRoute = options.initialRoute }
			}
		}
	}
}
