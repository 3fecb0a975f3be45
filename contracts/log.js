// Contracts of frameworks/id, frameworks/log and frameworks/app
import { createStandardLog } from 'standard-log'
import { createStandardLogForTest } from 'standard-log/testing'

const LEVELS = ['emergency', 'alert', 'critical', 'error', 'warn', 'notice', 'info', 'debug', 'trace', 'planck']
/** the log of an app: what it logs itself goes under its name, what its loggers log goes under name:id */
const logOf = (name, standardLog, options) => {
	const logger = standardLog.getLogger(name)
	const log = {
		...standardLog,
		getLogger: (id, options) => standardLog.getLogger(id ? `${name}:${id}` : name, options),
		getNonConsoleLogger: (id, options) => standardLog.getNonConsoleLogger(`${name}:${id}`, options)
	}
	for (const m of [...LEVELS, ...Object.keys(options?.customLevels ?? {}), 'on', 'count']) log[m] = (...args) => logger[m](...args)
	return log
}
export const logGizmoFn = options => ({ async create({ name }) { return { log: logOf(name, createStandardLog(options), options) } } })
export const logTestGizmoFn = options => ({
	async create({ name }) {
		const standardLog = createStandardLogForTest(options)
		return { log: { ...logOf(name, standardLog, options), reporter: standardLog.reporter } }
	}
})
const prefixed = (prefix, id) => (id ? `${prefix}:${id}` : prefix)
export const createPrefixedGetLogger = ({ log }, prefix) => (id, options) => log.getLogger(prefixed(prefix, id), options)
export const createPrefixedGetNonConsoleLogger = ({ log }, prefix) => (id, options) => log.getNonConsoleLogger(prefixed(prefix, id), options)

const newId = () => (Math.random().toString(36).slice(2) + Math.random().toString(36).slice(2)).slice(0, 15).padEnd(15, "0")
export const idGizmoFn = options => ({ async create() { return { ...options, id: newId() } } })
/** an app is what its gizmos provide, created in order; their start functions run once, when they are created */
const appOf = (gizmos, options) => ({
	with: gizmo => appOf([...gizmos, gizmo], options),
	async create(start) {
		const app = {}
		for (const gizmo of gizmos) {
			const result = await gizmo.create(app)
			if (Array.isArray(result)) {
				const [value, start] = result
				if (start) await start()
				Object.assign(app, value)
			} else Object.assign(app, result)
		}
		if (start) await start(app)
		// a log of its own when a gizmo took the one of the app away
		const log = typeof app.log?.info === 'function' ? app.log : logOf(options.name, createStandardLog(options.log), options.log)
		log.info(`created (id: ${app.id})`)
		return app
	}
})
export const justApp = options => appOf([idGizmoFn(options), logGizmoFn(options.log)], options)
export const justTestApp = options => { const all = { ...options, name: options?.name ?? 'test' }; return appOf([idGizmoFn(all), logTestGizmoFn(all.log)], all) }
