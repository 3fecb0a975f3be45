// Contracts of plugins/browser, plugins/fetch, plugins/history, plugins/events and plugins/formatjs
import { ModuleError } from 'iso-error'
import { createBrowserHistory } from 'history'
import { createIntl } from '@formatjs/intl'
import { EventEmitter } from 'eventemitter3'
import { trapError } from '@unional/events-plus'
import { createStore } from './states.js'

/** an error event of the page */
class BrowserError extends ModuleError {
	constructor(event, source, lineno, colno, error) {
		super('@just-web/browser', event.toString(), { cause: error })
		Object.assign(this, { source, lineno, colno })
	}
}
/** what the page offers, and every error event since the gizmo was created, in order */
export const browserGizmoFn = options => ({
	async create({ log, fetch: appFetch }) {
		const logger = log.getLogger('@just-web/browser')
		const errors = createStore([])
		const prevent = options?.preventDefault ?? false
		const listener = event => {
			if (prevent) event.preventDefault()
			const error = new BrowserError(event.message, event.filename, event.lineno, event.colno, event.error)
			errors.set(list => { list.push(error) })
			logger.error(error)
			return prevent
		}
		addEventListener('error', listener)
		return [
			{
				browser: { errors: { get: errors.get, onChange: errors.onChange }, sessionStorage, localStorage, navigator, location },
				fetch: options?.fetch ?? appFetch ?? globalThis.fetch.bind(globalThis)
			},
			() => () => removeEventListener('error', listener)
		]
	}
})
export const browserTestGizmoFn = options => ({
	async create(ctx) {
		const [{ browser, fetch }] = await browserGizmoFn(options).create(ctx)
		return {
			browser: {
				...browser,
				sessionStorage: options?.sessionStorage ?? browser.sessionStorage,
				localStorage: options?.localStorage ?? browser.localStorage,
				navigator: options?.navigator ?? browser.navigator,
				location: options?.location ?? browser.location
			},
			fetch
		}
	}
})
/** a Storage: keys in the order in which they were added; indexes are unsigned longs */
export function stubStorage() {
	const entries = new Map()
	return {
		clear() { entries.clear() },
		getItem: key => entries.get(key) ?? null,
		get length() { return entries.size },
		key: index => [...entries.keys()][index >>> 0] ?? null,
		removeItem(key) { entries.delete(key) },
		setItem(key, value) { entries.set(key, value) }
	}
}
export const fetchGizmo = { create: () => ({ fetch: globalThis.fetch.bind(globalThis) }) }
export const fetchTestGizmoFn = options => ({ create: () => ({ fetch: options?.fetch ?? fetch }) })
export const historyGizmoFn = options => ({ async create() { return { history: options?.history ?? createBrowserHistory() } } })
export const eventsGizmoFn = options => ({ async create({ log }) { return { events: { emitter: trapError(options?.emitter ?? new EventEmitter(), log) } } } })
export const formatJSGizmoFn = ({ config, cache }) => ({ async create() { return { formatjs: { intl: createIntl(config, cache) } } } })
