// Contracts of plugins/preferences and plugins/browser-preferences
import { nothing } from 'immer'
import { decode, encode } from 'js-base64'
import { command } from './commands.js'
import { isPromise } from './states.js'

const getUserPreference = command('just-web.getUserPreference')
const setUserPreference = command('just-web.setUserPreference')
const clearAllUserPreferences = command({ id: 'just-web.clearAllUserPreferences' })
const later = (v, f) => (isPromise(v) ? v.then(f) : f(v))
const gone = v => v === undefined || v === nothing

/** preferences of this app: every operation goes to the handlers of its own commands */
const preferencesOf = ({ handlers }) => {
	const run = command => (...args) => handlers.invoke(command.id, ...args)
	return {
		get: run(getUserPreference),
		set: run(setUserPreference),
		clearAll: run(clearAllUserPreferences),
		/** one preference, kept as JSON */
		createStore(key, defaultValue) {
			const preferences = this
			const write = v => (v === undefined ? undefined : JSON.stringify(v))
			const read = text => (text === undefined ? undefined : JSON.parse(text))
			return {
				get() {
					const text = preferences.get(key)
					return text === undefined ? defaultValue : JSON.parse(text)
				},
				set(x) {
					if (typeof x !== 'function') { preferences.set(key, write(x)); return }
					return preferences.set(key, text => {
						const value = read(text ?? write(defaultValue))
						return later(x(value), r => (r === nothing ? r : write(r === undefined ? value : r)))
					})
				}
			}
		}
	}
}
export const preferencesGizmo = { async create({ commands }) { return { preferences: preferencesOf(commands) } } }
/** preferences that last as long as the page */
export const memoryPreferencesGizmo = {
	async create(ctx) {
		let values = Object.create(null)
		getUserPreference.connect(ctx, (key, defaultValue) => values[key] ?? defaultValue)
		setUserPreference.connect(ctx, (key, x) => later(typeof x === 'function' ? x(values[key]) : x, v => {
			if (gone(v)) delete values[key]
			else values[key] = v
		}))
		clearAllUserPreferences.connect(ctx, () => { values = Object.create(null) })
		return { preferences: preferencesOf(ctx.commands) }
	}
}
/** preferences in local storage: base64, under the name of the app */
export const browserPreferencesGizmo = {
	async create(ctx) {
		const storage = ctx.browser.localStorage
		const at = key => `${ctx.name}:${key}`
		const read = key => { const s = storage.getItem(at(key)); return s === null ? undefined : decode(s) }
		getUserPreference.connect(ctx, (key, defaultValue) => read(key) ?? defaultValue)
		setUserPreference.connect(ctx, async (key, x) => later(typeof x === 'function' ? x(read(key)) : x, v => {
			if (gone(v)) storage.removeItem(at(key))
			else storage.setItem(at(key), encode(v))
		}))
		clearAllUserPreferences.connect(ctx, () => {
			const keys = []
			for (let i = 0; i < storage.length; i++) keys.push(storage.key(i))
			for (const k of keys) if (k.startsWith(`${ctx.name}:`)) storage.removeItem(k)
		})
		return { preferences: preferencesOf(ctx.commands) }
	}
}
