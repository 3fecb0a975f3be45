// Contracts of libraries/states/src
import { nothing, produce } from 'immer'

const noop = () => {}
export const isPromise = x => !!x && typeof x.then === 'function' && typeof x.catch === 'function'
/** the value an updater leaves behind when it finishes synchronously, and the promise it returned otherwise */
export function update(value, updater) {
	let pending
	const next = produce(value, draft => {
		const r = updater(draft)
		if (isPromise(r)) pending = r
		else return r
	})
	return { pending, next }
}
/** a value, everyone who wants to know when it changes, and nothing else */
export function container(init, logger) {
	let value = Object.freeze(init)
	let handlers = []
	/** the value becomes `next`; everyone subscribed at this moment is told once, in order of subscription */
	const become = (next, prev) => {
		value = next
		logger?.planck()
		for (const h of handlers.slice()) h(next, prev)
		return next
	}
	const isUpdater = x => typeof x === 'function' && typeof init !== 'function'
	const set = x => {
		if (Object.is(value, x)) return x
		if (!isUpdater(x)) return become(Object.freeze(x), value)
		const { pending, next } = update(value, x)
		if (!pending) return become(Object.freeze(next), value)
		return pending.then(r => become(r === nothing ? undefined : Object.freeze(r === undefined ? next : r), value))
	}
	const onChange = handler => {
		if (handlers.includes(handler)) return noop
		handlers.push(handler)
		let mine = true
		return () => {
			if (mine && handlers.includes(handler)) handlers.splice(handlers.indexOf(handler), 1)
			mine = false
		}
	}
	return { get: () => value, set, onChange, reset: () => { set(init) } }
}
export function createState(init, meta) {
	const { get, set, onChange, reset } = container(init, meta?.logger)
	return [get(), set, onChange, reset]
}
export function createStore(init, meta) {
	return container(init, meta?.logger)
}
export function toReadonlyStore(store) {
	return { get: store.get, onChange: store.onChange }
}
const ownKeys = record => [...Object.keys(record), ...Object.getOwnPropertySymbols(record)]
export function createRegistry(init = Object.create(null), meta) {
	const { get, set, onChange, reset } = container(init, meta?.logger)
	return {
		get, set, onChange, reset,
		keys: () => ownKeys(get()),
		has: key => Object.prototype.hasOwnProperty.call(get(), key),
		size: () => ownKeys(get()).length,
		values: () => { const record = get(); return ownKeys(record).map(key => record[key]) }
	}
}
export function toReadonlyRegistry(registry) {
	const { get, has, onChange, keys, size, values } = registry
	return { get, has, onChange, keys, size, values }
}
export function adder(store, handler) {
	return (...entries) => {
		store.set(draft => { for (const entry of entries) handler(draft, entry) })
	}
}
export function withAdder(store, addEntry) {
	return { ...store, add: adder(store, addEntry) }
}
export function push(draft, entry) {
	draft.push(entry)
}
export function unshift(draft, entry) {
	draft.unshift(entry)
}
export function isNothing(value) {
	return value === nothing
}
export const statesGizmo = {
	async create({ log }) {
		const logged = (create, init, meta) => create(init, { logger: meta?.logger ?? log.getLogger() })
		return {
			states: {
				createState: (init, meta) => logged(createState, init, meta),
				createStore: (init, meta) => logged(createStore, init, meta),
				createRegistry: (init, meta) => logged(createRegistry, init, meta)
			}
		}
	}
}
