// Contracts of plugins/commands and of the contribution registries of plugins/keyboard
import { getLogger } from 'standard-log'
import { sentenceCase } from 'sentence-case'
import { createRegistry } from './states.js'

const own = (record, key) => Object.prototype.hasOwnProperty.call(record, key)
/** a registry of contributions: the first contribution of an id stays, every later one is reported and ignored */
export function contributionRegistry(initial = [], report) {
	const record = Object.create(null)
	for (const c of initial) record[c.id] = c
	const registry = createRegistry(record)
	return {
		...registry,
		add: (...entries) => {
			registry.set(draft => {
				for (const c of entries) {
					if (own(draft, c.id)) report(c.id)
					else draft[c.id] = c
				}
			})
		}
	}
}
/** one handler for each id: the last one that was registered */
export function handlerRegistry(initial, log) {
	const registry = createRegistry(initial)
	return {
		register: (id, handler) => { registry.set(draft => { draft[id] = handler }) },
		invoke: (id, ...args) => (registry.has(id) ? registry.get()[id](...args) : log.error(id)),
		keys: () => registry.keys(),
		has: id => registry.has(id)
	}
}
/** a function that runs the handler registered under its id once it is connected, and its own handler before that */
export function command(idOrInfo, handler) {
	const info = typeof idOrInfo === 'string' ? { id: idOrInfo } : idOrInfo
	const isInfo = typeof idOrInfo !== 'string'
	let context
	let mine = handler
	const invoke = (...args) => {
		if (context) return context.commands.handlers.invoke(info.id, ...args)
		if (mine) return mine(...args)
		getLogger('@just-web/commands').error(info.id)
	}
	Object.defineProperty(invoke, 'name', { value: info.id, enumerable: false, writable: false, configurable: false })
	return Object.assign(invoke, {
		...info,
		connect(ctx, handler) {
			context = ctx
			if (handler) mine = handler
			if (!mine) return
			ctx.commands.handlers.register(info.id, mine)
			if (isInfo) {
				ctx.commands.contributions.add(info)
				if (ctx.keyboard && (info.key || info.mac)) ctx.keyboard.keyBindingContributions.add(info)
			}
		},
		defineHandler(handler) {
			mine = handler
			return handler
		}
	})
}
export const commandsGizmoFn = options => ({
	async create({ log }) {
		const handlers = handlerRegistry(options?.handlers, log.getLogger('@just-web/commands'))
		return {
			commands: {
				contributions: contributionRegistry(options?.contributions, id => { log.error(id) }),
				handlers,
				showCommandPalette: () => handlers.invoke('just-web.showCommandPalette')
			}
		}
	}
})
export const formatCommand = ({ id, title, description }) => ({ id, title: title ?? sentenceCase(id.includes('.') ? id.slice(id.indexOf('.') + 1) : id), description })
