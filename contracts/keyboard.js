// Contracts of plugins/keyboard, plugins/browser-keyboard and plugins/os
import Mousetrap from 'mousetrap'
import { os } from 'platform'
import { contributionRegistry } from './commands.js'

export const keyboardGizmoFn = options => ({
	async create({ log }) {
		const warnings = log.getLogger('@just-web/contributions')
		return { keyboard: { keyBindingContributions: contributionRegistry(options?.keyBindingContributions, id => { warnings.warn(id) }) } }
	}
})
/** the key of a binding on this platform */
const keyOf = (os, { key, mac }) => (os.isMac() ? mac ?? key : key)
export const formatKeyBinding = ({ os }, binding) => ({ id: binding.id, key: keyOf(os, binding) })
/** what Mousetrap calls a key */
const mousetrapKey = key => key.replaceAll('cmd+', 'command+')
/** after start and after every change, exactly the keys of the current contributions are bound: the first binding of a key wins */
export const browserKeyboardGizmo = {
	async create({ log, keyboard, commands, os }) {
		const logger = log.getLogger('@just-web/browser-keyboard')
		const bindAll = bindings => {
			const bound = Object.create(null)
			for (const binding of bindings) {
				const key = keyOf(os, binding)
				if (!key) continue
				const k = mousetrapKey(key)
				if (bound[k]) logger.warn(binding.id)
				else {
					bound[k] = true
					Mousetrap.bind(k, event => {
						if (event.preventDefault) event.preventDefault()
						commands.handlers.invoke(binding.id)
						return false
					})
				}
			}
		}
		return [undefined, () => {
			bindAll(keyboard.keyBindingContributions.values())
			keyboard.keyBindingContributions.onChange(record => {
				Mousetrap.reset()
				bindAll(Object.keys(record).map(id => record[id]))
			})
		}]
	}
}
export const isMac = () => os?.family === 'OS X'
export const osGizmo = { async create() { return { os: { isMac } } } }
