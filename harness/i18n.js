// I01: the language of an app
export const variants = ['alone', 'commands']
export async function construct(sym, { i18nGizmoFn }, variant) {
	const context = variant === 'commands' ? sym.obj('context', 'context') : {}
	const { i18n } = await i18nGizmoFn({ language: sym.str('language') }).create(context)
	return i18n
}
export const objects = {
	context: o => ({
		commands: { handlers: { register: (id, handler) => { o.event('register', id); o.page.handler = handler }, invoke: o.fn('invoke', 'value') }, contributions: { add: o.fn('add', 'handler') } },
		keyboard: o.some(() => ({ keyBindingContributions: { add: o.fn('addKey', 'handler') } }))
	})
}
export const types = { context: { commands: { handlers: { register: 'function', invoke: 'function' }, contributions: { add: 'function' } }, 'keyboard?': { keyBindingContributions: { add: 'function' } } } }
export const ops = {
	getLanguage: (sym, s) => s.getLanguage(),
	setLanguage: (sym, s) => [s.setLanguage(sym.str('language')), s.getLanguage()],
	languageChanged: (sym, s) => s.languageChanged(sym.fn('h', 'handler'))
}
const read = (sym, s) => { sym.read('language', s.getLanguage()) }
export const nativeOps = { command: (sym, s) => { if (sym.page.handler) { sym.page.handler(sym.str('language')); sym.read('language', s.getLanguage()) } } }
export const reenter = { read, languageChanged: (sym, s) => { s.languageChanged(sym.fn('h', 'handler')) } }
export const lemmas = {
	/** I01: the language is the one that was set last */
	set: (sym, s) => {
		sym.quiet()
		const language = sym.str('language'), next = sym.str('next')
		s.setLanguage(language)
		const seen = []
		s.languageChanged((now, before) => { seen.push([now, before, s.getLanguage()]) })
		s.setLanguage(next)
		sym.assert(s.getLanguage() === next, 'the language is set')
		sym.assert(seen.length === 1 && seen[0][0] === next && seen[0][1] === language && seen[0][2] === next, 'everyone is told the new and the previous language')
	}
}
