// I02: the language that is remembered
import { createStorage } from '../env/storage.js'
export const variants = ['alone', 'commands']
export async function construct(sym, { browserI18nGizmo }, variant) {
	const localStorage = createStorage(sym.dict('stored', 'str'))
	const browser = { localStorage, navigator: { language: sym.str('navigator') } }
	const context = variant === 'commands' ? sym.obj('context', 'context') : {}
	const name = sym.str('name')
	const { i18n } = await browserI18nGizmo.create({ name, browser, commands: context.commands, keyboard: context.keyboard })
	return { i18n, localStorage, name, browser }
}
export { objects, types } from './i18n.js'
export const ops = {
	getLanguage: (sym, { i18n }) => i18n.getLanguage(),
	setLanguage: (sym, { i18n }) => [i18n.setLanguage(sym.str('language')), i18n.getLanguage()],
	clearLanguage: (sym, { i18n }) => [i18n.clearLanguage(), i18n.getLanguage()],
	languageChanged: (sym, { i18n }) => i18n.languageChanged(sym.fn('h', 'handler')),
	stored: (sym, { localStorage }) => localStorage.getItem(sym.str('key'))
}
const read = (sym, { i18n, localStorage, name }) => { sym.read('language', i18n.getLanguage()); sym.read('stored', localStorage.getItem(`@just-web/browser-i18n/${name}/language`)) }
export const nativeOps = { read }
export const reenter = { read }
export const lemmas = {
	/** I02: the language is still set after a reload, and the one of the browser is back once it is cleared */
	reload: async (sym, { i18n, localStorage, name, browser }, m, { browserI18nGizmo }) => {
		sym.quiet()
		const language = sym.str('language')
		i18n.setLanguage(language)
		const again = await browserI18nGizmo.create({ name, browser })
		sym.assert(again.i18n.getLanguage() === language, 'the language is remembered')
		again.i18n.clearLanguage()
		sym.assert(again.i18n.getLanguage() === browser.navigator.language, 'the language of the browser')
		const third = await browserI18nGizmo.create({ name, browser: { localStorage, navigator: { language: 'other' } } })
		sym.assert(third.i18n.getLanguage() === 'other', 'nothing is remembered any more')
	},
	/** I02: apps of other names do not share the language */
	other: async (sym, { i18n, localStorage, name, browser }, m, { browserI18nGizmo }) => {
		sym.quiet()
		const other = sym.str('other')
		sym.assume(other !== name)
		const before = (await browserI18nGizmo.create({ name: other, browser })).i18n.getLanguage()
		i18n.setLanguage(sym.str('language'))
		sym.assert((await browserI18nGizmo.create({ name: other, browser })).i18n.getLanguage() === before, 'the language of the other app stays')
	}
}
