// Contracts of plugins/i18n and plugins/browser-i18n
import { command } from './commands.js'

export const setLanguageCommand = command({ id: '@just-web/i18n/set-language', title: 'Set locale language' })
/** the current language, and everyone who is told each time it is set */
const languages = initial => {
	let language = initial
	const handlers = []
	return {
		getLanguage: () => language,
		setLanguage(next) {
			const previous = language
			language = next
			for (const h of handlers.slice()) h(next, previous)
		},
		languageChanged(handler) { handlers.push(handler) }
	}
}
export const i18nGizmoFn = ({ language }) => ({
	async create({ commands, keyboard }) {
		const i18n = languages(language)
		if (commands) setLanguageCommand.connect({ commands, keyboard }, i18n.setLanguage)
		return { i18n }
	}
})
/** the language is remembered in local storage under a key of the app */
export const browserI18nGizmo = {
	async create({ name, browser, commands, keyboard }) {
		const key = `@just-web/browser-i18n/${name}/language`
		const i18n = languages(browser.localStorage.getItem(key) ?? browser.navigator.language)
		if (commands) setLanguageCommand.connect({ commands, keyboard }, i18n.setLanguage)
		i18n.languageChanged(next => { browser.localStorage.setItem(key, next) })
		return {
			i18n: {
				...i18n,
				clearLanguage() {
					i18n.setLanguage(browser.navigator.language)
					browser.localStorage.removeItem(key)
				}
			}
		}
	}
}
