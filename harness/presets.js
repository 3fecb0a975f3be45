// X01: the browser preset is the sum of its parts
import { createPage } from '../env/page.js'
import { createStorage } from '../env/storage.js'
export const globals = sym => ({ ...createPage(sym), localStorage: createStorage(sym.dict('stored', 'str')) })
export const variants = ['preset', 'test']
export async function construct(sym, { presetsBrowserGizmoFn, presetsBrowserTestGizmoFn, commandsGizmoFn }, variant) {
	const name = sym.str('name')
	sym.assume(!name.includes(':'))
	const ctx = { name, id: 'id', log: sym.log('app'), other: sym.obj('other', 'value'), ...(sym.bool('fetch?') ? { fetch: sym.fn('fetch of the app', 'value') } : {}) }
	ctx.commands = (await commandsGizmoFn().create(ctx)).commands
	if (sym.bool('keyboard?')) ctx.keyboard = { keyBindingContributions: { add: sym.fn('add key', 'handler') } }
	const options = sym.bool('options?') ? {
		browser: sym.bool('browser?') ? { preventDefault: sym.bool('preventDefault'), ...(sym.bool('own fetch?') ? { fetch: sym.fn('own fetch', 'value') } : {}), ...(variant === 'test' && sym.bool('navigator?') ? { navigator: sym.obj('navigator', 'navigator') } : {}) } : undefined,
		history: sym.bool('history?') ? { history: sym.obj('history', 'history') } : undefined
	} : undefined
	const result = await (variant === 'test' ? presetsBrowserTestGizmoFn : presetsBrowserGizmoFn)(options).create(ctx)
	return { result, ctx: { name: ctx.name, id: ctx.id }, names: Object.keys(ctx).sort() }
}
const event = sym => ({ message: sym.str('message'), filename: sym.str('filename'), lineno: sym.int('lineno'), colno: sym.int('colno'), error: undefined, preventDefault: sym.fn('preventDefault', 'handler') })
export const ops = {
	names: (sym, { result }) => Object.keys(result).sort(),
	offers: (sym, { result: { browser, history, other } }) => [browser.navigator, browser.sessionStorage, browser.location, history, other],
	fetch: (sym, { result }) => result.fetch(...sym.args('request')),
	error: (sym, { result }) => { sym.page.dispatch('error', event(sym)); return result.browser.errors.get().length },
	preferences: [(sym, { result }, m) => result.preferences.set(m.key = sym.str('key'), sym.bool('value?') ? sym.str('value') : undefined), 'settle', (sym, { result }, m) => [result.preferences.get(m.key), result.preferences.get(sym.str('other key'))]],
	stored: (sym, { result }) => result.browser.localStorage.getItem(sym.str('key')),
	clearAll: (sym, { result }) => { result.preferences.clearAll() }
}
export const lemmas = {
	/** X01: the values of the app are left as they are */
	left: (sym, { result, ctx }) => {
		for (const n of ['name', 'id', 'log', 'keyboard', 'commands']) sym.assert(!(n in result), `${n} is left to the app`)
		for (const n of ['browser', 'fetch', 'preferences', 'history']) sym.assert(n in result, `${n} is provided`)
	}
}
