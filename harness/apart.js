// P04: two apps in one page
export const variants = ['memory', 'first connected last']
export async function construct(sym, { memoryPreferencesGizmo, commandsGizmoFn, i18nGizmoFn }) {
	const app = async name => {
		const ctx = { name, log: sym.log(name) }
		ctx.commands = (await commandsGizmoFn().create(ctx)).commands
		const { preferences } = await memoryPreferencesGizmo.create(ctx)
		const { i18n } = await i18nGizmoFn({ language: 'en' }).create(ctx)
		return { preferences, i18n, commands: { handlers: ctx.commands.handlers, showCommandPalette: ctx.commands.showCommandPalette } }
	}
	const a = await app('a'), b = await app('b')
	return { a, b }
}
const of = (sym, s) => (sym.bool('which') ? s.a : s.b)
export const ops = {
	get: (sym, s) => of(sym, s).preferences.get(sym.str('key')),
	set: (sym, s) => { of(sym, s).preferences.set(sym.str('key'), sym.str('value')) },
	remove: (sym, s) => { of(sym, s).preferences.set(sym.str('key'), undefined) },
	clearAll: (sym, s) => { of(sym, s).preferences.clearAll() },
	command: (sym, s) => of(sym, s).commands.handlers.invoke('just-web.getUserPreference', sym.str('key')),
	palette: (sym, s) => of(sym, s).commands.showCommandPalette(),
	language: (sym, s) => { of(sym, s).commands.handlers.invoke('@just-web/i18n/set-language', sym.str('language')); return [s.a.i18n.getLanguage(), s.b.i18n.getLanguage()] }
}
export const nativeOps = { registerPalette: (sym, s) => { of(sym, s).commands.handlers.register('just-web.showCommandPalette', sym.fn('palette')) } }
export const lemmas = {
	/** P04: the command palette of an app is its own */
	palettes: (sym, s) => {
		sym.quiet()
		let runs = 0
		s.a.commands.handlers.register('just-web.showCommandPalette', () => { runs++ })
		s.b.commands.handlers.register('just-web.showCommandPalette', () => sym.assert(false, 'the one of another app is not shown'))
		s.a.commands.showCommandPalette()
		sym.assert(runs === 1, 'its own is shown')
	},
	/** P04: what one app sets, removes or clears is nothing to the other */
	apart: (sym, s) => {
		const key = sym.str('key'), language = s.b.i18n.getLanguage()
		const before = s.b.preferences.get(key)
		s.a.preferences.set(key, sym.str('value'))
		s.a.commands.handlers.invoke('@just-web/i18n/set-language', sym.str('language'))
		sym.assert(s.b.preferences.get(key) === before, 'the preference of the other app stays')
		sym.assert(s.b.i18n.getLanguage() === language, 'the language of the other app stays')
		sym.assert(s.a.preferences.get(key) === sym.str('value') && s.a.i18n.getLanguage() === sym.str('language'), 'its own are set')
		s.a.preferences.clearAll()
		sym.assert(s.b.preferences.get(key) === before, 'the preference of the other app stays when this one is cleared')
	}
}
