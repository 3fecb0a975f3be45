// The functions under contract: where the real function is, where its contract is.
const take = (file, contract) => (...names) => Object.fromEntries(names.map(n => [n, { real: [file, n], spec: [contract, n] }]))
const states = (file, ...names) => take(`libraries/states/src/${file}.ts`, 'contracts/states.js')(...names)
const plugin = (name, contract, file = 'index') => take(`plugins/${name}/src/${file}.ts`, `contracts/${contract}.js`)
const dep = s => Object.fromEntries(Object.entries(s).map(([k, v]) => [k, { ...v, dep: true }]))
export const components = [
	{ id: 'state', harness: 'harness/state.js', subjects: states('state', 'createState') },
	{ id: 'store', harness: 'harness/store.js', subjects: { ...states('store', 'createStore', 'toReadonlyStore') } },
	{ id: 'registry', harness: 'harness/registry.js', subjects: { ...states('registry', 'createRegistry', 'toReadonlyRegistry') } },
	{ id: 'adder', harness: 'harness/adder.js', subjects: { ...states('adder', 'adder', 'withAdder', 'push', 'unshift'), ...dep(states('store', 'createStore')) } },
	{ id: 'states', harness: 'harness/states.js', subjects: states('index', 'statesGizmo') },
	{ id: 'commands', harness: 'harness/commands.js', subjects: plugin('commands', 'commands')('commandsGizmoFn'), fieldKind: { id: 'str' } },
	{ id: 'command', harness: 'harness/command.js', subjects: plugin('commands', 'commands')('command') },
	{ id: 'formatCommand', harness: 'harness/formatCommand.js', subjects: plugin('commands', 'commands')('formatCommand') },
	{ id: 'keyboard', harness: 'harness/keyboard.js', subjects: plugin('keyboard', 'keyboard')('keyboardGizmoFn') },
	{ id: 'keys', harness: 'harness/keys.js', subjects: plugin('keyboard', 'keyboard')('formatKeyBinding') },
	{ id: 'os', harness: 'harness/os.js', subjects: plugin('os', 'keyboard')('osGizmo', 'isMac') },
	{ id: 'browserKeyboard', harness: 'harness/browserKeyboard.js', subjects: { ...plugin('browser-keyboard', 'keyboard')('browserKeyboardGizmo'), ...dep(states('registry', 'createRegistry')) } },
	{ id: 'i18n', harness: 'harness/i18n.js', subjects: plugin('i18n', 'i18n')('i18nGizmoFn') },
	{ id: 'browserI18n', harness: 'harness/browserI18n.js', subjects: plugin('browser-i18n', 'i18n')('browserI18nGizmo') },
	{ id: 'routes', harness: 'harness/routes.js', subjects: plugin('routes', 'routes')('routesGizmo') },
	{ id: 'preferences', harness: 'harness/preferences.js', subjects: { ...plugin('preferences', 'preferences')('memoryPreferencesGizmo'), ...dep(plugin('commands', 'commands')('commandsGizmoFn')), ...dep(plugin('keyboard', 'keyboard')('keyboardGizmoFn')) } },
	{ id: 'apart', harness: 'harness/apart.js', subjects: { ...dep(plugin('preferences', 'preferences')('memoryPreferencesGizmo')), ...dep(plugin('commands', 'commands')('commandsGizmoFn')), ...dep(plugin('i18n', 'i18n')('i18nGizmoFn')) } },
	{ id: 'browserPreferences', harness: 'harness/browserPreferences.js', subjects: { ...plugin('browser-preferences', 'preferences')('browserPreferencesGizmo'), ...dep(plugin('commands', 'commands')('commandsGizmoFn')) } },
	{ id: 'browser', harness: 'harness/browser.js', subjects: { ...plugin('browser', 'browser')('browserGizmoFn'), ...plugin('browser', 'browser', 'testing/index')('browserTestGizmoFn') } },
	{ id: 'stubStorage', harness: 'harness/stubStorage.js', subjects: plugin('browser', 'browser', 'testing/index')('stubStorage') },
	{ id: 'provided', harness: 'harness/provided.js', subjects: { ...plugin('fetch', 'browser')('fetchGizmo'), ...plugin('fetch', 'browser', 'testing/index')('fetchTestGizmoFn'), ...plugin('history', 'browser')('historyGizmoFn'), ...plugin('formatjs', 'browser')('formatJSGizmoFn') } },
	{ id: 'events', harness: 'harness/events.js', subjects: plugin('events', 'browser')('eventsGizmoFn') },
	{ id: 'log', harness: 'harness/log.js', logs: () => true, logsExact: true, subjects: { ...take('frameworks/log/src/index.ts', 'contracts/log.js')('logGizmoFn', 'createPrefixedGetLogger', 'createPrefixedGetNonConsoleLogger'), ...take('frameworks/log/src/testing/index.ts', 'contracts/log.js')('logTestGizmoFn') } },
	{ id: 'app', harness: 'harness/app.js', subjects: { ...take('frameworks/app/src/index.ts', 'contracts/log.js')('justApp'), ...take('frameworks/app/src/testing/index.ts', 'contracts/log.js')('justTestApp') } },
	{ id: 'presets', harness: 'harness/presets.js', subjects: { ...take('presets/browser/src/index.ts', 'contracts/presets.js')('presetsBrowserGizmoFn'), ...take('presets/browser/src/testing/index.ts', 'contracts/presets.js')('presetsBrowserTestGizmoFn'), ...dep(plugin('commands', 'commands')('commandsGizmoFn')) } },
]
export const byId = id => components.find(c => c.id === id)
/** linking: a call to a function that is under contract in another component goes to its contract */
export function linker(repo, here, findExport) {
	let contractOf
	const table = () => {
		contractOf = new Map()
		for (const comp of components) for (const s of Object.values(comp.subjects)) {
			if (s.dep) continue
			const d = findExport(`${repo}/${s.real[0]}`, s.real[1])
			if (d) contractOf.set(`${d.file}#${d.local}`, { comp, spec: s.spec })
		}
		return contractOf
	}
	return (comp, file, local) => {
		if (!file.startsWith(repo + '/')) return undefined
		const c = (contractOf ?? table()).get(`${file}#${local}`)
		if (!c || c.comp.id === comp.id) return undefined
		return { file: `${here}/${c.spec[0]}`, local: c.spec[1] }
	}
}
