// Contracts of presets/browser
import { browserGizmoFn, browserTestGizmoFn, historyGizmoFn } from './browser.js'
import { browserPreferencesGizmo } from './preferences.js'
import { createMemoryHistory } from 'history'

/** the other values of the app, and what the gizmos provide */
const sum = async (app, gizmos) => {
	const { name, id, log, commands, keyboard, ...others } = app
	const out = others
	for (const gizmo of gizmos) {
		const result = await gizmo.create({ ...app, ...out })
		const [value, start] = Array.isArray(result) ? result : [result]
		if (start) await start()
		Object.assign(out, value)
	}
	return out
}
export const presetsBrowserGizmoFn = options => ({ create: app => sum(app, [browserGizmoFn(options?.browser), browserPreferencesGizmo, historyGizmoFn(options?.history)]) })
export const presetsBrowserTestGizmoFn = options => ({ create: app => sum(app, [browserTestGizmoFn(options?.browser), browserPreferencesGizmo, historyGizmoFn(options?.history ?? { history: createMemoryHistory() })]) })
