// B02: what is given takes precedence over the platform
import { createPage } from '../env/page.js'
export const globals = sym => createPage(sym)
export async function construct(sym, { fetchGizmo, fetchTestGizmoFn, historyGizmoFn, formatJSGizmoFn }) {
	const options = sym.optional('fetch options', { fetch: sym.optional('fetch?', sym.fn('fetch', 'value')) })
	const { fetch } = await fetchGizmo.create()
	const { fetch: testFetch } = await fetchTestGizmoFn(options).create()
	return { fetch, testFetch, historyGizmoFn, formatJSGizmoFn }
}
export const ops = {
	fetch: (sym, s) => s.fetch(...sym.args('request')),
	testFetch: (sym, s) => s.testFetch(...sym.args('request')),
	history: [async (sym, s, m) => { m.result = (await s.historyGizmoFn(sym.optional('history options', { history: sym.optional('history?', sym.obj('history', 'history')) })).create()).history }, 'settle', (sym, s, m) => m.result],
	formatjs: [async (sym, s, m) => { m.result = (await s.formatJSGizmoFn({ config: sym.obj('config', 'config'), cache: sym.optional('cache?', sym.obj('cache', 'cache')) }).create()).formatjs.intl }, 'settle', (sym, s, m) => m.result]
}
