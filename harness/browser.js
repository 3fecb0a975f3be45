// B01, B02: error events of the page, and what a browser app gets from it
import { createPage } from '../env/page.js'
export const globals = sym => createPage(sym)
export const variants = ['plain', 'app fetch', 'test', 'test given']
/** which storages are given matters to what is offered alone */
export const only = { 'test given': ['offers', 'fetch'] }
export async function construct(sym, { browserGizmoFn, browserTestGizmoFn }, variant) {
	const options = sym.optional('options', { preventDefault: sym.optional('prevent', sym.bool('preventDefault')), fetch: sym.optional('fetch?', sym.fn('fetch', 'value')) })
	const ctx = { log: sym.log('app') }
	if (variant === 'app fetch') ctx.fetch = sym.fn('app fetch', 'value')
	if (variant === 'test') {
		const { browser, fetch } = await browserTestGizmoFn(options).create(ctx)
		return { browser, fetch }
	}
	if (variant === 'test given') {
		const { browser, fetch } = await browserTestGizmoFn({ ...options, sessionStorage: sym.optional('s', sym.obj('session', 'storage')), localStorage: sym.optional('l', sym.obj('local', 'storage')), navigator: sym.optional('n', sym.obj('navigator', 'navigator')), location: sym.optional('o', sym.obj('location', 'location')) }).create(ctx)
		return { browser, fetch }
	}
	const [{ browser, fetch }, start] = await browserGizmoFn(options).create(ctx)
	return { browser, fetch, start }
}
const event = sym => ({ message: sym.str('message'), filename: sym.str('filename'), lineno: sym.int('lineno'), colno: sym.int('colno'), error: sym.optional('error?', sym.obj('error', 'cause')), preventDefault: sym.fn('preventDefault', 'handler') })
export const ops = {
	error: (sym, { browser }) => { sym.page.dispatch('error', event(sym)); return browser.errors.get().length },
	otherEvent: (sym, { browser }) => { sym.page.dispatch('message', event(sym)) },
	errors: (sym, { browser }) => browser.errors.get(),
	onChange: [(sym, { browser }, m) => { m.off = browser.errors.onChange(sym.fn('h', 'handler')) }, 'others', (sym, s, m) => m.off()],
	offers: (sym, { browser }) => [browser.sessionStorage, browser.localStorage, browser.navigator, browser.location, 'set' in browser.errors],
	fetch: (sym, { fetch }) => fetch(...sym.args('request')),
	cleanUp: (sym, s) => { if (s.start) { s.start()() } }
}
export const lemmas = {
	/** B01: an error event is recorded with all its details */
	recorded: (sym, { browser }) => {
		sym.quiet()
		const e = event(sym), before = browser.errors.get().length
		const seen = []
		browser.errors.onChange(v => { seen.push(v.length) })
		sym.page.dispatch('error', e)
		const errors = browser.errors.get()
		sym.assume(errors.length > before)
		const last = errors[errors.length - 1]
		sym.assert(errors.length === before + 1 && seen.length === 1, 'one error, told once')
		sym.assert(last.message === e.message && last.source === e.filename && last.lineno === e.lineno && last.colno === e.colno && last.cause === e.error, 'with its details')
	},
	/** B01: nothing is recorded after the clean-up */
	'plain:cleaned': (sym, s) => {
		s.start()()
		const before = s.browser.errors.get()
		sym.page.dispatch('error', event(sym))
		sym.assert(sym.same(s.browser.errors.get(), before), 'nothing is recorded')
	}
}
