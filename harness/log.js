// L01: loggers carry the name of the app
export const variants = ['app', 'test', 'levels', 'testLevels']
const reporter = sym => ({ id: 'reporter', isConsoleReporter: false, level: undefined, formatter: x => x, filter: undefined, write: e => { sym.event('entry', e.id, e.level, ...e.args) } })
const options = (sym, variant) => ({ logLevel: 1000, ...(variant.endsWith('evels') ? { customLevels: { silly: 550, loud: 350 } } : {}), ...(variant.startsWith('test') ? {} : { reporters: [reporter(sym)] }) })
export async function construct(sym, { logGizmoFn, logTestGizmoFn, createPrefixedGetLogger, createPrefixedGetNonConsoleLogger }, variant) {
	const name = sym.str('name')
	sym.assume(/^[\w:-]+$/.test(name))
	const { log } = await (variant.startsWith('test') ? logTestGizmoFn(options(sym, variant)) : logGizmoFn(options(sym, variant))).create({ name, id: 'id' })
	return { log, createPrefixedGetLogger, createPrefixedGetNonConsoleLogger, variant }
}
const METHODS = ['emergency', 'alert', 'critical', 'error', 'warn', 'notice', 'info', 'debug', 'trace', 'planck', 'silly', 'loud']
const levels = ['emergency', 'alert', 'critical', 'error', 'warn', 'notice', 'info', 'debug', 'trace', 'planck']
const method = (sym, s) => sym.pick('method', s.variant.endsWith('evels') ? METHODS : levels)
const entries = (sym, s) => { if (s.variant.startsWith('test')) for (const e of s.log.reporter.logs.splice(0)) sym.event('entry', e.id, e.level, ...e.args) }
const id = (sym, n) => { const x = sym.str(n); sym.assume(/^[\w:-]*$/.test(x)); return x }
/** options that let everything through */
const all = sym => (sym.bool('options') ? { level: 1000 } : undefined)
export const ops = {
	log: (sym, s) => { s.log[method(sym, s)](...sym.args('args')); entries(sym, s) },
	on: (sym, s) => { s.log.on(method(sym, s), log => { log('seen') }); entries(sym, s) },
	count: (sym, s) => { s.log.count('counted'); entries(sym, s) },
	getLogger: (sym, s) => { const l = s.log.getLogger(sym.bool('none') ? undefined : id(sym, 'id'), all(sym)); l[method(sym, s)](...sym.args('args')); entries(sym, s); return l.id },
	getNonConsoleLogger: (sym, s) => { const l = s.log.getNonConsoleLogger(id(sym, 'id'), all(sym)); l[method(sym, s)]?.(...sym.args('args')); entries(sym, s); return l.id },
	prefixed: (sym, s) => { const l = s.createPrefixedGetLogger({ log: s.log }, id(sym, 'prefix'))(sym.bool('none') ? undefined : id(sym, 'id'), all(sym)); l[method(sym, s)](...sym.args('args')); entries(sym, s); return l.id },
	prefixedNonConsole: (sym, s) => { const l = s.createPrefixedGetNonConsoleLogger({ log: s.log }, id(sym, 'prefix'))(sym.bool('none') ? undefined : id(sym, 'id'), all(sym)); l[method(sym, s)]?.(...sym.args('args')); entries(sym, s); return l.id }
}
/** loggers that are given a level of their own keep quiet */
const quiet = get => (sym, s) => { const l = get(sym, s)(id(sym, 'id'), { level: 0 }); l[method(sym, s)]?.(...sym.args('args')); entries(sym, s); return l.id }
export const nativeOps = {
	quiet: quiet((sym, s) => s.log.getLogger),
	quietNonConsole: quiet((sym, s) => s.log.getNonConsoleLogger),
	quietPrefixed: quiet((sym, s) => s.createPrefixedGetLogger({ log: s.log }, id(sym, 'prefix'))),
	quietPrefixedNonConsole: quiet((sym, s) => s.createPrefixedGetNonConsoleLogger({ log: s.log }, id(sym, 'prefix')))
}
