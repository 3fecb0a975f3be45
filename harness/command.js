// C02: command()
export const variants = ['name', 'info']
export function construct(sym, { command }, variant) {
	const what = variant === 'name' ? sym.str('id') : { id: sym.str('id'), title: sym.str('title'), key: sym.optional('key', sym.str('key')), mac: sym.optional('mac', sym.str('mac')) }
	return { command: command(what, sym.optional('handler', sym.fn('handler'))) }
}
export const objects = {
	context: o => ({
		commands: { handlers: { register: o.fn('register', 'handler'), invoke: o.fn('invoke', 'value') }, contributions: { add: o.fn('add', 'handler') } },
		keyboard: o.some(() => ({ keyBindingContributions: { add: o.fn('addKey', 'handler') } }))
	})
}
export const types = { context: { commands: { handlers: { register: 'function', invoke: 'function' }, contributions: { add: 'function' } }, 'keyboard?': { keyBindingContributions: { add: 'function' } } } }
export const ops = {
	info: (sym, { command }) => { sym.read('info', [command.name, command.id, command.title, command.key, command.mac]) },
	call: (sym, { command }) => command(...sym.args('args')),
	connect: (sym, { command }) => command.connect(sym.obj('context', 'context')),
	connectHandler: (sym, { command }) => command.connect(sym.obj('context', 'context'), sym.fn('own')),
	defineHandler: (sym, { command }) => command.defineHandler(sym.fn('own'))
}
/** what the functions of a context may do meanwhile, in proofs: they do not connect the command elsewhere */
export const reentrant = ['info', 'call']
export const reenter = { call: (sym, { command }) => { command(sym.data('again')) } }
