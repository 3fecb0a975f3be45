// K01: key binding contributions
export const variants = ['empty', 'given']
export async function construct(sym, { keyboardGizmoFn }, variant) {
	const options = variant === 'given' ? { keyBindingContributions: sym.list('contributions', 'contribution') } : undefined
	const { keyboard } = await keyboardGizmoFn(options).create({ log: sym.log('app') })
	return keyboard.keyBindingContributions
}
export const ops = {
	add: (sym, s) => s.add(sym.obj('c', 'contribution')),
	addMany: (sym, s) => s.add(...sym.list('cs', 'contribution')),
	contribution: (sym, s) => { const id = sym.str('id'); return s.has(id) ? s.get()[id] : undefined },
	ids: (sym, s) => [s.keys(), s.size()],
	contributions: (sym, s) => s.values(),
	changed: [
		(sym, s, m) => { m.off = s.onChange(sym.fn('h', 'handler')) },
		'others',
		(sym, s, m) => m.off()
	]
}
const keep = (sym, s) => { s.onChange(sym.fn('k', 'handler')) }
export const nativeOps = { keep }
export const reenter = { keep }
