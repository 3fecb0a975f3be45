export const variants = ['empty', 'record']
export function construct(sym, { createRegistry, toReadonlyRegistry }, variant) {
	const registry = variant === 'empty' ? createRegistry(undefined, sym.optional('meta', { logger: sym.logger() })) : createRegistry(sym.record('init'), sym.optional('meta', { logger: sym.logger() }))
	return { ...registry, readonly: toReadonlyRegistry(registry) }
}
export const ops = {
	get: (sym, s) => s.get(),
	entry: (sym, s) => { const v = s.get()[sym.key('k')]; return typeof v === 'function' || typeof v === 'object' ? undefined : v },
	set: (sym, s) => [s.set(sym.record('x')), s.get()],
	update: (sym, s) => { const u = sym.fn('u', 'adder'); return [s.set(d => { u(d) }), s.get()] },
	put: (sym, s) => { const k = sym.key('k'), v = sym.data('v'); sym.assume(k !== '__proto__'); s.set(d => { d[k] = v }) },
	remove: (sym, s) => { const k = sym.key('k'); sym.assume(k !== '__proto__'); s.set(d => { delete d[k] }) },
	reset: (sym, s) => [s.reset(), s.get()],
	keys: (sym, s) => s.keys(),
	has: (sym, s) => s.has(sym.key('k')),
	size: (sym, s) => s.size(),
	values: (sym, s) => s.values(),
	onChange: [
		(sym, s, m) => { m.off = s.onChange(sym.fn('h')) },
		'others',
		(sym, s, m) => m.off()
	],
	readonly: [
		(sym, s, m) => { sym.read('can write', 'set' in s.readonly || 'reset' in s.readonly); m.off = s.readonly.onChange(sym.fn('h')); return s.readonly.get() },
		'others',
		(sym, s, m) => [m.off(), s.readonly.get(), s.readonly.has(sym.key('k')), s.readonly.size()],
		(sym, s, m) => s.readonly.keys(),
		(sym, s, m) => s.readonly.values()
	]
}
const keep = (sym, s) => { (s.offs ??= []).push(s.onChange(sym.fn('k', 'handler'))) }
const drop = (sym, s) => { if (s.offs?.length) s.offs[Math.abs(sym.int('which')) % s.offs.length]() }
const read = (sym, s) => { sym.read('record', s.get()); sym.read('has', s.has(sym.key('k'))); sym.read('keys', s.keys()) }
export const nativeOps = { keep, drop }
export const reenter = { keep, drop, read }
export const rely = (sym, s) => s.get()
export const lemmas = {
	/** S06: a new registry has no entries, whatever their name */
	none: (sym, s, m, subs) => {
		const r = subs.createRegistry(undefined, { logger: sym.logger() })
		sym.assert(r.has(sym.key('k')) === false, 'a new registry has no entry of any name')
		sym.assert(r.size() === 0, 'its size is 0')
		sym.assert(r.keys().length === 0 && r.values().length === 0, 'it has no keys and no values')
	},
	/** S06: an entry that is put is reported, and no other entry appears or disappears */
	put: (sym, s) => {
		sym.quiet()
		const k = sym.key('k'), j = sym.key('j'), v = sym.data('v')
		sym.assume(k !== '__proto__' && k !== j)
		const had = s.has(k), other = s.has(j), n = s.size()
		s.set(d => { d[k] = v })
		sym.assert(s.has(k) === true, 'the entry is there')
		sym.assert(s.has(j) === other, 'no other entry appears or disappears')
		sym.assert(s.size() === (had ? n : n + 1), 'the size counts the entries')
		sym.assert(sym.same(s.get()[k], v) || s.get()[k] === v, 'the entry has its value')
	},
	/** S06: an entry that is removed is gone */
	removed: (sym, s) => {
		sym.quiet()
		const k = sym.key('k'), j = sym.key('j')
		sym.assume(k !== '__proto__' && k !== j)
		const other = s.has(j)
		s.set(d => { delete d[k] })
		sym.assert(s.has(k) === false, 'the entry is gone')
		sym.assert(s.has(j) === other, 'the others stay')
	}
}
