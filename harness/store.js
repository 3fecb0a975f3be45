export const variants = ['data', 'function']
export function construct(sym, { createStore, toReadonlyStore }, variant) {
	const store = createStore(variant === 'data' ? sym.data('init') : sym.fn('init'), sym.optional('meta', { logger: sym.logger() }))
	return { ...store, readonly: toReadonlyStore(store) }
}
export const ops = {
	get: (sym, s) => s.get(),
	set: (sym, s) => [s.set(sym.val('x')), s.get()],
	update: [(sym, s, m) => (m.p = s.set(sym.fn('u', 'updater'))), (sym, s) => s.get(), 'others', 'settle', (sym, s) => s.get()],
	reset: (sym, s) => [s.reset(), s.get()],
	onChange: [
		(sym, s, m) => { m.off = s.onChange(sym.fn('h')) },
		'others',
		(sym, s, m) => m.off(),
		'others',
		(sym, s, m) => m.off()
	],
	readonly: [
		(sym, s, m) => { sym.read('can write', 'set' in s.readonly || 'reset' in s.readonly); m.off = s.readonly.onChange(sym.fn('h')); return s.readonly.get() },
		'others',
		(sym, s, m) => [m.off(), s.readonly.get()]
	]
}
const keep = (sym, s) => { (s.offs ??= []).push(s.onChange(sym.fn('k', 'handler'))) }
const drop = (sym, s) => { if (s.offs?.length) s.offs[Math.abs(sym.int('which')) % s.offs.length]() }
const read = (sym, s) => { sym.read('value', s.get()) }
export const nativeOps = { keep, drop }
export const reenter = { keep, drop, read }
export const reenterUpdater = { set: ops.set }

/** S01 S02: what a write does, whatever happened before */
export const rely = (sym, s) => s.get()
export const lemmas = {
	written: (sym, s) => {
		sym.quiet()
		const x = sym.data('x')
		sym.assert(sym.same(s.set(x), x), 'a write returns the value')
		sym.assert(sym.same(s.get(), x), 'the value written is read')
	},
	initial: (sym, s, m, subs) => {
		sym.quiet()
		const init = sym.data('a'), other = sym.data('b')
		const t = subs.createStore(init, { logger: sym.logger() }), u = subs.createStore(other, { logger: sym.logger() })
		sym.assert(sym.same(t.get(), init), 'holds the initial value')
		const before = s.get()
		t.set(sym.data('x'))
		sym.assert(sym.same(s.get(), before) && sym.same(u.get(), other), 'other stores keep their value')
		t.reset()
		sym.assert(sym.same(t.get(), init), 'reset writes the initial value')
	},
	told: (sym, s) => {
		sym.quiet()
		const seen = []
		s.onChange((v, p) => { seen.push([v, p, s.get()]) })
		const before = s.get()
		const y = sym.data('y')
		s.set(y)
		if (sym.same(before, y)) sym.assert(seen.length === 0, 'an identical value tells nobody')
		else {
			sym.assert(seen.length === 1, 'told once')
			sym.assert(sym.same(seen[0][0], y), 'told the new value')
			sym.assert(sym.same(seen[0][1], before), 'told the previous value')
			sym.assert(sym.same(seen[0][2], y), 'the new value is read during the notification')
		}
	},
	order: (sym, s) => {
		sym.quiet()
		const seen = []
		let off2
		const off1 = s.onChange(() => { seen.push(1); off1(); off2() })
		off2 = s.onChange(() => { seen.push(2); s.onChange(() => { seen.push(3) }) })
		const y = sym.data('y')
		sym.assume(!sym.same(s.get(), y))
		s.set(y)
		sym.assert(seen.length === 2, 'each handler subscribed before the change is told once')
		sym.assert(seen[0] === 1, 'first')
		sym.assert(seen[1] === 2, 'second')
	},
	unsubscribed: [
		(sym, s, m) => {
			sym.quiet()
			m.seen = []
			m.h = () => { m.seen.push(1) }
			m.k = () => { m.seen.push(2) }
			m.off = s.onChange(m.h)
			m.off()
		},
		(sym, s, m) => {
			m.again = s.onChange(m.h)
			s.onChange(m.k)
			m.off()
			const y = sym.data('y')
			sym.assume(!sym.same(s.get(), y))
			s.set(y)
			sym.assert(m.seen.length === 2 && m.seen[0] === 1 && m.seen[1] === 2, 'an unsubscribe function used again removes nobody')
			const dup = s.onChange(m.h)
			dup()
			m.seen.length = 0
			const z = sym.data('z')
			sym.assume(!sym.same(s.get(), z))
			s.set(z)
			sym.assert(m.seen.length === 2, 'subscribing twice changes nothing')
			m.again()
			m.seen.length = 0
			s.set(y)
			sym.assert(m.seen.length === 1 && m.seen[0] === 2, 'an unsubscribed handler is not told')
		}
	],
	'data:updated': (sym, s) => {
		sym.quiet()
		const a = sym.data('a'), b = sym.data('b')
		s.set(a)
		sym.assume(typeof a !== 'object' || a === null)
		sym.assume(b !== undefined && typeof b !== 'symbol')
		const seen = []
		s.onChange((v, p) => { seen.push([v, p]) })
		let given
		const r = s.set(v => { given = v; return b })
		sym.assert(sym.same(given, a), 'the updater gets the current value')
		sym.assert(sym.same(r, b) && sym.same(s.get(), b), 'the value returned is the new value')
		sym.assert(seen.length === 1 && sym.same(seen[0][0], b) && sym.same(seen[0][1], a), 'one change')
	}
}
