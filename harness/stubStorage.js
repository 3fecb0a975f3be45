// B03: the stubbed storage behaves like a Storage
export const construct = (sym, { stubStorage }) => stubStorage()
export const ops = {
	getItem: (sym, s) => s.getItem(sym.str('key')),
	setItem: (sym, s) => s.setItem(sym.str('key'), sym.str('value')),
	removeItem: (sym, s) => s.removeItem(sym.str('key')),
	clear: (sym, s) => s.clear(),
	length: (sym, s) => s.length,
	key: (sym, s) => s.key(sym.int('index'))
}
export const nativeOps = { all: (sym, s) => { for (let i = 0; i < s.length; i++) sym.read(s.key(i), s.getItem(s.key(i))) } }
export const lemmas = {
	/** B03: an item is the text that was set last, or null */
	item: (sym, s) => {
		const key = sym.str('key'), other = sym.str('other'), before = s.getItem(other)
		s.setItem(key, sym.str('value'))
		sym.assert(s.getItem(key) === sym.str('value'), 'the text that was set')
		sym.assert(key === other || s.getItem(other) === before, 'other items stay')
		s.removeItem(key)
		sym.assert(s.getItem(key) === null, 'null when it was removed')
		sym.assert(key === other || s.getItem(other) === before, 'other items stay when one is removed')
		s.setItem(key, sym.str('value'))
		s.clear()
		sym.assert(s.getItem(key) === null && s.getItem(other) === null && s.length === 0, 'nothing is left')
	},
	/** B03: the number of keys grows by one with a new key only, and the new key is the last one */
	counted: (sym, s) => {
		const key = sym.str('key'), had = s.getItem(key) !== null, n = s.length
		sym.assume(n < 4294967295)
		s.setItem(key, sym.str('value'))
		sym.assert(s.length === (had ? n : n + 1), 'a new key counts once')
		if (!had) sym.assert(s.key(n) === key, 'a new key is the last one')
		sym.assert(s.key(s.length) === null, 'no key beyond')
	}
}
