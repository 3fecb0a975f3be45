// Stand-in for the library in concrete runs: what is bound is recorded, and a key can be pressed.
const bound = (__page.bound = new Map())
export default {
	bind(key, handler) { __page.effect('mousetrap.bind', [key]); bound.set(key, handler) },
	unbind(key) { __page.effect('mousetrap.unbind', [key]); bound.delete(key) },
	reset() { __page.effect('mousetrap.reset', []); bound.clear() }
}
