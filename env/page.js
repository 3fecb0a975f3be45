// What the platform offers to a page: a target of events, fetch, storages, a navigator and a location.
export function createPage(sym) {
	const listeners = []
	const find = (type, listener) => listeners.find(l => l.active && l.type === type && l.listener === listener)
	return {
		addEventListener(type, listener) { if (!find(type, listener)) listeners.push({ type, listener, active: true }) },
		removeEventListener(type, listener) { const l = find(type, listener); if (l) l.active = false },
		dispatch(type, event) { for (const l of listeners.slice()) if (l.active && l.type === type) l.listener(event) },
		fetch(...args) { sym.event('fetch of the page', ...args); return 'fetched' }
	}
}
