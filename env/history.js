// Stand-in for the library in concrete runs: the history of the page is an object of its own.
export const createBrowserHistory = (...args) => { __page.effect('createBrowserHistory', args); return { of: 'browser' } }
export const createMemoryHistory = (...args) => { __page.effect('createMemoryHistory', args); return { of: 'memory' } }
export const createHashHistory = (...args) => { __page.effect('createHashHistory', args); return { of: 'hash' } }
