// the operations and lemmas of a component
import { join, resolve } from 'node:path'
import { byId } from '../components.mjs'
const HERE = resolve(import.meta.dirname, '..')
export async function allOps(c) {
	const h = await import(join(HERE, byId(c).harness))
	return { ops: Object.keys(h.ops), lemmas: Object.keys(h.lemmas ?? {}), native: Object.keys(h.nativeOps ?? {}) }
}
