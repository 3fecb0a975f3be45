// A Storage of the platform: strings under string keys, in the order in which they were added.
export function createStorage(values) {
	const keys = () => Object.keys(values)
	return {
		getItem: key => (Object.prototype.hasOwnProperty.call(values, key) ? values[key] : null),
		setItem: (key, value) => { values[key] = `${value}` },
		removeItem: key => { delete values[key] },
		key: index => keys()[index] ?? null,
		get length() { return keys().length }
	}
}
