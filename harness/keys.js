// K02: the key of a binding on this platform
export const construct = (sym, { formatKeyBinding }) => ({ formatKeyBinding })
export const objects = { os: o => ({ isMac: () => o.r.chance(0.5) }) }
export const ops = {
	format: (sym, { formatKeyBinding }) => {
		const mac = sym.bool('mac')
		return formatKeyBinding({ os: { isMac: () => mac } }, { id: sym.str('id'), key: sym.optional('key', sym.str('key')), mac: sym.optional('mackey', sym.str('mackey')) })
	}
}
export const lemmas = {
	/** K02: the mac key is used on a mac only */
	platform: (sym, { formatKeyBinding }) => {
		const id = sym.str('id'), key = sym.str('key'), mac = sym.str('mac')
		sym.assert(formatKeyBinding({ os: { isMac: () => true } }, { id, key, mac }).key === mac, 'the mac key on a mac')
		sym.assert(formatKeyBinding({ os: { isMac: () => true } }, { id, key }).key === key, 'the key on a mac when there is no other')
		sym.assert(formatKeyBinding({ os: { isMac: () => false } }, { id, key, mac }).key === key, 'the key elsewhere')
	}
}
