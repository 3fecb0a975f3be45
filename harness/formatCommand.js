// C04: the title of a command
export const construct = (sym, { formatCommand }) => ({ formatCommand })
export const ops = {
	format: (sym, { formatCommand }) => formatCommand({ id: sym.str('id'), title: sym.optional('title', sym.str('title')), description: sym.optional('description', sym.str('description')) })
}
export const lemmas = {
	/** C04: a title that is given is kept */
	given: (sym, { formatCommand }) => {
		const title = sym.str('title')
		sym.assert(formatCommand({ id: sym.str('id'), title }).title === title, 'the title is kept')
	},
	/** C04: only the part up to the first dot is taken off the id */
	generated: (sym, { formatCommand }) => {
		const before = sym.str('before'), after = sym.str('after')
		sym.assume(!before.includes('.'))
		sym.assert(formatCommand({ id: `${before}.${after}` }).title === formatCommand({ id: `.${after}` }).title, 'the namespace does not matter')
	}
}
