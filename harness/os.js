// O01: the operating system
export const construct = async (sym, { osGizmo, isMac }) => ({ os: (await osGizmo.create()).os, isMac })
export const page = (fn, side) => ({ os: side.rand('os').pick([undefined, {}, { family: 'OS X' }, { family: 'os x' }, { family: 'Windows' }, { family: 'OS X ' }]) })
export const ops = {
	gizmo: (sym, { os }) => os.isMac(),
	function: (sym, { isMac }) => isMac()
}
