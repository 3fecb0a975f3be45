// What the checks take for granted; written into the evidence of every run.
import { assumed } from './engine/ext.mjs'
const general = [
	'functions given by the caller (handlers, updaters, adders, commands) do not throw and do not modify objects of the component other than through its interface or the draft they are given',
	'objects given by the caller have no getters with effects; Object.prototype, Array.prototype and other built-ins are not modified',
	'numbers are compared as IEEE values with NaN and -0 told apart; no arithmetic is involved in any claimed property except counting',
	'the built-ins of the language (arrays, records, promises, strings) behave as axiomatised in engine/objects.mjs and engine/trees.mjs',
	'promise reactions are run in order; a promise returned by the environment settles at any later time with any value'
]
export function assumptionsOf(comps, proofs, bounded) {
	const out = [...general]
	for (const c of comps) {
		const p = proofs[c.id]
		for (const f of p?.contractsUsed ?? []) out.push(`contract of a callee, discharged by the check of its own property: ${f.replace(/^.*\/contracts\//, 'contracts/')}`)
	}
	for (const [lib, text] of Object.entries(assumed)) out.push(`assumed contract of a library (${lib}): ${text}`)
	for (const b of bounded) out.push(`not proved, only explored by bounded concrete histories: ${b.component}.${b.op}: ${b.reason}`)
	for (const c of comps) for (const a of c.assumes ?? []) out.push(a)
	return [...new Set(out)]
}
