// B02: an event gizmo is built from exactly the given options
export async function construct(sym, { eventsGizmoFn }) {
	const { events } = await eventsGizmoFn(sym.optional('options', { emitter: sym.optional('emitter?', sym.obj('emitter', 'emitter')) })).create({ log: sym.log('app') })
	return events
}
export const objects = { emitter: o => ({ addListener: o.fn('addListener', 'value'), removeListener: o.fn('removeListener', 'value'), on: o.fn('on', 'value'), off: o.fn('off', 'value'), emit: o.fn('emit', 'value') }) }
const fail = () => { throw new Error('failed') }
export const ops = {
	emitter: (sym, { emitter }) => emitter
}
export const nativeOps = {
	on: (sym, { emitter }) => { emitter.on(sym.pick('type', ['a', 'b']), sym.fn('listener', 'handler')) },
	failing: (sym, { emitter }) => { emitter.on(sym.pick('type', ['a', 'b']), fail) },
	emit: (sym, { emitter }) => { emitter.emit(sym.pick('type', ['a', 'b']), ...sym.args('args')) },
	off: (sym, { emitter }) => { emitter.off?.(sym.pick('type', ['a', 'b']), sym.fn('listener', 'handler')) }
}
