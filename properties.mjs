// Which operations (compared with their contract) and which lemmas decide each property: component -> names ('*': all)
export const decides = {
	S01: { state: ['set', 'reset'], store: ['get', 'set', 'reset', 'written', 'initial'] },
	S02: { state: ['set', 'told'], store: ['set', 'update', 'told', 'order'] },
	S03: { state: ['onChange'], store: ['onChange', 'unsubscribed'] },
	S04: { state: ['update', 'set'], store: ['update', 'set', 'data:updated'] },
	S05: { state: ['update'], store: ['update'] },
	S06: { registry: '*' },
	S07: { adder: '*' },
	S08: { store: ['readonly'], registry: ['readonly'] },
	S09: { states: '*' },
	C01: { commands: ['register', 'invoke', 'has', 'keys', 'invoked', 'unknown'] },
	C02: { command: '*' },
	C03: { commands: ['add', 'addMany', 'contribution', 'ids', 'contributions', 'changed'] },
	C04: { formatCommand: '*' },
	K01: { keyboard: '*' },
	K02: { keys: '*', os: '*' },
	K03: { browserKeyboard: '*' },
	I01: { i18n: '*' },
	I02: { browserI18n: '*' },
	R01: { routes: ['navigate', 'start', 'config', 'configNothing', 'first', 'initial'] },
	R02: { routes: ['register', 'hasRoute', 'clearRoutes', 'stale', 'keep', 'drop', 'first', 'others'] },
	P01: { preferences: ['get', 'set', 'setNothing', 'update', 'clearAll', 'all', 'removed', 'others', 'cleared'] },
	P02: { preferences: ['typed', 'typedUpdate', 'roundTrip'], browserPreferences: ['typed'] },
	P03: { browserPreferences: ['get', 'set', 'setNothing', 'update', 'clearAll', 'stored', 'all', 'reload', 'own', 'cleared', 'apartCleared'] },
	P04: { apart: '*', commands: ['palette', 'registerPalette'], browserPreferences: ['apart', 'apartCleared'] },
	P05: { preferences: ['update', 'typedUpdate'], browserPreferences: ['update'] },
	A01: { app: '*' },
	L01: { log: '*' },
	B01: { browser: ['error', 'otherEvent', 'errors', 'onChange', 'cleanUp', 'recorded', 'plain:cleaned'] },
	B02: { browser: ['offers', 'fetch'], provided: '*', events: '*' },
	B03: { stubStorage: '*' },
	X01: { presets: '*' }
}
