From 0668b8b6be380f78853ff5827b2af53fc66b43a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:14 +0000
Subject: [PATCH 01/17] fix: disposing a state subscription twice must not
 remove another handler

---
 libraries/states/src/state.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index 3a07c93..58dfdac 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -88,7 +88,10 @@ export function createState<T>(
 		if (handlers.includes(handler)) return () => {}
 		log.on(logLevels.trace, log => log(`new onChange handler: ${tersify(handler)}`))
 		handlers.push(handler)
+		let subscribed = true
 		return () => {
+			if (!subscribed) return
+			subscribed = false
 			handlers.splice(handlers.indexOf(handler), 1)
 		}
 	}
-- 
2.43.0


From e93941f7d1a2ba70db01699c1d7073c435660fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:14 +0000
Subject: [PATCH 02/17] fix: notify every state handler when one unsubscribes
 during the notification

---
 libraries/states/src/state.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index 58dfdac..d1b4260 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -49,7 +49,8 @@ export function createState<T>(
 
 	function notifyAfterSet(old: T, value: T) {
 		log.planck('state changed:', old, value)
-		handlers.forEach(h => {
+		// iterate a copy, so that a handler can (un)subscribe without affecting the others
+		handlers.slice().forEach(h => {
 			h(value, old)
 		})
 		return value
-- 
2.43.0


From 5596df11a99c618be95ac74839f6d9aabafd6ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:14 +0000
Subject: [PATCH 03/17] fix: async state updater resolving to nothing or null,
 and its previous value

---
 libraries/states/src/state.ts | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index d1b4260..8432ba3 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -73,11 +73,9 @@ export function createState<T>(
 			})
 			if (p) {
 				return p.then(v => {
-					if (v === nothing) {
-						return notifyAfterSet(old, undefined as any)
-					}
-					value = Object.freeze(v ?? r)
-					return notifyAfterSet(old, value)
+					const prev = value
+					value = v === nothing ? (undefined as T) : Object.freeze(v === undefined ? r : v)
+					return notifyAfterSet(prev, value)
 				})
 			}
 			value = Object.freeze(r)
-- 
2.43.0


From cf48f3b98a7c79e5d2fcf1b022b99a7822dfb4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 04/17] fix: registry must not report names inherited from
 Object.prototype as its entries

---
 libraries/states/src/registry.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libraries/states/src/registry.ts b/libraries/states/src/registry.ts
index 4257f89..baa5b4a 100644
--- a/libraries/states/src/registry.ts
+++ b/libraries/states/src/registry.ts
@@ -1,4 +1,4 @@
-import { type KeyTypes, pick, type Widen } from 'type-plus'
+import { type KeyTypes, pick, record, type Widen } from 'type-plus'
 import type { OnStateChange, ResetState, SetState, StateMeta } from './state.js'
 import { createStore } from './store.js'
 
@@ -22,7 +22,7 @@ export type Registry<K extends KeyTypes, T> = ReadonlyRegistry<K, T> & {
 export type RegistryValue<R extends Registry<any, any>> = ReturnType<R['get']>
 
 export function createRegistry<K extends KeyTypes, T>(
-	init = {} as Record<K, T>,
+	init = record() as Record<K, T>,
 	meta?: StateMeta
 ): Registry<Widen<K>, T> {
 	const store = createStore<Record<Widen<K>, T>>(init as any, meta)
@@ -33,7 +33,7 @@ export function createRegistry<K extends KeyTypes, T>(
 			return [...Object.keys(r), ...Object.getOwnPropertySymbols(r)] as Widen<K>[]
 		},
 		has(key) {
-			return store.get()[key] !== undefined
+			return Object.prototype.hasOwnProperty.call(store.get(), key)
 		},
 		size() {
 			return this.keys().length
-- 
2.43.0


From 75bbdb19dbf1262697a30bc2b542f7dbd6326515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 05/17] fix: invoking a command must not call methods inherited
 from Object.prototype

---
 plugins/commands/src/handlers.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/plugins/commands/src/handlers.ts b/plugins/commands/src/handlers.ts
index a1a1352..7b99d20 100644
--- a/plugins/commands/src/handlers.ts
+++ b/plugins/commands/src/handlers.ts
@@ -19,8 +19,7 @@ export function handlerRegistry({ log }: LogGizmo, options?: handlerRegistry.Opt
 		 */
 		register(id: string, handler: AnyFunction) {
 			logger.trace('register', id)
-			const commands = registry.get()
-			if (commands[id]) {
+			if (registry.has(id)) {
 				logger.notice(`Registering a new handler for '${id}'. Please make sure this is expected.`)
 				logger.on(logLevels.debug, log => log(`overrideing handler: ${tersify(handler)}`))
 			}
@@ -30,7 +29,7 @@ export function handlerRegistry({ log }: LogGizmo, options?: handlerRegistry.Opt
 		},
 		invoke(id: string, ...args: any[]) {
 			logger.trace('invoke', id)
-			const handler = registry.get()[id]
+			const handler = registry.has(id) ? registry.get()[id] : undefined
 			return handler ? handler(...args) : logger.error(`Invoking not registered command: '${id}'`)
 		},
 		keys: registry.keys.bind(registry),
-- 
2.43.0


From c360245735f97174c52bbd21dcdc7d7513efd007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 06/17] fix: generated title of a command id without a dot

---
 plugins/commands/src/formatCommand.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/commands/src/formatCommand.ts b/plugins/commands/src/formatCommand.ts
index 72db5a9..f0a8147 100644
--- a/plugins/commands/src/formatCommand.ts
+++ b/plugins/commands/src/formatCommand.ts
@@ -11,5 +11,5 @@ export function formatCommand(cmd: CommandContribution) {
 
 function generateTitle(command: string) {
 	const i = command.indexOf('.')
-	return sentenceCase(command.slice(i))
+	return sentenceCase(command.slice(i + 1))
 }
-- 
2.43.0


From 40c743d1f413b498691e01dac65f70316af40987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 07/17] fix: app id must always be 15 characters long

---
 frameworks/id/src/id_gizmo.logic.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frameworks/id/src/id_gizmo.logic.ts b/frameworks/id/src/id_gizmo.logic.ts
index b4c7ec3..05020a0 100644
--- a/frameworks/id/src/id_gizmo.logic.ts
+++ b/frameworks/id/src/id_gizmo.logic.ts
@@ -1,5 +1,5 @@
 export const logic = {
 	genAppID() {
-		return (Math.random().toString(36).slice(2) + Math.random().toString(36).slice(2)).substring(0, 15)
+		return (Math.random().toString(36).slice(2) + Math.random().toString(36).slice(2)).substring(0, 15).padEnd(15, '0')
 	}
 }
-- 
2.43.0


From 804e677451f17caac35a16787c27d40db7db23c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 08/17] fix: a route's unregister function must only remove its
 own registration

---
 plugins/routes/src/routes_gizmo.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plugins/routes/src/routes_gizmo.ts b/plugins/routes/src/routes_gizmo.ts
index 4729900..e120982 100644
--- a/plugins/routes/src/routes_gizmo.ts
+++ b/plugins/routes/src/routes_gizmo.ts
@@ -40,9 +40,12 @@ export const routesGizmo = define({
 					s.routes[route] = handler
 				})
 
+				let registered = true
 				return () => {
+					if (!registered) return
+					registered = false
 					store.set(s => {
-						delete s.routes[route]
+						if (s.routes[route] === handler) delete s.routes[route]
 					})
 				}
 			},
-- 
2.43.0


From dad78888ba328c83c2982a11e307eb41f03267f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 09/17] fix: remove or keep a preference according to what its
 update handler returns

---
 .../browser-preferences/src/browser_preferences_gizmo.ts   | 3 +--
 plugins/preferences/src/memory_preferences_gizmo.ts        | 5 ++---
 plugins/preferences/src/preferences_gizmo.ts               | 7 +++++--
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/plugins/browser-preferences/src/browser_preferences_gizmo.ts b/plugins/browser-preferences/src/browser_preferences_gizmo.ts
index f89b76b..cf2a4b8 100644
--- a/plugins/browser-preferences/src/browser_preferences_gizmo.ts
+++ b/plugins/browser-preferences/src/browser_preferences_gizmo.ts
@@ -4,7 +4,6 @@ import type { CommandsGizmo } from '@just-web/commands'
 import type { KeyboardGizmo } from '@just-web/keyboard'
 import { clearAllUserPreferences, getUserPreference, preferencesGizmo, setUserPreference } from '@just-web/preferences'
 import { isNothing } from '@just-web/states'
-import { produce } from 'immer'
 import { decode, encode } from 'js-base64'
 import { MaybePromise } from 'type-plus'
 
@@ -32,7 +31,7 @@ export const browserPreferencesGizmo = define({
 		setUserPreference.connect(ctx, async (key, value) => {
 			const k = getKey(ctx.name, key)
 			const original = getItem(k)
-			const v = typeof value === 'function' ? produce(original, value as any) : value
+			const v: any = typeof value === 'function' ? value(original) : value
 			MaybePromise.transform(v, v => {
 				if (isNothing(v) || v === undefined) {
 					ctx.log.trace(`set: clear '${k}'`)
diff --git a/plugins/preferences/src/memory_preferences_gizmo.ts b/plugins/preferences/src/memory_preferences_gizmo.ts
index facb62b..455325d 100644
--- a/plugins/preferences/src/memory_preferences_gizmo.ts
+++ b/plugins/preferences/src/memory_preferences_gizmo.ts
@@ -2,7 +2,6 @@ import { define, incubate } from '@just-web/app'
 import type { CommandsGizmo } from '@just-web/commands'
 import type { KeyboardGizmo } from '@just-web/keyboard'
 import { isNothing } from '@just-web/states'
-import { produce } from 'immer'
 import { MaybePromise, record } from 'type-plus'
 import { clearAllUserPreferences, getUserPreference, setUserPreference } from './preferences.js'
 import { preferencesGizmo } from './preferences_gizmo.js'
@@ -33,9 +32,9 @@ export const memoryPreferencesGizmo = define({
 		let storage = record<string, any>()
 		getUserPreference.connect(ctx, (key, defaultValue) => storage[key] ?? defaultValue)
 		setUserPreference.connect(ctx, (key, value) => {
-			const v = typeof value === 'function' ? produce(storage[key], value as any) : value
+			const v: any = typeof value === 'function' ? value(storage[key]) : value
 			return MaybePromise.transform(v, v => {
-				if (isNothing(v)) delete storage[key]
+				if (isNothing(v) || v === undefined) delete storage[key]
 				else storage[key] = v
 			})
 		})
diff --git a/plugins/preferences/src/preferences_gizmo.ts b/plugins/preferences/src/preferences_gizmo.ts
index bfa31bb..e481513 100644
--- a/plugins/preferences/src/preferences_gizmo.ts
+++ b/plugins/preferences/src/preferences_gizmo.ts
@@ -49,10 +49,13 @@ export const preferencesGizmo = define({
 					function set(value: SetStateValue<T | undefined> | undefined) {
 						if (isType<Updater<T>>(value, value => typeof value === 'function')) {
 							return self.set(key, v => {
-								const orig: T = v !== undefined ? JSON.parse(v) : defaultValue
+								const s = v ?? (defaultValue !== undefined ? JSON.stringify(defaultValue) : undefined)
+								const orig: T | undefined = s !== undefined ? JSON.parse(s) : undefined
 								return MaybePromise.transform(value(orig as any), v => {
 									if (isNothing(v)) return v
-									if (v !== undefined) return JSON.stringify(v)
+									// `orig` is updated in-place when there is no result
+									const r = v !== undefined ? v : orig
+									return r !== undefined ? JSON.stringify(r) : undefined
 								})
 							})
 						}
-- 
2.43.0


From ce2cc8f362e44490b06b9e49140ce9fd8edf0722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 10/17] fix: setting a browser preference must not settle
 before the value is stored

---
 plugins/browser-preferences/src/browser_preferences_gizmo.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/browser-preferences/src/browser_preferences_gizmo.ts b/plugins/browser-preferences/src/browser_preferences_gizmo.ts
index cf2a4b8..4b2a0e8 100644
--- a/plugins/browser-preferences/src/browser_preferences_gizmo.ts
+++ b/plugins/browser-preferences/src/browser_preferences_gizmo.ts
@@ -32,7 +32,7 @@ export const browserPreferencesGizmo = define({
 			const k = getKey(ctx.name, key)
 			const original = getItem(k)
 			const v: any = typeof value === 'function' ? value(original) : value
-			MaybePromise.transform(v, v => {
+			return MaybePromise.transform(v, v => {
 				if (isNothing(v) || v === undefined) {
 					ctx.log.trace(`set: clear '${k}'`)
 					localStorage.removeItem(k)
-- 
2.43.0


From 827b1c32b5f944781db62740399e0d07f29d49df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 11/17] fix: preferences of an app must not be redirected to
 the app created last

---
 plugins/preferences/src/preferences_gizmo.ts | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/plugins/preferences/src/preferences_gizmo.ts b/plugins/preferences/src/preferences_gizmo.ts
index e481513..5c1ff36 100644
--- a/plugins/preferences/src/preferences_gizmo.ts
+++ b/plugins/preferences/src/preferences_gizmo.ts
@@ -1,8 +1,8 @@
 import { define } from '@just-web/app'
-import type { CommandsGizmo } from '@just-web/commands'
+import type { Command, CommandsGizmo } from '@just-web/commands'
 import type { KeyboardGizmo } from '@just-web/keyboard'
 import { isNothing, type SetStateValue, type Updater } from '@just-web/states'
-import { type AnyFunction, extractFunction, isType, type JSONTypes, MaybePromise } from 'type-plus'
+import { type AnyFunction, type ExtractFunction, isType, type JSONTypes, MaybePromise } from 'type-plus'
 import { clearAllUserPreferences, getUserPreference, setUserPreference } from './preferences.js'
 
 export type { SetStateValue }
@@ -23,12 +23,14 @@ export type { SetStateValue }
  */
 export const preferencesGizmo = define({
 	static: define.require<CommandsGizmo>().optional<KeyboardGizmo>(),
-	async create() {
+	async create({ commands }) {
 		return {
 			preferences: {
-				get: extractFunction(getUserPreference),
-				set: extractFunction(setUserPreference),
-				clearAll: extractFunction(clearAllUserPreferences),
+				// The commands are shared by all apps in the page.
+				// So they have to be invoked through the handlers of this app.
+				get: invoke(commands, getUserPreference),
+				set: invoke(commands, setUserPreference),
+				clearAll: invoke(commands, clearAllUserPreferences),
 				/**
 				 * Creates a [store](https://github.com/justland/just-web/tree/main/libraries/states#createstore) for a specific key.
 				 *
@@ -76,4 +78,8 @@ export const preferencesGizmo = define({
 	}
 })
 
+function invoke<F extends AnyFunction>({ handlers }: CommandsGizmo['commands'], { id }: Command<F>) {
+	return ((...args: Parameters<F>) => handlers.invoke(id, ...args)) as ExtractFunction<F>
+}
+
 export type PreferencesGizmo = define.Infer<typeof preferencesGizmo>
-- 
2.43.0


From 7288e50b24bbaa3f2da08df9a1eeebb988099cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 12/17] fix: contribute the set language command to the app

---
 plugins/i18n/src/i18n_gizmo.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/plugins/i18n/src/i18n_gizmo.ts b/plugins/i18n/src/i18n_gizmo.ts
index 08add07..9d74541 100644
--- a/plugins/i18n/src/i18n_gizmo.ts
+++ b/plugins/i18n/src/i18n_gizmo.ts
@@ -34,8 +34,7 @@ export const i18nGizmoFn = define((options: I18nGizmoOptions) => ({
 			}
 		}
 		if (commands) {
-			setLanguageCommand.connect({ commands, keyboard })
-			commands.handlers.register(setLanguageCommand.id, gizmo.i18n.setLanguage)
+			setLanguageCommand.connect({ commands, keyboard }, gizmo.i18n.setLanguage)
 		}
 
 		return gizmo
-- 
2.43.0


From 0ba9addb09e863e155e4f107d0165141034124b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 13/17] fix: a key spelled with cmd or command is the same key
 binding

---
 plugins/browser-keyboard/src/keyBindings.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/plugins/browser-keyboard/src/keyBindings.ts b/plugins/browser-keyboard/src/keyBindings.ts
index a023dcd..9caca48 100644
--- a/plugins/browser-keyboard/src/keyBindings.ts
+++ b/plugins/browser-keyboard/src/keyBindings.ts
@@ -29,12 +29,13 @@ function bindKey(
 	const key = getKey({ os }, keyBinding)
 	if (key) {
 		const log = logContext.getLogger('@just-web/browser-keyboard')
-		if (keys[key]) {
+		const mousetrapKey = toMousetrapKey(key)
+		if (keys[mousetrapKey]) {
 			log.warn(`Registering a duplicate key binding, ignored: ${keyBinding.id} - ${key}`)
 		} else {
-			keys[key] = true
+			keys[mousetrapKey] = true
 			log.trace(`binding: ${key} -> ${keyBinding.id}`)
-			Mousetrap.bind(toMousetrapKey(key), e => {
+			Mousetrap.bind(mousetrapKey, e => {
 				log.trace(`trigger ${key}`)
 				if (e.preventDefault) e.preventDefault()
 				commands.handlers.invoke(keyBinding.id)
@@ -50,5 +51,5 @@ function getKey(ctx: OSGizmo, keyBinding: any): string {
 }
 
 function toMousetrapKey(key: string) {
-	return key.replace(/cmd\+/, 'command+')
+	return key.replace(/cmd\+/g, 'command+')
 }
-- 
2.43.0


From ea24f88706a8657c2813fb1ebe07a9dd471ba0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:25 +0000
Subject: [PATCH 14/17] fix: stubbed storage has no key at a negative index

---
 plugins/browser/src/browser_gizmo.testing.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugins/browser/src/browser_gizmo.testing.ts b/plugins/browser/src/browser_gizmo.testing.ts
index f5d478f..8eb1c49 100644
--- a/plugins/browser/src/browser_gizmo.testing.ts
+++ b/plugins/browser/src/browser_gizmo.testing.ts
@@ -45,7 +45,8 @@ export function stubStorage(): Storage {
 		key(index) {
 			let c = 0
 			for (const e of m.keys()) {
-				if (++c > index) return e
+				// `Storage` takes the index as an unsigned long
+				if (c++ === index >>> 0) return e
 			}
 			return null
 		},
-- 
2.43.0


From 55e230b6934f02e02bb84a0447a17e24d92c775a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:41 +0000
Subject: [PATCH 15/17] fix: unregistering a route that was cleared must not
 remove a later registration of the same handler

---
 plugins/routes/src/routes_gizmo.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plugins/routes/src/routes_gizmo.ts b/plugins/routes/src/routes_gizmo.ts
index e120982..68cbbf0 100644
--- a/plugins/routes/src/routes_gizmo.ts
+++ b/plugins/routes/src/routes_gizmo.ts
@@ -20,6 +20,7 @@ export const routesGizmo = define({
 			routes: record()
 		})
 		const log = ctx.log.getLogger('@just-web/routes')
+		let timesCleared = 0
 		const routes = {
 			navigate(route?: string) {
 				route = route ?? store.get().config.initialRoute
@@ -40,12 +41,14 @@ export const routesGizmo = define({
 					s.routes[route] = handler
 				})
 
+				const registeredAt = timesCleared
 				let registered = true
 				return () => {
 					if (!registered) return
 					registered = false
+					if (registeredAt !== timesCleared) return
 					store.set(s => {
-						if (s.routes[route] === handler) delete s.routes[route]
+						delete s.routes[route]
 					})
 				}
 			},
@@ -53,6 +56,7 @@ export const routesGizmo = define({
 				return hasRoute(store, route)
 			},
 			clearRoutes() {
+				timesCleared++
 				clearRoutes(store)
 			},
 			config(options: RoutesConfigOptions) {
-- 
2.43.0


From 15758f9078d0d720eb0683750f7c80e1ce7215a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:42 +0000
Subject: [PATCH 16/17] fix: showing the command palette of an app must not
 show the one of the app connected last

---
 plugins/commands/src/commands_gizmo.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plugins/commands/src/commands_gizmo.ts b/plugins/commands/src/commands_gizmo.ts
index 10512bd..82b3444 100644
--- a/plugins/commands/src/commands_gizmo.ts
+++ b/plugins/commands/src/commands_gizmo.ts
@@ -1,6 +1,6 @@
 import { type DepBuilder, define, type GizmoStatic, type LogGizmo } from '@just-web/app'
 import type { KeyboardGizmo } from '@just-web/keyboard'
-import { type AnyFunction, extractFunction } from 'type-plus'
+import type { AnyFunction } from 'type-plus'
 import { showCommandPalette } from './commands.js'
 import { contributionRegistry } from './contributions.js'
 import { handlerRegistry } from './handlers.js'
@@ -35,7 +35,9 @@ export const commandsGizmoFn: (options?: CommandsGizmoOptions) => GizmoStatic<
 			commands: {
 				contributions,
 				handlers,
-				showCommandPalette: extractFunction(showCommandPalette)
+				// The command is shared by all apps in the page.
+				// So it has to be invoked through the handlers of this app.
+				showCommandPalette: () => handlers.invoke(showCommandPalette.id)
 			}
 		}
 	}
-- 
2.43.0


From 0cd2131143c209d83d2cae60a4e517fc2208ade8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:01 +0000
Subject: [PATCH 17/17] fix: a state whose updater sets the state itself told
 the value before that as the previous one

---
 libraries/states/src/state.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index 8432ba3..d494867 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -61,7 +61,7 @@ export function createState<T>(
 	) {
 		if (Object.is(value, newValue)) return newValue
 
-		const old = value
+		let old = value
 		if (typeof init === 'function' || typeof newValue !== 'function') {
 			value = Object.freeze(newValue as T)
 		} else {
@@ -78,6 +78,8 @@ export function createState<T>(
 					return notifyAfterSet(prev, value)
 				})
 			}
+			// the updater may have set the state itself
+			old = value
 			value = Object.freeze(r)
 		}
 		return notifyAfterSet(old, value)
-- 
2.43.0

