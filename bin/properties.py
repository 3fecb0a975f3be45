#!/usr/bin/env python3
# writes properties.jsonl (the source of the texts)
import json
P=[]
ALL="every history of operations and every argument; every handler and updater, which may call back into the component while it runs"
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
L='libraries/states/src/'
IH=["inputs","histories"]
p("S01","A state or store holds exactly the value that was written last",
 "After a write of any value, reading a store gives that value (the identical value, for NaN, -0, undefined, objects and symbols alike) until the next write, whoever subscribes or unsubscribes in between. `set` returns the value that it wrote, `reset` writes the initial value again, and writing one store never changes another.",
 IH,ALL,"The tests write a few numbers and objects to fresh stores; the guarantee is for every value and for every interleaving with subscriptions and nested calls.",
 [L+'state.ts',L+'store.ts'],[('createState: set and reset',L+'state.ts'),('createStore: get follows the state',L+'store.ts')],[('value','the value held',L+'state.ts')],['get()','the result of set()'])
p("S02","Every change tells every subscriber once, in order, with new and previous value",
 "When a write changes the value of a state or store, each handler that is subscribed at that moment is called exactly once, in order of subscription, with the new value and the value it replaces, even if handlers subscribe or unsubscribe while they are being called. A direct write of the identical value (in the sense of Object.is) calls nobody, and a handler that reads the store during the notification reads the new value.",
 IH,ALL+"; no write is nested in a notification","The tests subscribe one or two handlers that do nothing else; a handler that unsubscribes itself or others during a notification, and any number of subscribers, are never tried.",
 [L+'state.ts',L+'store.ts'],[('notify: iterates over the handlers',L+'state.ts'),('createState.set: compares before it notifies',L+'state.ts')],[('handlers','subscribers in order',L+'state.ts')],['calls of the handlers'])
p("S03","Unsubscribing removes exactly the own subscription, once",
 "The function returned by `onChange` removes the subscription that it was returned for and no other; calling it again, after any other operations, has no effect. Subscribing a handler that is already subscribed changes nothing, and neither does calling the function that this returns.",
 IH,ALL,"The tests dispose one handler once; double disposal after other subscriptions came and went needs a history of several steps.",
 [L+'state.ts',L+'store.ts'],[('onChange: the returned disposer',L+'state.ts')],[('handlers','subscribers in order',L+'state.ts')])
p("S04","Updaters derive the new value; values once held are never modified",
 "For an updater function that finishes synchronously, the new value is what it returns, or the edited draft if it returns nothing, or undefined if it returns `nothing`; null, false, 0 and the empty string are values like any other. The previous value is never modified, every value held is frozen, with all plain data in it when it is what a synchronous updater produced, and a store whose initial value is a function treats functions as values and never calls them.",
 IH,ALL,"The tests use a few updaters on small objects and numbers; which result counts as a value has to hold for every result, and immutability for every edit.",
 [L+'state.ts',L+'immer.ts'],[('createState.set: updater branch',L+'state.ts')],[('value','the value held',L+'state.ts')])
p("S05","Asynchronous updaters take effect once, when they finish",
 "If an updater returns a promise, the value stays as it is until the promise is fulfilled; then the value becomes the fulfilled value (the edited draft if it is undefined, undefined if it is `nothing`, null stays null), subscribers are told once with the value that is being replaced at that moment, and the promise returned by `set` is fulfilled with the new value afterwards.",
 IH+["schedules"],"every updater, every time at which its promise settles, every sequence of other operations before that","The tests await one updater at a time; another write between the start and the end of an asynchronous update is never tried.",
 [L+'state.ts'],[('createState.set: promise branch',L+'state.ts')])
p("S06","A registry reports exactly its own entries",
 "`keys`, `has`, `size` and `values` of a registry agree with the record that `get` returns and count its own entries only: names that every object inherits (such as constructor or toString) are entries only when they were added, a removed entry is gone, and adding an entry adds no other. A registry created without a record has no entries.",
 IH,"every key (string or symbol), every record and every history of edits","The tests add a handful of ordinary names; inherited names, symbols and removal in arbitrary order are not covered.",
 [L+'registry.ts'],[('createRegistry: keys, has, size, values',L+'registry.ts')])
p("S07","add() applies the adder once to each entry, in order, as one change",
 "`add(...entries)` of a store with an adder applies the adder to each of the given entries exactly once, in the order given, on one draft, and this is a single change for subscribers; with `push` the entries follow the existing ones, with `unshift` each goes to the front. The list that was held before is not modified.",
 IH,"any number of entries, any adder, any content of the store","The tests add one or two entries.",
 [L+'adder.ts'],[('adder, withAdder, push, unshift',L+'adder.ts')])
p("S08","Read-only views follow the original and cannot change it",
 "The read-only view of a store or registry always reads what the original reads, its subscriptions are subscriptions to the original, and it offers no way to write: it has neither `set` nor `reset`.",
 IH,ALL,"Tests check the type and one value; the view has to follow every later change.",
 [L+'store.ts',L+'registry.ts'],[('toReadonlyStore',L+'store.ts'),('toReadonlyRegistry',L+'registry.ts')])
p("S09","States, stores and registries made by an app behave like any other",
 "`app.states.createState`, `createStore` and `createRegistry` make containers that behave as those made by the functions of the same name for the same initial value, each independent of all others; a logger given as meta data is used instead of the one of the app, and logging never changes a result.",
 IH,ALL,"The tests look at the initial value and at log messages.",
 [L+'states_gizmo.ts'],[('statesGizmo',L+'states_gizmo.ts')])
C='plugins/commands/src/'
p("C01","Invoking an id runs the handler registered for it last, with all arguments",
 "`handlers.invoke(id, ...args)` calls the handler that was registered last under exactly this id, once, with all arguments, and returns what it returns; when there is none, an error that names the id is logged and nothing is called, also for names that every object inherits. `has` and `keys` report exactly the ids that were registered.",
 IH,"every id, every argument list, every history of registrations","The tests register one handler and invoke it with up to one argument.",
 [C+'handlers.ts',C+'commands_gizmo.ts'],[('handlerRegistry: register, invoke',C+'handlers.ts')])
p("C02","A command runs its handler before connect and the app's handler after",
 "A command that is not connected calls the handler it was given or that was defined last, or else logs an error that names its id; once connected, it invokes its id in the app that it was connected to last. Connecting registers its handler under its id and adds its contributions exactly when it was declared with information, its key binding only when it has a key and the app has a keyboard.",
 IH,"every way to declare a command and every sequence of connect, defineHandler and calls","The tests follow the main path for each way to declare a command; combinations of define, connect and calls are open-ended.",
 [C+'command.ts'],[('command',C+'command.ts')])
p("C03","The first contribution of a command id stays, later ones are reported",
 "Adding command contributions keeps, for each id, the contribution that was added first, unchanged; every further one with the same id is ignored and reported with an error that names the id. Contributions of other ids in the same call are added nevertheless, and `add` is one change for subscribers.",
 IH,"any lists of contributions (initial ones have distinct ids) and any history of additions","The tests add one duplicate.",
 [C+'contributions.ts'],[('contributionRegistry',C+'contributions.ts')])
p("C04","The title of a command is the given one or derives from its id",
 "`formatCommand` keeps id, title and description as given; without a title it is the id without its namespace (everything after the first dot, the whole id if there is none) in sentence case.",
 ["inputs"],"every id and title","The tests try a few ids.",
 [C+'formatCommand.ts'],[('formatCommand',C+'formatCommand.ts')])
K='plugins/keyboard/src/'
p("K01","The first key binding of a command id stays, later ones are reported",
 "Adding key bindings keeps, for each id, the one that was added first, unchanged; every further one with the same id is ignored and reported with a warning that names the id. Key bindings of other ids in the same call are added nevertheless.",
 IH,"any lists of key bindings (initial ones have distinct ids) and any history of additions","The tests add one duplicate.",
 [K+'keyBindings.ts',K+'keyboard_gizmo.ts'],[('keyBindingRegistry',K+'keyBindings.ts')])
p("K02","Key bindings are those of the platform",
 "The formatted key of a binding is its mac key on a Mac when it has one, and its general key in every other case; `isMac` is true exactly when the operating system is OS X.",
 ["inputs","configurations"],"every binding and every operating system","The tests mock one platform.",
 [K+'keyBindings.ts','plugins/os/src/os.ts'],[('formatKeyBinding',K+'keyBindings.ts'),('isMac','plugins/os/src/os.ts')])
B='plugins/browser-keyboard/src/keyBindings.ts'
p("K03","After start and after every change exactly the current keys are bound",
 "Once the browser keyboard has started, and again after every change of the key bindings, exactly the keys of the current bindings of this platform are bound, each to the command of the first binding that uses it; a further binding of the same key is reported with a warning that names its id. Pressing a bound key invokes that command once and prevents the default action.",
 IH,"every set of key bindings on every platform, and every history of changes","The tests bind one or two keys.",
 [B],[('startKeyBindings, bindKey',B)])
I='plugins/i18n/src/i18n_gizmo.ts'
p("I01","The language is the one set last and everyone is told each time",
 "`getLanguage` gives the language that was set last or else the configured one; each `setLanguage` calls every handler that was added before, once, in order, with the new and the previous language, when the new one is already in effect. In an app with commands, the set-language command of that app does the same.",
 IH,ALL,"The tests set the language once with one handler.",
 [I,'plugins/i18n/src/commands.ts'],[('i18nGizmoFn',I)])
BI='plugins/browser-i18n/src/browser_i18n_gizmo.ts'
p("I02","The language is remembered for each app name until it is cleared",
 "In a browser app the language that was set last is the language of every later app of the same name, across reloads, until it is cleared; then it is the language of the browser again, at once and after a reload. Apps of other names are not affected.",
 IH,"every app name, every language (also the empty string), every content of the local storage and every history","The tests use one name and one language.",
 [BI,'plugins/browser-i18n/src/browser_i18n_gizmo.ctx.ts'],[('browserI18nGizmo',BI),('getStorageKey','plugins/browser-i18n/src/browser_i18n_gizmo.ctx.ts')])
R='plugins/routes/src/routes_gizmo.ts'
p("R01","Navigation runs the one handler of its target, or reports the target",
 "`navigate(route)` runs the handler registered for exactly this route once, and no other; if there is none, also for names every object inherits, an error that names the route is logged. Without a route the target is the initial route: the one configured last, or / if none was.",
 IH,"every route name and every history of registrations and configurations","The tests navigate to one registered route and to one unknown route.",
 [R],[('navigate, config',R)])
p("R02","A route keeps its first handler until that registration is removed",
 "A second registration of a route is ignored and reported with an error that names the route, and the function it returns does nothing. The function returned by a registration removes that registration and nothing else, at most once, whatever was registered or cleared since; `hasRoute` tells whether a route is registered, and `clearRoutes` removes all.",
 IH,ALL,"The tests unregister once; stale unregister functions need a history of several steps.",
 [R],[('register, hasRoute, clearRoutes',R)])
M='plugins/preferences/src/'
p("P01","A preference reads as it was set last, or else as its default",
 "`preferences.get(key, default)` gives the value that was set last for this key, or the default if it was never set or was removed; setting undefined or `nothing` removes it, an updater function gets the current value and its result is set, and other keys are not affected. `clearAll` removes the preferences of this app, all of them.",
 IH,"every key (also inherited names) and value, every updater, every history","The tests set and get a few keys.",
 [M+'memory_preferences_gizmo.ts'],[('memoryPreferencesGizmo',M+'memory_preferences_gizmo.ts')])
p("P02","A typed preference store round-trips JSON values",
 "The value that a typed preference store was set to is read again as an equal value; without a value its default is read. An updater gets the current value or a copy of the default, what it returns (or the value it edited in place when it returns nothing) is stored, `nothing` and undefined remove the value, and a default is never modified.",
 IH,"every JSON value, every default, every updater and history","The tests use one or two values.",
 [M+'preferences_gizmo.ts'],[('createStore',M+'preferences_gizmo.ts')])
BP='plugins/browser-preferences/src/browser_preferences_gizmo.ts'
p("P03","Browser preferences survive reloads unchanged, kept by app and key",
 "In a browser app a preference that was set is read again unchanged, for every text, by every later app of the same name, and is gone after it was removed; it is kept in the local storage under an entry of its own for each pair of app name and key. Nothing else in the local storage is modified by setting a preference.",
 IH,"every app name without a colon, every key and every well-formed text, every content of the local storage","The tests use a few keys and ASCII values.",
 [BP],[('browserPreferencesGizmo',BP)])
p("P04","Preferences and commands of several apps in one page are kept apart",
 "When several apps live in one page, the preferences, the command palette, the set-language command and other shared commands of each act on that app alone: setting, reading and clearing in one never changes or reads what the other keeps.",
 IH+["configurations"],"any interleaving of operations of two apps, created in any order","Every test creates one app.",
 [M+'preferences_gizmo.ts',M+'preferences.ts','plugins/commands/src/commands_gizmo.ts'],[('invoke: through the handlers of its own app',M+'preferences_gizmo.ts')])
p("P05","The promise of an asynchronous preference update settles after it is stored",
 "When a preference is set with an updater that returns a promise, nothing is changed before that promise is fulfilled, and the promise that `set` returns is fulfilled only when the new value can be read.",
 IH+["schedules"],"every updater and every time at which its promise settles","The tests await one update.",
 [M+'preferences_gizmo.ts',M+'memory_preferences_gizmo.ts',BP],[('set',M+'preferences_gizmo.ts')])
A='frameworks/app/src/just_app.logic.ts'
p("A01","An app has its name, an id of its own and every gizmo's values",
 "An app that was created has the name it was given, an id of exactly 15 lower-case letters and digits, and the values of all its gizmos; every start function runs once, and the creation is logged once with the id.",
 ["inputs","configurations","histories"],"every name and every list of gizmos","The tests create apps with a few gizmos; the length of an id depends on random numbers.",
 [A,'frameworks/app/src/just_app.ts','frameworks/id/src/id_gizmo.logic.ts'],[('incubateApp',A),('genAppID','frameworks/id/src/id_gizmo.logic.ts')])
p("L01","Loggers carry the name of the app",
 "`app.log` logs under the name of the app with every standard and custom level; `getLogger(id)` and `getNonConsoleLogger(id)` give loggers named after app and id, `getLogger()` the one of the app, and prefixed variants put the prefix in between; the options given with an id are passed on.",
 ["inputs","configurations"],"every name, id, prefix and set of custom levels","The tests try a few ids.",
 ['frameworks/log/src/log_gizmo.logic.ts','frameworks/log/src/logger.ts'],[('buildLogContext','frameworks/log/src/log_gizmo.logic.ts')])
BR='plugins/browser/src/'
p("B01","Every error event of the page is recorded once, in order, and reported",
 "From the creation of the browser gizmo on, every error event of the page adds exactly one error with its message, source, line, column and cause (the error that was thrown, if it is an object) to the errors, after those before, is logged as an error, and tells subscribers once. The default action is prevented exactly when so configured, and nothing is recorded after the clean-up.",
 IH+["configurations"],"every error event and every sequence of them","The tests throw one error.",
 [BR+'browser_gizmo.ts',BR+'error_store.ts',BR+'errors.ts'],[('browserGizmoFn: listener',BR+'browser_gizmo.ts')])
p("B02","What is given takes precedence over the app, and the app over the page",
 "The fetch function of a browser app is the one given as an option, or else the one of the app, or else the one of the page; in a test app each of the storages, navigator and location that is given replaces the one of the page, and the others stay. A fetch or history gizmo offers the given one or else the one of the platform, and an event or formatjs gizmo is built from exactly the given options; errors of event listeners go to the log of the app.",
 ["inputs","configurations"],"every combination of options","The tests try single options.",
 [BR+'browser_gizmo.ts',BR+'browser_gizmo.testing.ts','plugins/fetch/src/fetch_gizmo.ts','plugins/history/src/history_gizmo.ts'],[('browserGizmoFn, browserTestGizmoFn',BR+'browser_gizmo.ts')])
p("B03","The stubbed storage behaves like a Storage",
 "The stubbed storage holds, for each key, the text set last until it is removed or cleared and gives null otherwise; `length` is the number of keys, and `key(i)` gives each key exactly once for the indexes below it, in the order in which they were added, and null for every other index.",
 IH,"every key, value, index and history","The tests use two keys.",
 [BR+'browser_gizmo.testing.ts'],[('stubStorage',BR+'browser_gizmo.testing.ts')])
p("X01","The browser preset is the sum of its parts and nothing else",
 "An app with the browser preset has what the browser, browser-preferences and history gizmos provide, with their options, and leaves name, id, log, commands and keyboard of the app as they are.",
 ["inputs","configurations"],"every combination of options","The tests check that the properties exist.",
 ['presets/browser/src/presets_browser_gizmo.ts'],[('presetsBrowserGizmoFn','presets/browser/src/presets_browser_gizmo.ts')])
import os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(os.path.join(here,'properties.jsonl'),'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
