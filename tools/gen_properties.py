"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
L = "src/reactpy/core/layout.py"; H = "src/reactpy/core/hooks.py"; K = "src/reactpy/core/_life_cycle_hook.py"
V = "src/reactpy/core/vdom.py"; E = "src/reactpy/core/events.py"; S = "src/reactpy/core/serve.py"; U = "src/reactpy/utils.py"
JS = "src/js/packages/@reactpy/client/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "A client that applies every update in order ends up seeing the current state",
  "Once no update is pending, a client that applied every update the layout handed out, in that order, shows exactly what a fresh rendering of the component tree in its current state would show. This holds whatever the timing of state changes, event deliveries, slow consumers and slow clean-ups, including when a parent and its descendants re-render, move or disappear at overlapping times. Asking for the next update always returns as soon as one exists.",
  ["schedules", "histories"], "all interleavings (to a bound) of state changes, events, consumer pace and cleanup delays with the layout's own steps",
  "The layout tests await each render before causing the next change, so overlapping renders, late consumers and cancelled renders are never explored.",
  [L, K, H], [("parallel and serial render loops", L + ":_parallel_render/_serial_render"), ("update creation and commit into the parent", L + ":_create_layout_update"), ("scheduling and de-duplication", L + ":_schedule_render_task")],
  ["messages returned by Layout.render()"], [("pending renders", "renders which were scheduled and not yet handed out", L)])
p("C02", "Each update is valid and addresses a place that exists in the client's view",
  "Every update a layout hands out is JSON-serializable, conforms to the published view schema, and its path addresses a node that already exists in the view obtained by applying all earlier updates. The first update always replaces the whole view.",
  ["schedules", "inputs", "histories"], "all bounded component trees, mutations and interleavings",
  "Tests compare a few hand-written messages; stale paths only arise when renders of related components overlap or siblings move.",
  [L, V], [("path computation", L + ":_ModelState.patch_path"), ("schema validation", V + ":validate_vdom_json")], ["messages returned by Layout.render()"])
p("C03", "Component state follows (key, type) and is never lost, leaked or shared",
  "Between two renderings of the same parent element, a child component keeps its state exactly when the same position-or-key holds the same component type, and otherwise starts from fresh initial state; no two live components ever share state. A keyed child keeps its state wherever it is moved among its siblings, and a removed child's state is never resurrected.",
  ["histories", "inputs"], "all sequences (bounded) of child lists over a small alphabet of keyed/unkeyed components, elements, text and nothing",
  "Tests check a handful of key shuffles; the guarantee is over every transition between child lists, including type changes and mixed keyed/unkeyed lists.",
  [L], [("reconciliation of children", L + ":_render_model_children/_render_component/_render_model/_get_children_info")], ["rendered state of each component instance"])
p("C04", "Effects run after the render that requested them and are cleaned up exactly once",
  "An effect runs only after its render has completed and exactly when one of its dependencies changed since it last ran (or always, when it has none), the previous clean-up runs exactly once before the effect runs again, and after the component is removed or the layout is closed every started effect has been cleaned up exactly once and none runs any more. This holds for any history of renders, moves, removals and closing, even while several renders are in flight.",
  ["histories", "schedules"], "all bounded histories of dependency values, re-renders, unmounts and closes, and the points at which they land",
  "Tests run single effects through fixed sequences with awaits in between; overlapping renders, removal before the effect started and closing in between are not covered.",
  [H, K, L], [("effect hook", H + ":use_effect"), ("life cycle", K + ":affect_layout_did_render/affect_component_will_unmount")], ["start and clean-up callbacks of user effects"])
p("C05", "Async effects never overlap, are cancelled if superseded, and always cleaned up",
  "At most one run of an asynchronous effect is ever in progress; a superseded or removed run is cancelled (or, when shielded, awaited to completion) before its successor starts, and every clean-up function an effect run returned is called exactly once, before the next run or at removal. No ordering of effect completion, re-render and removal breaks this.",
  ["schedules", "histories"], "all orders of effect completion, dependency change, removal and layout close up to a bound",
  "Tests cover one superseded effect and one unmount; three overlapping generations, completion racing with removal and shielded completion are not covered.",
  [H, K], [("async effect hook", H + ":use_async_effect")], ["effect start/finish/cancel/clean-up callbacks"])
p("C06", "An event runs exactly the handler shown at its element, and nothing else",
  "Delivering an event addressed to a handler of the currently displayed view runs the handler function given in the most recent rendering of that element exactly once, with the event's data in order, and no other handler. Events addressed to elements that no longer exist or never existed run nothing and disturb nothing; distinct elements in a view never share an address.",
  ["histories", "inputs", "schedules"], "all bounded view histories, key spellings and event targets",
  "Tests fire one or two events at simple views; collisions between keys, nested keys and indices, and reuse of addresses across renders need the whole space.",
  [L, E], [("event registration and addressing", L + ":_render_model_attributes/_ModelState.key_path"), ("delivery", L + ":deliver/_process_event_queue")], ["handler invocations"])
p("C07", "Events for one handler run one at a time in order; others are never blocked",
  "Events addressed to the same handler are processed one at a time in the order they were delivered, without loss or duplication, however slow the handler and however many events queue up. A handler that is slow, never finishes or raises neither delays events for other handlers nor prevents later events for itself from being processed after it ends.",
  ["schedules", "fault_sequences"], "all interleavings of deliveries, handler completions and failures, and queue limits, to a bound",
  "One test blocks one handler and fires one other event; back-pressure, errors and arrival order are not explored.",
  [L, S], [("per-target queues and workers", L + ":deliver/_process_event_queue"), ("incoming loop", S + ":_single_incoming_loop")], ["handler start/finish order"])
p("C08", "State updates are never lost and equal values cause no re-render",
  "After any sequence of direct and functional updates the state equals the left fold of those updates over the initial value, functional updates always receive the latest value, every change of value leads to a later rendering that shows it, and assigning an equal value causes none. Several updates made before a rendering starts are combined into one rendering.",
  ["histories", "schedules"], "all bounded sequences of updates from handlers, effects and renders, at any point relative to running renders",
  "Tests perform one or two updates and await; updates racing with a render in progress are not covered.",
  [H, K, L], [("state hook", H + ":use_state/_CurrentState"), ("render de-duplication", K + ":schedule_render")], ["rendered values", "render counts"])
p("C09", "Memos, callbacks, refs and reducers follow their contract over any history",
  "A memoized value is recomputed exactly when a dependency differs from the dependency list of the last successful computation (always without dependencies), a memoized callback keeps its identity while its dependencies are unchanged, refs and dispatch functions keep their identity for the life of the component, and reducers apply actions in order. No rendering ever returns a value computed for other dependencies, even after a computation raised. Dependencies that are not given are the variables the function refers to, and debug values are logged exactly when they change, in debug mode only.",
  ["histories", "inputs"], "all bounded sequences of dependency lists (lengths, types, equal and identical values, absent) and outcomes (value or exception)",
  "Tests check single transitions; mixed histories such as None, (), (1,), raising computations in between are not covered.",
  [H], [("memo", H + ":use_memo/_Memo"), ("callback/ref/reducer", H + ":use_callback/use_ref/use_reducer"), ("equality", H + ":strictly_equal")], ["values returned by hooks"])
p("C10", "A context read returns the nearest enclosing provider's latest value",
  "Reading a context returns the value of the nearest enclosing provider of that context in the current tree, or the default when there is none, for every component, nesting, shadowing and order of re-rendering. A changed provider value reaches every reader below it, and providers never affect components that are not below them.",
  ["histories", "schedules", "inputs"], "all bounded trees of providers and readers, and all histories of value changes, moves and partial re-renders",
  "Tests cover linear trees; sibling leakage, partial re-render after a provider change and nested shadowing histories need enumeration.",
  [H, K, L], [("provider registration", K + ":set_current/set_context_provider"), ("read", H + ":use_context")], ["values rendered by readers"])
p("C11", "A component that raises is contained, leaks nothing, and can recover",
  "When rendering a component raises, that component is displayed as an error node and every component outside it keeps rendering, keeps its state and keeps handling events. Components below the failed one are properly removed with their effects cleaned up, a later successful rendering displays the component normally again, and error details are shown only in debug mode.",
  ["histories", "fault_sequences", "configurations"], "every position of a raising component in bounded trees, every history of failing and succeeding renders",
  "Tests make one component raise once at first render; failures on re-render with mounted children, nested failures and recovery histories are not covered.",
  [L], [("error handling in component rendering", L + ":_render_component")], ["updates", "effect clean-ups", "handler invocations"])
p("C12", "Closing a layout at any moment stops everything it started",
  "Whatever is in progress when a layout is closed, closing completes without raising, every running effect is cleaned up, every handler and render in progress is cancelled, and afterwards no component renders, no effect or handler runs and no task remains. State setters and event deliveries that arrive during or after closing are harmless.",
  ["schedules", "crash_points"], "closing at every step of bounded executions with renders, events, effects and state changes in flight",
  "Tests close layouts only when they are idle.",
  [L, K], [("exit", L + ":__aexit__/_unmount_model_states")], ["tasks of the event loop", "effect callbacks"])
p("C13", "A session ends cleanly on disconnect or failure without affecting other sessions",
  "When a client disconnects, or sending or receiving fails, at any moment, the session's layout is closed, its effects are cleaned up and its tasks end, and the failure is never converted into a hang. Sessions of the same application served concurrently never see each other's state, events or updates, and each client gets its own updates in order.",
  ["schedules", "crash_points", "fault_sequences"], "disconnect or failure injected at every step, and all interleavings of two sessions, to a bound",
  "Tests use one well-behaved client and disconnect when idle.",
  [S, "src/reactpy/executors/asgi/middleware.py"], [("dispatch loops", S + ":serve_layout"), ("websocket", "src/reactpy/executors/asgi/middleware.py:ReactPyWebsocket")], ["ASGI messages", "component lifecycle callbacks"])
p("C14", "Input acknowledgements are per element, monotonic and never ahead of reception",
  "The acknowledged sequence number shown on a user input equals the largest sequence number among the events already taken up for handlers currently bound to that element, lowered where needed so that it stays below every event that still waits for one of these handlers. It never exceeds what the client sent, and never decreases while the element lives and its events arrive in the order of their numbers. Elements that are not user inputs, or for which nothing was received, carry none, and malformed sequence numbers are ignored.",
  ["histories", "inputs", "schedules"], "all bounded sequences of events with sequence numbers (missing, repeated, out of order, malformed) and renders",
  "Tests inspect one or two acknowledgements after in-order events.",
  [L], [("ack recording and injection", L + ":_process_event_queue/_inject_event_ack_seq")], ["acknowledgement attribute in updates"])
p("C15", "Typed text is never overwritten by stale server values and converges",
  "Under every ordering and delay of keystrokes, event delivery and server updates, the browser never replaces what the user typed by a value the server computed before one of the element's handlers was given the latest text. Once all messages are exchanged and the server has rendered the element after a handler was given the latest text, the displayed value equals the server's value; this includes values the server sets on its own, numbers, drop-down lists whose options change, several inputs that are added, removed and reordered with or without keys, and elements with throttled, debounced, slow or several handlers.",
  ["schedules", "histories"], "all interleavings of keystrokes, message deliveries, timers and independent server updates, to a bound",
  "The browser tests (not run offline) type one string with one delay; the protocol must hold for all interleavings.",
  [JS + "components.tsx", JS + "vdom.tsx", L], [("sequence numbers and ack comparison", JS + "components.tsx:UserInputElement"), ("server ack", L + ":_inject_event_ack_seq")], ["value given to the input element"])
p("C16", "The browser reconnects with back-off and delivers queued messages once in order",
  "Messages sent while the connection is not open are delivered exactly once and in order after it opens. After a lost connection the client retries with intervals that start at the configured interval, grow by the configured multiplier, never exceed the maximum and stop after the configured number of retries, and a successful connection resets them. Every connection reports the page's location at that time to the server. A message received reaches every handler subscribed for its type at that time, and no other.",
  ["histories", "fault_sequences", "configurations"], "all bounded sequences of open, close, error, send and visibility events and reconnect configurations",
  "No existing test executes the reconnect logic without a browser.",
  [JS + "client.ts", JS + "websocket.ts"], [("reconnect", JS + "websocket.ts:createReconnectingWebSocket"), ("queue", JS + "client.ts:ReactPyClient.sendMessage")], ["sockets opened, timers armed, frames sent"])
p("C17", "Applying updates in the client reproduces the server's view exactly",
  "For every sequence of updates produced by a layout, both clients (browser and in-browser Python) end with exactly the view obtained by replacing the addressed node with the new one, with no remains of replaced nodes, and never modify an update they received earlier. Components of JavaScript modules, also nested in each other, show their fallback until the module is loaded, are bound once for each time they appear, are never displayed in place of those that replaced them, and are not used after they were removed.",
  ["histories", "inputs"], "all bounded sequences of update messages over small trees, including root replacement, errors, missing parts, and modules that arrive in any order",
  "No offline test executes the client's update application.",
  [JS + "components.tsx", JS + "mount.tsx", "src/reactpy/executors/pyscript/layout_handler.py"], [("browser update", JS + "components.tsx:Layout"), ("pyscript update", "src/reactpy/executors/pyscript/layout_handler.py:ReactPyLayoutHandler.update_model")], ["model after each update"])
p("C18", "Throttled and debounced events keep the latest event and respect their interval",
  "With debouncing, a burst of events is sent once, with the latest event, only after the configured quiet time; with throttling, the first event is sent at once and afterwards at most one per interval, and the last event of a burst is never lost. Renderings in between change none of this, preventDefault and stopPropagation take effect on every event at once, and handlers without either send every event immediately. Debouncing applies to input, select and textarea only.",
  ["schedules", "inputs"], "all bounded sequences of events and clock advances over interval configurations",
  "Browser tests sample one timing.",
  [JS + "handler.ts", JS + "vdom.tsx", JS + "components.tsx"], [("throttle/debounce", JS + "vdom.tsx:createEventHandler")], ["messages sent by the client"])
p("C19", "Requests reach exactly one destination, never unregistered code or files",
  "Every HTTP request, websocket and lifespan message is handled by exactly one of the framework's own endpoints or the wrapped application, decided by path prefix only; only files inside the published directories are ever served; and a websocket can only instantiate components that were registered, each from its own reference.",
  ["inputs", "configurations"], "all paths from a bounded alphabet (including dot segments and encodings), prefixes and registered component sets",
  "Tests request a few well-formed URLs.",
  ["src/reactpy/executors/asgi/middleware.py", "src/reactpy/executors/asgi/standalone.py", "src/reactpy/executors/utils.py"], [("matching", "src/reactpy/executors/asgi/middleware.py:ReactPyMiddleware"), ("root resolution", "src/reactpy/executors/asgi/middleware.py:get_component")], ["ASGI responses"])
p("C20", "The index page is a consistent HTTP resource",
  "For every configuration and request the index page's declared length equals the number of bytes sent, HEAD returns GET's headers without a body, a request carrying the current validator gets an empty not-modified answer, and the page embeds the mount point with the connection parameters of the current configuration. The page's validator changes when its content changes.",
  ["inputs", "configurations", "histories"], "all bounded combinations of page options (language, head content, non-ASCII text), methods and conditional headers",
  "Tests fetch one default ASCII page.",
  ["src/reactpy/executors/asgi/standalone.py", "src/reactpy/executors/asgi/pyscript.py", "src/reactpy/executors/utils.py"], [("index app", "src/reactpy/executors/asgi/standalone.py:ReactPyApp")], ["ASGI response messages"])
p("C21", "Configuration options obey precedence, validation, immutability and notification",
  "An option's value is always the one it was last given explicitly or by its environment variable, until that is unset; otherwise it is its parent's current value, or without a parent its default. Every value given to it passed its validator. Immutable options never change, unset and failed sets leave the option consistent, and each real change is reported to every subscriber exactly once with the new value.",
  ["histories", "configurations"], "all bounded sequences of set, unset, set-default, reload, subscribe and reads on option chains, from every initial environment",
  "Tests perform single operations on single options.",
  ["src/reactpy/_option.py", "src/reactpy/config.py"], [("option", "src/reactpy/_option.py:Option")], ["Option.current and subscriber calls"])
p("C22", "HTML conversion preserves the tree in both directions",
  "Converting any view to HTML and parsing it back yields an equivalent view, parsing HTML preserves every element, attribute, text and their order, and text and attribute values are escaped so that they can never become markup. What is converted to static HTML is the same tree that the live layout would display.",
  ["inputs"], "all trees up to a bounded size over an alphabet of tags, attributes, styles and texts including markup characters",
  "Tests convert a few fixed snippets.",
  [U, "src/reactpy/transforms.py"], [("parser", U + ":string_to_reactpy"), ("printer", U + ":reactpy_to_string"), ("transforms", "src/reactpy/transforms.py:RequiredTransforms")], ["HTML strings", "view dictionaries"])
p("C23", "Element constructors build well-formed views from every accepted argument form",
  "For every accepted combination of attributes, children, nested sequences and event handlers, an element constructor yields a view with exactly those attributes, children in order and handlers, without mutating its arguments or sharing mutable state between results. Arguments that cannot be part of a view are rejected, and every constructed element passes the published schema after rendering.",
  ["inputs"], "all bounded argument combinations",
  "Tests sample each form once.",
  [V, "src/reactpy/_html.py", "src/reactpy/types.py"], [("constructor", V + ":Vdom/separate_attributes_and_event_handlers")], ["constructed dictionaries"])
p("C24", "Event handler construction honours parameters, flags and merging",
  "For every supported kind of callable (functions, methods, partials, callable objects, builtins; plain or asynchronous) the handler receives the event's arguments in order and asynchronous ones are awaited. preventDefault and stopPropagation are on if requested by option or by an unconditional call on the event argument in the handler's body, and off if neither an option nor any call on the event requests them. A debounce assigned in the body from a literal, a parameter default or a captured variable counts like the option and wins over it, and is never guessed from any other expression; debounce and throttle options are kept. Merging handlers with equal flags and rates runs all of them concurrently with the same data and keeps flags and rates; conflicting ones are refused.",
  ["inputs", "programs"], "all bounded combinations of callable kinds, parameter counts, flag options and handler bodies",
  "Tests exercise plain functions with one or two bodies.",
  [E, "src/reactpy/core/_event_inspect.py"], [("handler", E + ":EventHandler/to_event_handler_function"), ("bytecode inspection", "src/reactpy/core/_event_inspect.py"), ("merging", E + ":merge_event_handlers")], ["handler attributes and calls"])
p("C25", "Published JavaScript module files are always complete and current",
  "At every instant a published module file is either absent or holds one complete version of the content it was registered with, no matter how many workers register it concurrently or at which step one of them crashes. After a successful registration the file holds the requested content, and a crashed worker never makes later registrations impossible.",
  ["crash_points", "schedules", "fault_sequences"], "a crash at every file-system step, and all interleavings of two registering processes",
  "Tests register modules from a single process that never crashes.",
  ["src/reactpy/reactjs/module.py", "src/reactpy/reactjs/utils.py"], [("publication", "src/reactpy/reactjs/module.py:file_to_module/string_to_module"), ("locking and copying", "src/reactpy/reactjs/utils.py:copy_file/file_lock")], ["contents of the published directory"])
p("C26", "JavaScript component imports resolve the requested module and only its exports",
  "Importing components from a JavaScript module yields constructors bound to exactly the requested module, name, fallback and options for each call, independently of earlier imports, and requesting a name the module does not export fails whenever exports are resolved. Only an import of the same given name replaces what an earlier import published. The deprecated functions of `reactpy.web` do the same, and import maps name the requested framework and version. Resolving exports finds exactly the names the module source exports, following re-exports to the given depth.",
  ["histories", "inputs"], "all bounded sequences of imports with colliding names and differing options, and all bounded module sources over an export grammar",
  "Tests import each fixture once; interactions through the process-wide caches and export forms outside the fixtures are not covered.",
  ["src/reactpy/reactjs/__init__.py", "src/reactpy/reactjs/module.py", "src/reactpy/reactjs/utils.py"], [("caches", "src/reactpy/reactjs/__init__.py"), ("export parser", "src/reactpy/reactjs/utils.py:resolve_names_from_source")], ["importSource of constructed elements", "resolved names"])
p("C27", "Python code embedded for the browser behaves like the original source",
  "The program embedded in the page for in-browser rendering behaves the same as the user's source files for every program: string contents, indentation and comments included. Configuration embedded next to it reaches the browser unchanged, and until the program runs exactly the given initial content is displayed.",
  ["programs", "inputs"], "all bounded programs built from strings, comments, indentation and multi-line constructs",
  "Tests check one or two example components.",
  ["src/reactpy/executors/pyscript/utils.py", "src/reactpy/executors/pyscript/component_template.py"], [("embedding and minification", "src/reactpy/executors/pyscript/utils.py:pyscript_executor_html/minify_python")], ["embedded program text"])
p("C28", "Serial and asynchronous rendering show the same views",
  "For every component program and every history of events and state changes in which each change settles before the next, the serial and the asynchronous rendering modes display the same view after each step, run the same effects and call the same handlers.",
  ["configurations", "histories"], "all bounded histories over a set of component programs, in both modes",
  "Only parts of the layout tests run in both modes, each with one history.",
  [L], [("mode switch", L + ":render/_schedule_render_task")], ["client view after each step"])
p("C29", "A long-lived session's bookkeeping stays bounded by what is displayed",
  "After any number of renders, events, mounts and unmounts, the memory and tasks a layout holds depend only on what is currently displayed: components, handlers and finished renders that are gone leave nothing behind.",
  ["histories"], "all bounded histories repeated many times",
  "Tests check a few garbage-collection cases.",
  [L, K], [("unmount bookkeeping", L + ":_unmount_model_states"), ("effect bookkeeping", K + ":affect_layout_did_render")], ["live objects and tasks"])
p("C30", "Source rewriters preserve meaning and are idempotent",
  "The command-line rewriters produce valid programs that build the same views as before except for the documented API change, leave unrelated code, comments, encodings and line endings untouched, and change nothing when run a second time.",
  ["programs"], "all bounded programs over the call forms the rewriters recognise",
  "Tests rewrite a fixed list of snippets once.",
  ["src/reactpy/_console/rewrite_props.py", "src/reactpy/_console/rewrite_keys.py", "src/reactpy/_console/ast_utils.py"], [("rewriters", "src/reactpy/_console")], ["rewritten source"])
p("C31", "Browser events are serialized faithfully, finitely and without loss of form data",
  "Serializing any browser event terminates within its depth limit and yields plain JSON data without functions. It keeps every readable field that holds data (text, numbers, booleans, big integers as text, and plain objects and lists within the limit) and leaves out only functions, empty fields, navigation between DOM nodes, the view, constants and internals. It includes the current value, checked state, selection and files (name, type, size, date) of the form controls involved, whatever their names are, even for cyclic or hostile object graphs.",
  ["inputs"], "all bounded object graphs (cycles, getters that throw, collections) and form control kinds",
  "The package's own tests need a browser-like DOM and sample single events.",
  ["src/js/packages/event-to-object/src/index.ts"], [("serializer", "src/js/packages/event-to-object/src/index.ts")], ["serialized event"])
p("C32", "Widgets and testing helpers respect their contracts",
  "Linked inputs always show one common value, the latest edit (edits of different inputs at the same moment count in any order), and report each edit exactly once, cast, leaving out empty ones if so configured. The image widget keeps the data, attributes and handlers it was given. The component containers of test fixtures display the component set last, at once when updating on change and otherwise when next displayed. Log assertions hold exactly if a matching record was logged within their context, listing logged exceptions finds every matching one and removes only those, and neither hides another failure. Polling returns as soon as its condition holds and otherwise times out. Import-path resolution yields the named object or an error naming what is missing.",
  ["histories", "schedules", "inputs"], "all bounded sequences of edits, set operations and log records, their nestings and schedules",
  "Tests perform one edit or swap, and log one record.",
  ["src/reactpy/widgets.py", "src/reactpy/testing/common.py", "src/reactpy/testing/logs.py", "src/reactpy/testing/backend.py", "src/reactpy/utils.py"], [("linked inputs", "src/reactpy/widgets.py:use_linked_inputs"), ("hot swap", "src/reactpy/testing/backend.py:_hotswap"), ("log assertions", "src/reactpy/testing/logs.py:assert_reactpy_did_log")], ["rendered inputs", "callbacks", "raised errors"])
p("C33", "The wheel that PyScript installs is always complete and current",
  "However many processes prepare it at once, and wherever one of them dies or a file operation fails, a file under the name of a wheel is a complete wheel, whoever is told its name can fetch it from then on, and later requests succeed and leave nothing else behind. From a source checkout the wheel is that of the source as it was when asked or later, and it is not built again while nothing changed; from an installation it contains exactly the installed files of the distribution, with a correct record. Wheels of other versions are never used, and unrelated files are left alone.",
  ["schedules", "crash_points", "fault_sequences", "histories"], "all interleavings of file-system steps of up to three processes, all deaths and failing steps, all bounded histories of edits, all bounded sets of installed files",
  "Tests call each helper once with mocked surroundings.",
  ["src/reactpy/executors/pyscript/utils.py"], [("ensure wheel", "src/reactpy/executors/pyscript/utils.py:_ensure_local_reactpy_wheel"), ("config", "src/reactpy/executors/pyscript/utils.py:extend_pyscript_config")], ["files of the static directory", "package URL in the PyScript configuration"])
p("C34", "Template tags mount exactly the requested component",
  "A page made of any combination of template tags mounts, at the place of each component tag and nowhere else, exactly the requested component with the requested class and the current settings, by URLs which the application serves. It has one import map, which is the page's own if there is one before. PyScript tags embed the same program as the corresponding functions, each in a place of its own. Other text of the page is left alone, and tags with missing or unknown arguments or files are refused.",
  ["inputs", "configurations"], "all pages of a bounded number of tags, path prefixes, settings, classes and escaping modes",
  "Tests render one tag in one page with the default settings.",
  ["src/reactpy/templatetags/jinja.py", "src/reactpy/executors/utils.py", "src/reactpy/executors/asgi/middleware.py", "src/reactpy/executors/pyscript/utils.py"], [("tags", "src/reactpy/templatetags/jinja.py:ReactPyJinja"), ("mount", "src/reactpy/executors/utils.py:server_side_component_html")], ["components mounted by the page's scripts", "requests made by the page"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        if len(x["title"]) > 80: print(x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
