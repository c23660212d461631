"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, pathlib
L='src/reactpy/core/layout.py'; H='src/reactpy/core/hooks.py'; LC='src/reactpy/core/_life_cycle_hook.py'
S='src/reactpy/core/serve.py'; MW='src/reactpy/executors/asgi/middleware.py'; SA='src/reactpy/executors/asgi/standalone.py'
JS='src/js/packages/@reactpy/client/src/'
RJ='src/reactpy/reactjs/'
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   **({"state":[dict(name=n,meaning=m,where=w) for n,m,w in state]} if state else {}))))

prop('C01','The client view converges to the render of the current state',
 "A client that starts empty and applies every layout update of a session in the order the server produced them ends, whenever the session becomes idle, with exactly the view that rendering the root from the current component state describes: same elements, attributes, text, child order, error placeholders and bound events. Every update's path names an existing position in the client's view at the moment it is applied.",
 ['programs','schedules','inputs'],
 "For every component program, every order and timing of state changes and events, every send delay, in both rendering modes.",
 "Tests render a handful of fixed trees and compare one or two updates; what must hold is that overlapping, nested, delayed and coalesced updates compose, over every history of state changes.",
 [L,S],
 [('incremental render and patch path computation',L+': Layout._create_layout_update/_render_component'),('completed-render ordering',L+': Layout._parallel_render'),('splicing into the parent model',L+': Layout._create_layout_update')],
 [('model state tree','what the server believes the client shows',L)])

prop('C02','Component state survives exactly as long as its key, position and type',
 "Across re-renders a component keeps its hook state if and only if the same component function is rendered again at the same place (same chain of explicit keys, or of positions where no key is given); otherwise it starts from fresh initial state and the old instance is unmounted. Siblings that are inserted, removed, reordered or re-keyed never exchange or share state.",
 ['programs','histories','inputs'],
 "For every sequence of child lists (keys, positions, types, text/None holes) and every interleaving of parent and child renders.",
 "Tests swap a few keyed children by hand; the guarantee ranges over all edit scripts of child lists combined with pending child renders.",
 [L,LC],
 [('children matched by key or position',L+': _render_model_children/_get_children_info'),('state bound to the instance',LC+': LifeCycleHook.use_state')],
 [('hook state list','state slots of one component instance',LC)])

prop('C03','State updates are applied in call order and none is lost or duplicated',
 "Values passed to a component's state setter (or actions to its reducer) are folded in call order, each exactly once, functional updates receiving the latest value even when many are issued before the next render. After the session becomes idle every mounted component was last rendered with the folded value of each of its state slots, including updates issued while that component, its ancestor or its descendant was rendering, and while the layout was busy sending.",
 ['schedules','programs','histories'],
 "For every interleaving of setter calls from event handlers, effects, background tasks and render functions with renders in progress, in both rendering modes.",
 "Tests issue one or two updates at a quiet moment; lost updates need a setter call to land inside another render or send.",
 [H,L,LC],
 [('fold of updater functions',H+': _CurrentState.dispatch'),('render request flag',LC+': LifeCycleHook.schedule_render'),('render tasks/queue',L+': _schedule_render_task/_ThreadSafeQueue')])

prop('C04','Renders are never overlapping, stale, spurious or unbounded',
 "One component instance never renders while another render of the same instance is in progress and never renders after it was unmounted. Setting a state to an equal value causes no render, any number of updates made without yielding to the event loop causes at most one further render of that component beyond renders caused by its ancestors, and with no further input the session stops rendering.",
 ['schedules','programs','histories'],
 "For every history of setter calls, equal-value calls, unmounts and overlapping parent/child updates in both rendering modes.",
 "Tests count renders of three fixed scenarios; the bound must hold for any burst pattern and tree.",
 [L,LC,H],
 [('deduplication of scheduled renders',L+': _render_tasks_by_id, _ThreadSafeQueue.put'),('equality gate',H+': strictly_equal'),('render exclusion',LC+': _render_access')])

prop('C05','Effects start after render, are cleaned up once, and never outlive the component',
 "A synchronous effect runs after a render in which its dependencies changed (each render if it has none, once if they are empty), never before that render's output is final, and the clean-up it returned runs exactly once: before the next run of the same effect or when its component is unmounted, whichever is first. An effect that raises, or whose clean-up raises, does not prevent other effects of the same or other components from being run or cleaned up.",
 ['programs','schedules','histories','fault_sequences'],
 "For every dependency history, unmount point (parent removal, key or type change, render error, session end) and raising effect or clean-up.",
 "Tests check single effects on fixed two-step histories; clean-up obligations need every order of re-render, unmount and failure.",
 [H,LC,L],
 [('effect task with stop event',H+': use_effect'),('start after layout render',LC+': affect_layout_did_render'),('unmount',LC+': affect_component_will_unmount')])

prop('C06','At most one run of an async effect is in flight and it is stopped properly',
 "Two runs of the same asynchronous effect never overlap: a new run begins only after the previous one ended, having been cancelled or, if shielded, having run to completion; the clean-up a completed run returned runs exactly once, before the next run or at unmount. When the component is unmounted the current run is cancelled (or, if shielded, awaited uncancelled) before the unmount finishes.",
 ['schedules','programs','histories','fault_sequences'],
 "For every relation between effect duration, re-render times, unmount time and exceptions or ignored cancellation in the effect.",
 "Tests fix one duration against one unmount; overlap needs particular timings of repeated re-renders.",
 [H,LC],
 [('pending task hand-over',H+': use_async_effect'),('stop event',LC+': affect_component_will_unmount')])

prop('C07','Ending a session at any moment releases everything it owned',
 "Whenever and however a served session ends (client disconnect, failing send or receive, cancellation of the serving task), serving terminates and by then every component is unmounted, the clean-up of every effect that ran was executed exactly once, and no task created by the session is still running. State setters called afterwards have no effect and raise nothing.",
 ['crash_points','schedules','programs','fault_sequences'],
 "For a disconnect, I/O failure or cancellation at every point of every execution, also in the middle of renders, unmounts, sends and event handlers.",
 "Tests leave the layout at quiet points only; leaks need the end to fall inside a render, an unmount or a running handler.",
 [L,S,LC,MW],
 [('teardown',L+': Layout.__aexit__'),('task group',S+': serve_layout'),('unmount',L+': _unmount_model_states')])

prop('C08','Events are handled in order, one at a time, once, by the current handler',
 "Events a client emits on one handler target are handled in the order they arrived, one at a time, and each exactly once, by the handler bound to that element and event name by the latest render. A slow or raising handler neither delays events of other elements nor prevents later events of its own element from being handled.",
 ['schedules','histories','inputs','fault_sequences'],
 "For every arrival pattern, handler duration and exception, queue size and concurrent re-render that replaces handlers.",
 "Tests deliver single events to idle layouts; ordering and isolation range over arrival bursts against slow handlers and re-renders.",
 [L,S,'src/reactpy/core/events.py'],
 [('per-target queue and worker',L+': deliver/_process_event_queue'),('handler registry',L+': _render_model_event_handlers_without_old_state/_render_model_attributes')],
 [('event handler registry','target to current handler',L)])

prop('C09','Events without a handler are dropped after a short grace period, harmlessly',
 "An event whose element or handler no longer exists is dropped without any handler being run and without disturbing the session or other events; if a handler for its target appears within the grace period (about 30 ms) after the event is taken up, the event is delivered to it instead of being dropped. Once an element is gone for good, its handlers are never invoked again by later events.",
 ['schedules','histories','fault_sequences'],
 "For every timing of handler removal and reappearance relative to event arrival, and every unknown, stale or duplicated event.",
 "One test pokes the registry at one fixed time; the window is a race between re-render and event.",
 [L],
 [('retry loop',L+': _process_event_queue'),('removal at unmount',L+': _unmount_model_states')])

prop('C10','Acknowledged input sequence numbers are truthful, monotonic and catch up',
 "The sequence number a rendered text input, select or textarea acknowledges to the client never exceeds the highest number the server has taken up from that element's own events and never decreases while the element stays mounted; a render that starts after an event was taken up acknowledges it. Elements that are not user inputs, and inputs from which nothing numbered was received, carry no acknowledgement.",
 ['schedules','histories','inputs'],
 "For every interleaving of numbered events (also duplicated, reordered, invalid numbers) with renders, remounts and several handlers per element.",
 "Tests check a few fixed sequences by poking internals.",
 [L],
 [('recording',L+': _process_event_queue'),('injection',L+': _inject_event_ack_seq')])

prop('C11','Context consumers see the nearest provider\'s current value',
 "Whenever a component renders, reading a context yields the value of the nearest enclosing provider of that context as of that provider's latest render, or the context's default if there is none; sibling and unrelated subtrees and other sessions never influence it. After the session becomes idle every mounted consumer was last rendered with its nearest provider's current value.",
 ['programs','schedules','histories'],
 "For every nesting, change, insertion and removal of providers interleaved with consumer-only re-renders.",
 "Tests use one or two providers that never move; the value must follow arbitrary provider edits and partial re-renders.",
 [LC,H,'src/reactpy/types.py'],
 [('provider propagation',LC+': set_current'),('lookup',H+': use_context'),('provider component','src/reactpy/types.py: ContextProvider')])

prop('C12','A failing render is contained and recoverable',
 "If rendering a component raises, or it returns an invalid child list, only that component's subtree is replaced, by an error placeholder (with the message in debug mode, without it otherwise); everything else keeps its state and keeps updating, and the components previously shown below it are unmounted with their effects cleaned up. When it later renders without raising, whether its earlier failure was its first render or a later one, its real content is shown again with its own state intact.",
 ['programs','schedules','histories','fault_sequences'],
 "For every component, hook position and render at which an exception is raised, and every later sequence of successful and failing renders.",
 "Tests raise once in one place and look at one update; recovery, leaks and hook state after partial renders are not reached.",
 [L,LC],
 [('error placeholder',L+': _render_component'),('hook bookkeeping after a partial render',LC+': use_state/affect_component_did_render')])

prop('C13','Memoised values always belong to the current dependencies',
 "In every render a memoised value is the one computed from that render's dependencies: it is recomputed exactly when the dependencies differ from those of the value held (every render without dependencies) and otherwise the identical object is returned, also when earlier computations or renders failed. A reference object keeps its identity for the life of the component, and a state setter keeps its identity across renders.",
 ['programs','histories','fault_sequences'],
 "For every dependency history, including renders or computations that raise in between and coalesced updates.",
 "Tests step through two or three fixed dependency values without failures.",
 [H],
 [('memoisation',H+': use_memo'),('constants',H+': _use_const')])

prop('C14','A long-lived session does not accumulate tasks or memory per update',
 "The number of asyncio tasks and retained component instances a session holds while idle is bounded by what is currently mounted and by the event targets in use, independent of how many renders, effect runs or events it has processed. In particular repeated re-renders of one component leave no additional pending task behind.",
 ['histories','programs','schedules'],
 "For every program and every number of repetitions of its updates.",
 "Unit tests perform a handful of updates, where a leak of one task per update is invisible.",
 [L,LC,H],
 [('render task bookkeeping',L+': _parallel_render'),('effect tasks',LC+': affect_layout_did_render')])

prop('C15','Concurrent sessions of one application do not influence each other',
 "Several clients connected to the same application at once each see exactly what they would see alone: their component state, effects, events, context, connection scope and location, and failures belong to their own session. One session being slow, stalled, flooded, failing or disconnected changes nothing observable in another apart from timing.",
 ['schedules','histories','fault_sequences','configurations'],
 "For every number of clients, event interleaving, slow or dead connection and error in another session.",
 "Tests open one connection at a time.",
 [MW,L,S,LC],
 [('per-connection layout',MW+': ReactPyWebsocket.run_dispatcher'),('hook stack per task',LC+': _HookStack')])

prop('C16','The websocket endpoint honours the ASGI session life cycle under faults',
 "For every connection the endpoint accepts once, sends only layout updates while connected, sends nothing once the client is gone, and returns, with its components unmounted and no task left, after a disconnect however busy or broken the session is; unknown messages are ignored and malformed ones or a failing component never affect other connections. Events are forwarded in arrival order, each once, also when the bounded queue makes the receiver wait.",
 ['schedules','crash_points','fault_sequences','configurations'],
 "For every order of connect, messages, malformed frames, slow sends and disconnect, and every queue size.",
 "Tests drive a real browser through the orderly path only.",
 [MW,SA,S],
 [('receive loop and dispatcher',MW+': ComponentDispatchApp/ReactPyWebsocket')])

prop('C17','Client messages survive disconnects: in order, exactly once',
 "Messages the browser client is asked to send while its connection is not open are kept and sent when it next opens, in the order they were submitted, before any message submitted later and each exactly once; messages submitted while open are sent immediately.",
 ['schedules','fault_sequences','histories'],
 "For every interleaving of submissions with connection opening, closing, failing and reopening, also while the backlog is being flushed.",
 "No test covers the browser client's queue under connection loss.",
 [JS+'client.ts'],
 [('offline queue',JS+'client.ts: ReactPyClient.sendMessage/onOpen')])

prop('C18','Reconnection follows the configured backoff and limits',
 "After an established connection is lost the client reconnects, waiting first the configured interval, then each time the previous wait times the multiplier but never more than the maximum, never holding two live connections, and giving up after the configured number of consecutive failures; a successful connection resets wait and count. A client that never managed to connect does not retry, and each attempt reports the page location at that moment.",
 ['fault_sequences','configurations','schedules'],
 "For every sequence of connection successes, failures and losses, every option setting and every location change.",
 "No test runs the reconnection loop.",
 [JS+'websocket.ts',JS+'mount.tsx'],
 [('reconnect loop',JS+'websocket.ts: createReconnectingWebSocket/nextInterval')])

prop('C19','Throttled and debounced events are rate limited and the last one is delivered',
 "A throttled handler sends its first event at once and then at most one event per interval, the latest one of a suppressed group being sent when the interval ends; a debounced input handler sends only after the input has been quiet for the delay, with the latest data. A handler with both limits applies the interval to what the delay lets through. Events that are held back have their declared default action and propagation decided when they happen. No final event is lost and the limits hold across server updates that re-render the element.",
 ['schedules','inputs','histories'],
 "For every sequence and timing of user events and re-renders, and every interval.",
 "Browser tests type at a fixed pace without concurrent updates; the limit is over all timings.",
 [JS+'components.tsx',JS+'vdom.tsx'],
 [('throttle/debounce wrappers',JS+'components.tsx: throttleHandler/debounceHandler')])

prop('C20','Typed text is never clobbered by stale server values and converges',
 "While the server has not acknowledged the latest event of a text input, a server-rendered value never overwrites what the user has typed; once it has acknowledged it, the input shows the server's value. Numbers attached to outgoing events of one input strictly increase across all its handlers and across re-renders.",
 ['schedules','histories','inputs'],
 "For every interleaving of typing, message delays, server transformations of the value and re-renders.",
 "Browser tests use one typing speed and one latency.",
 [JS+'components.tsx',JS+'vdom.tsx',L],
 [('sequence reconciliation',JS+'components.tsx: UserInputElement')])

prop('C21','The browser client displays exactly the model the server sent',
 "After any sequence of layout updates (root replacement, nested replacement, errors appearing and disappearing, reconnection to a fresh session) the browser client displays exactly the resulting model: elements, attributes, text, order and event bindings, with nothing left over from earlier models. A user event on a bound element produces exactly one message with that element's target and the event's data, after the requested default-prevention. A script in the model runs when it appears, and not again because of updates elsewhere.",
 ['histories','inputs','fault_sequences'],
 "For every model, every sequence of updates and every reconnect point.",
 "No test applies generated update sequences to the browser client.",
 [JS+'components.tsx',JS+'vdom.tsx'],
 [('model application',JS+'components.tsx: Layout'),('element creation',JS+'vdom.tsx')])

prop('C22','Server and browser client converge end to end once faults stop',
 "With the real server and the real browser client joined by a network that delays, stalls, drops and restores connections, once faults stop the page shows the current render of the connected session's component tree, every event sent over that connection was handled once and in order, and every server session of a lost connection has been torn down.",
 ['fault_sequences','schedules','programs'],
 "For every component program and every sequence of user actions, delays, disconnects and reconnects.",
 "Browser tests exercise one orderly connection at a time.",
 [L,S,MW,JS+'client.ts',JS+'components.tsx',JS+'websocket.ts'],
 [('whole system','server dispatch loop and client message loop')])

prop('C23','In-browser (PyScript) rendering keeps the DOM equal to the current view',
 "When a component is rendered inside the browser by PyScript, the code that runs means what the user's files say (strings, comments, docstrings, indentation), after every update the page's DOM matches the component tree's current render (tags, attributes, text, order) and keeps the elements that the update did not change, each bound DOM event invokes the current handlers on its path exactly once with the event as its data (default prevention and stopped propagation included) and replaced or removed handlers never fire, no listener or proxy accumulates as updates are applied, and components whose element has left the page neither fail nor stay mounted once another component starts.",
 ['histories','schedules','programs'],
 "For every component program, update order and event history.",
 "The PyScript tests need a real browser and cover a counter.",
 ['src/reactpy/executors/pyscript/layout_handler.py','src/reactpy/executors/pyscript/component_template.py','src/reactpy/executors/pyscript/utils.py'],
 [('update application','src/reactpy/executors/pyscript/layout_handler.py: ReactPyLayoutHandler'),
  ('assembly of the code','src/reactpy/executors/pyscript/utils.py: pyscript_executor_html, minify_python')])

prop('C24','Publishing a JavaScript module is atomic and survives crashes and races',
 "When several threads or processes publish a JavaScript module file of the same name at once, or one dies at any point while doing so, a reader never sees a partially written module, every publisher that returns leaves the module served with its source's content until another publishes it, the export names it reports are those of its own source, and publication neither deadlocks nor fails because of another live or dead publisher.",
 ['schedules','crash_points','fault_sequences','inputs'],
 "For every interleaving of publishers' file operations and every crash or I/O error point, and for nested module names.",
 "Tests publish from a single thread without faults.",
 [RJ+'module.py',RJ+'utils.py',RJ+'__init__.py'],
 [('lock file and copy',RJ+'utils.py: copy_file/file_lock'),('publication',RJ+'module.py: file_to_module/string_to_module')])

prop('C25','State may be set from other threads without losing an update',
 "A state setter called from a thread other than the one running the session behaves as if it had been called on the session's thread at some point: the value is applied, the component is re-rendered with it, and no later update of that component is lost or delayed indefinitely, in whatever order the threads are interleaved.",
 ['schedules'],
 "For every preemption point between a calling thread and the session's thread, in both rendering modes.",
 "No test sets state from a second thread.",
 [LC,L,H],
 [('schedule flag',LC+': schedule_render'),('thread-safe queue',L+': _ThreadSafeQueue')])

prop('C26','Attribute and content conversion to HTML round-trips',
 "Converting a component's view to an HTML string and parsing it back yields an equivalent view, with text and attribute values escaped, for every view.",
 ['inputs'],
 "For every VDOM tree.",
 "Tests convert a fixed list of trees.",
 ['src/reactpy/utils.py','src/reactpy/transforms.py'],
 [('conversion','src/reactpy/utils.py: reactpy_to_string/string_to_reactpy')])

prop('C27','Imported JavaScript components are bound once, kept current and unmounted once',
 "Each element whose component comes from a JavaScript module is bound to that module exactly once per import source while it is on the page; whatever the order in which modules finish loading and updates arrive, once loading and updates are over the module has been given the current model with its current attributes, children and event bindings, nothing is rendered through a binding that was unmounted, and every binding that was rendered is unmounted exactly once when its element leaves the page or its source changes. A module that fails to load affects nothing else.",
 ['schedules','histories','fault_sequences','inputs'],
 "For every order of module loading, failures, updates, removals and reconnects.",
 "Browser tests import a few modules that load at once and never race with updates.",
 [JS+'components.tsx',JS+'vdom.tsx',JS+'bind.tsx'],
 [('binding life cycle',JS+'components.tsx: useImportSource'),('module loading',JS+'vdom.tsx: loadImportSource/createImportSourceElement')])

prop('C28','HTTP clients always get, or already have, the page of the instance that answers',
 "Whatever the configuration, every response with the index page is complete (its content-length is the number of bytes of the body), carries each configured header in place of the default one and no header twice, and contains the configured language, head, prepended content and exactly one mount of the application; a HEAD request is answered with the headers that GET would have; a client that revalidates its copy by ETag is told that it is current exactly if it equals the page of the instance that answers - across restarts, new configurations, several replicas and clock changes. User-defined HTTP, WebSocket and lifespan routes and, in middleware mode, the user's application get exactly the requests that are theirs, a module is served with its content from the moment it was published, and slow, aborted, cancelled or failed requests affect no other one.",
 ['histories','schedules','fault_sequences','inputs'],
 "For every configuration and every history of requests, restarts, publications, clock changes and faults.",
 "Tests request one page of one instance once; staleness and truncation need histories across restarts and other content.",
 [SA,'src/reactpy/executors/asgi/pyscript.py',MW,'src/reactpy/executors/pyscript/utils.py'],
 [('response and revalidation',SA+': ReactPyApp.__call__'),('page',SA+': ReactPyApp.render_index_html'),('routing',MW+': ReactPyMiddleware.__call__; '+SA+': ReactPy.match_extra_paths')],
 [('cached page, ETag and date','what the instance serves',SA+': ReactPyApp')])

CON='src/reactpy/_console/'
prop('C29','Rewriting the user\'s sources keeps their meaning and never loses a file',
 "The commands that migrate a user's sources (rewrite-props, rewrite-keys) change nothing but the properties they are meant to rename or move: afterwards each file is valid and means what it meant before, in the same encoding, with its comments and permissions, however it is laid out; files without such properties, and files that cannot be read, are not touched. Whatever happens on the way - a crash, a failing or short write, a full disk, a second run at the same time - every file holds its complete old or its complete new text for every reader at every moment, and a later run completes the work; running again changes nothing.",
 ['crash_points','inputs','schedules','fault_sequences'],
 "For every source file and every point at which a run is interrupted or meets a failing call.",
 "Tests rewrite a few short plain sources on a disk that never fails.",
 [CON+'ast_utils.py',CON+'rewrite_props.py',CON+'rewrite_keys.py'],
 [('rewriting',CON+'ast_utils.py: rewrite_changed_nodes'),('which calls and properties',CON+'ast_utils.py: find_element_constructor_usages; '+CON+'rewrite_props.py: _rewrite_props')],
 [('source file','what its author wrote, with the properties renamed',CON+'ast_utils.py: rewrite_files')])

prop('C30','Every component placed in a page becomes its own working session',
 "A template may place any number of registered components in a page, several times the same one, below any path prefix. Once the page is loaded, each of them is shown in its own place by a session of its own that has the page's location and the component of that tag; what the page refers to (scripts, import map, modules) is served; the rest of the page is left as the template says, and classes arrive as given. An event in one mount is handled exactly once by that mount's session and by no other. What happens to one session - a lost, refused or stalled connection, a flood, a module that fails to load, a component that does not exist - neither changes nor delays the others, and after every fault or restart of the server each mount has a live session again. Requests that are not the framework's reach the user's application.",
 ['histories','schedules','fault_sequences','inputs'],
 "For every page, prefix, and every history of actions and faults of its mounts.",
 "Tests place one component in one template, at the default prefix, on connections that do not fail.",
 ['src/reactpy/templatetags/jinja.py','src/reactpy/executors/utils.py',MW,JS+'mount.tsx'],
 [('mount and scripts of a component','src/reactpy/executors/utils.py: server_side_component_html'),('which session',MW+': ReactPyMiddleware.match_dispatch_path; ComponentDispatchApp'),('client',JS+'mount.tsx: mountReactPy')])

prop('C31','What a JavaScript module exports is found whatever the network does',
 "When components are imported by name from a JavaScript module - given as a URL, a file or a text - every name the module exports is found, whether it declares it, lists it, renames it, or passes on everything of other modules, up to the configured depth, wherever these are (relative, absolute, behind redirects, in cycles) and however the module is laid out or minified; a name that is not exported is refused. A module that cannot be fetched - refused, stalled, an error status, a broken or truncated answer, an address nobody serves - is logged and contributes no name, keeps no other name from being found, and never makes the import fail in another way or last forever; once it can be fetched again, later imports find its names. What is imported refers to the module and name it was asked for, with the options of that call.",
 ['fault_sequences','histories','inputs'],
 "For every graph of modules and every history of failures between imports from it.",
 "Tests resolve one chain of three modules on a network that never fails, and a few lines of source.",
 ['src/reactpy/reactjs/utils.py','src/reactpy/reactjs/module.py','src/reactpy/reactjs/__init__.py'],
 [('names and references of a source','src/reactpy/reactjs/utils.py: resolve_names_from_source'),('following references','src/reactpy/reactjs/utils.py: resolve_names_from_url, resolve_names_from_file, normalize_url_path'),('imports and what they keep','src/reactpy/reactjs/__init__.py: _import_names; src/reactpy/reactjs/module.py: module_to_vdom')],
 [('import','finds exactly the names that the reachable modules export at that moment','src/reactpy/reactjs/__init__.py: component_from_url')])

out=pathlib.Path(__file__).resolve().parent.parent/'properties.jsonl'
out.write_text(''.join(json.dumps(p,ensure_ascii=False)+'\n' for p in P))
print(len(P))
