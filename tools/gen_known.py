import json,subprocess
log=dict((l.split(' ',1)[1],l.split(' ',1)[0]) for l in subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.splitlines())
F=[
("C13","fix: use_memo no longer pairs new dependencies with the old value when the computation raises","a memo whose computation raised returned the value of older dependencies in the next render"),
("C12","fix: a component whose first render failed part way can use its hooks when it renders again","a component whose first render failed after some of its hooks could never render again"),
("C05","fix: effect runs are stopped, cleaned up and forgotten one by one","one failing effect or clean-up kept other effects from being cleaned up"),
("C06","fix: effect runs are stopped, cleaned up and forgotten one by one","runs of one asynchronous effect overlapped, and clean-ups were lost when a run ended while it was cancelled"),
("C07","fix: effect runs are stopped, cleaned up and forgotten one by one","effect tasks outlived the session"),
("C14","fix: effect runs are stopped, cleaned up and forgotten one by one","effect runs were retained for every render"),
("C01","fix: related renders run one at a time and in order, and leaving a layout releases everything","concurrent renders of related components produced updates with stale paths or content"),
("C02","fix: related renders run one at a time and in order, and leaving a layout releases everything","a component rendered concurrently with its ancestor lost or exchanged state"),
("C04","fix: related renders run one at a time and in order, and leaving a layout releases everything","components rendered after they were unmounted or with stale arguments"),
("C07","fix: related renders run one at a time and in order, and leaving a layout releases everything","components in a cancelled render were never unmounted"),
("C12","fix: unmount everything below a component that failed to render","effects below a component whose render failed were never cleaned up"),
("C08","fix: events waiting for a place in a full event queue are not overtaken by later ones","events overtook earlier ones of the same element when its queue was full"),
("C08","fix: a handler that waits for something cancelled does not stop later events of its element","a CancelledError raised by a handler ended the processing of its element's events for good"),
("C14","fix: an event target's queue and task go away once its events are processed","one queue and one task were kept for every event target ever used"),
("C10","fix: acknowledge only numbers of events that the element itself sent","an input acknowledged numbers sent by an earlier element at its place"),
("C08","fix: event targets of elements with different keys never coincide","keys containing separators made two elements share one event target"),
("C10","fix: numbers received by an element are forgotten with the element, not with its handlers","an element that replaced an input acknowledged the numbers of its predecessor; numbers were forgotten with handlers"),
("C14","fix: numbers received by an element are forgotten with the element, not with its handlers","sequence numbers of removed handlers were kept forever"),
("C09","fix: a handler whose target changed is no longer reachable at its old target","events for the old target of a handler whose target changed still ran it"),
("C16","fix: a websocket connection is accepted before anything is rendered or sent","with a slow accept an update could be sent before the connection was accepted"),
("C16","fix: a websocket endpoint returns only after its layout was unmounted","the endpoint returned on a disconnect while its layout was still being torn down"),
("C16","fix: a websocket whose rendering ended still notices that its client disconnected","the endpoint of a connection whose rendering had ended never returned"),
("C07","fix: a layout that is being closed is closed completely even if cancelled meanwhile","a layout whose closing was cancelled left components mounted and tasks running"),
("C16","fix: a layout that is being closed is closed completely even if cancelled meanwhile","an endpoint cancelled while closing left components mounted"),
("C16","fix: a websocket endpoint that is cancelled while it ends still unmounts its layout","an endpoint cancelled while it was ending never unmounted its layout"),
("C16","fix: a websocket whose rendering ended never keeps the endpoint waiting for its queue","a full queue of a connection whose rendering had ended kept the endpoint from noticing the disconnect"),
("C21","fix: a new root model leaves nothing of the previous one on the page","a root model without an error kept displaying the error of an earlier root model, and kept its other fields"),
("C18","fix: reconnection settings of zero are honoured by the browser client","an interval or number of retries of zero was replaced by the default"),
("C27","fix: JavaScript modules can use the sendMessage and onMessage they are given","sendMessage and onMessage given to a module's bind failed when they were called"),
("C27","fix: an imported component is bound once and not rendered after its binding was unmounted","a component whose source changed while it loaded was bound twice, or rendered and never unmounted"),
("C27","fix: an imported component never renders with a binding that was unmounted","after its source changed a component was rendered through the binding that had been unmounted"),
("C19","fix: limits of throttled and debounced handlers hold across re-renders and clock changes","a re-render or a changed clock reset the limits of throttled and debounced handlers"),
("C21","fix: default prevention is applied to events that a throttle or debounce holds back","the default of events held back by a throttle or debounce was not prevented, nor their propagation stopped"),
("C20","fix: text typed by the user is not overwritten before the server has acknowledged it","events held back by a limit, sent over an earlier connection or numbered out of order let server values overwrite typed text, or kept them from ever being shown"),
("C24","fix: publishing a module is not blocked by a missing directory or an abandoned lock","modules with nested names could not be published; a lock left by a process that died, or a jump of the clock, made publications fail"),
("C24","fix: module files are compared by their current content","a source edited within the resolution of file times, its size unchanged, was not published"),
("C24","fix: a module file appears and changes only as a whole","readers saw partial or missing modules, and a publisher was told the export names of another's source"),
("C25","fix: a render scheduled from another thread does not keep later ones from being scheduled","after a race between a setter in another thread and the render a component never rendered again"),
("C25","fix: with asynchronous rendering state can be set from other threads","with asynchronous rendering state set from another thread was not shown"),
("C25","fix: a component scheduled by two threads at once is queued once","two threads setting the state of a component at once ended the session with a KeyError"),
("C25","fix: no update is lost when several threads set the same state","functional updates made by two threads at once overwrote each other"),
("C20","fix: inputs show values that are numbers","text fields whose value is a number stayed empty"),
("C23","fix: PyScript components run the code that the user has written","minification of the user's code changed strings, removed lines and broke blocks"),
("C23","fix: PyScript components respect prevent_default and stop_propagation","default actions were not prevented, nor propagation stopped"),
("C23","fix: event listeners of PyScript components follow the view","elements kept listeners of earlier views, or had none, after an update"),
("C23","fix: PyScript components do not show attributes that are False or None","attributes that are False or None were present on the page"),
("C23","fix: a PyScript component that has left the page does not fail to render","rendering failed once the component's element had left the page"),
("C23","fix: PyScript components that left the page are deleted","components that left the page were kept running"),
("C28","fix: the content-length of the index page is its number of bytes","the content-length of a page with non-ASCII content was its number of characters: truncated pages"),
("C28","fix: clients are not told that an outdated page is current","a client with an ETag of another page was told by date that its copy is current"),
("C28","fix: user-provided HTTP headers replace the default ones","configured headers in another case were sent in addition to the default ones"),
("C28","fix: setting up PyScript does not modify the user's head element","a head element used for two applications received the PyScript set-up of both"),
("C28","fix: the PyScript configuration may contain apostrophes","a PyScript configuration with an apostrophe made the page's configuration unreadable"),
("C13","fix: dependencies that are modified in place are noticed","a memo whose dependency list is one object that the component modifies kept its old value for ever"),
("C05","fix: dependencies that are modified in place are noticed","an effect whose dependency list is one object that the component modifies never ran again"),
("C06","fix: dependencies that are modified in place are noticed","an asynchronous effect whose dependency list is one object that the component modifies never ran again"),
("C12","fix: a failing component whose arguments or error cannot be printed is contained","a failing component with an argument (or an error) that cannot be printed ended the session"),
("C12","fix: a component that raises CancelledError is shown as an error","a component that raised CancelledError ended the session"),
("C05","fix: an effect runs again also if its clean-up raises CancelledError","an effect whose clean-up raised CancelledError never ran again"),
("C29","fix: rewriting leaves calls of other functions alone","dictionaries and keys given to any function were taken for properties of an element"),
("C29","fix: rewriting keys leaves calls without a key alone","input() or object() next to an element with a key were given a dictionary"),
("C29","fix: rewriting props leaves the arguments of functions that make a style alone","keyword arguments of a function that makes a style were renamed"),
("C29","fix: rewriting keeps the meaning of code around the rewritten elements","tabs, non-ASCII text, elif, one-line functions, f-strings, comments and second statements on a line made the rewritten code invalid or mean something else"),
("C29","fix: a rewritten source file is complete, in its own encoding, or untouched","a crash or full disk during a rewrite lost the source, and other encodings, locales and byte order marks damaged it"),
("C30","fix: component URLs below any path prefix and with any identifier are recognised","no component connected below a prefix such as /c++/ or under a non-ASCII name"),
("C30","fix: the class given to the component template tag is escaped","a class with a quote changed the page's markup"),
("C21","fix: a script element has no attributes whose value is false or missing","false attributes of a script were present on the page, and className was no class"),
("C21","fix: events of selects and forms carry their element's properties","an event of a select or form had a list as its target, without the value"),
("C21","fix: a form's event carries fields of any name","a form's event lacked fields named like a constant or size"),
("C22","fix: any callable can handle an event","builtins and objects could not handle events, coroutines they returned were dropped, and preventDefault() in methods, partial functions and handlers with inner functions had no effect"),
("C03","fix: values whose comparison has no truth value can be state and dependencies","setting a state, or passing a dependency, whose == gives no truth value (an array) raised ValueError"),
("C31","fix: a module that cannot be fetched never keeps other exports from being found","an import raised when a module it refers to timed out, had no complete answer or was named by a bare specifier; references were resolved against another reference or the address before a redirect, and error pages were read as modules"),
("C31","fix: exports in lists over several lines and in minified modules are found","names in export lists over several lines, minified re-exports, async functions, var and several consts were not found"),
("C31","fix: exports that were not found are looked for again by later imports","names that were missing while the network failed stayed missing, and a fallback was shared by all imports from a module"),
]
out=[]
for p,s,w in F: out.append(f"fixed: property={p} {log[s]} {w}")
old=json.load(open('/verif/known_findings.json')) if __import__('os').path.exists('/verif/known_findings.json') else {"findings":[]}
json.dump({"findings":old["findings"],"fixed":out},open('/verif/known_findings.json','w'),indent=1)
