"""which world decides which property, and how it is described in the evidence"""

_LAYOUT_REAL = [
    "reactpy.core.layout", "reactpy.core._life_cycle_hook", "reactpy.core.hooks",
    "reactpy.core.component", "reactpy.core.vdom", "reactpy.core.events",
    "reactpy.core.serve", "reactpy.config", "asyncio tasks, futures, queues and timers",
    "anyio task groups",
]
_LAYOUT_STUB = [
    "event loop clock, timers and selector (sim/loop.py, virtual time)",
    "websocket transport: scripted send and receive functions",
    "browser: a replica that applies updates by path and emits events",
    "uuid4, random: seeded", "hash of asyncio tasks: seeded",
]
_LAYOUT_RULE = (
    "Each case is a generated program (component definitions with state, reducers, "
    "contexts, memos, effects, handlers, keyed lists, conditionals, failing renders), a "
    "generated list of stimuli with waits in event loop steps or simulated time, send and "
    "receive latencies, faults and a kind of session end, all drawn from the seed. "
    "Non-trivial: {}"
)
_LAYOUT_ASSUME = [
    "asyncio runs ready callbacks in FIFO order, as documented",
    "component programs use the public API and keep the hook rules",
]
_LAYOUT_TECH = (
    "deterministic simulation: seeded search over programs, schedules and "
    "faults on a virtual-time event loop, reference model as oracle")
_STATES = "shapes (tags, errors, nesting) of the client's view, counted per shard"


def _layout(nontrivial, quick=60, thorough=780):
    return {
        "world": "sim.w_layout", "budget": {"quick": quick, "thorough": thorough},
        "rule": _LAYOUT_RULE.format(nontrivial), "states": _STATES,
        "real": _LAYOUT_REAL, "stub": _LAYOUT_STUB, "assumptions": _LAYOUT_ASSUME,
        "technique": _LAYOUT_TECH,
        "level_note": "Sampled, not enumerated: no violation in the runs the evidence file "
        "counts. Real server code; network, clock and browser are simulated. Trusts the "
        "reference model in sim/w_layout.py and asyncio's documented scheduling order.",
    }


PROPS = {
    "C01": _layout("at least three updates were applied"),
    "C02": _layout("at least six renders and two updates"),
    "C03": _layout("at least three state changes"),
    "C04": _layout("at least two state changes and two renders caused by them"),
    "C05": _layout("at least two effect runs and one clean-up"),
    "C06": _layout("at least two runs of asynchronous effects"),
    "C07": _layout("at least two renders and one effect run before the session was ended"),
    "C08": _layout("at least three events were handled"),
    "C09": _layout("at least one event was dropped"),
    "C10": _layout("at least two events were handled"),
    "C11": _layout("at least two updates of a program that uses contexts"),
    "C12": _layout("at least one render failed"),
    "C13": _layout("at least four renders of a program that memoises"),
}

HOOKS = None
PROPS["C14"] = dict(
    _layout("at least twenty renders", quick=60),
    rule="Each case is a generated program and a generated round of stimuli, repeated 20 "
    "times in one session (or, for C07, 20 sessions in one process); what is retained at "
    "idle moments is compared every five rounds. Non-trivial: at least twenty renders",
    states="not counted",
)

NOT_APPLICABLE = {
    "C26": "pure single-threaded function of its input: no schedule, time, I/O, crash or "
    "second party for a simulator to control",
}

_ASGI = {
    "world": "sim.w_asgi", "budget": {"quick": 60, "thorough": 780}, "states": _STATES,
    "real": [*_LAYOUT_REAL, "reactpy.executors.asgi.middleware",
             "reactpy.executors.asgi.standalone", "asgi_tools.ResponseWebSocket", "orjson"],
    "stub": ["event loop clock, timers and selector (sim/loop.py, virtual time)",
             "ASGI server: scripted connect, receive, send, disconnect and cancellation",
             "browsers: replicas that apply updates by path and emit events",
             "asyncio.to_thread: runs its function at a later step",
             "uuid4, random: seeded", "hash of asyncio tasks: seeded"],
    "assumptions": [*_LAYOUT_ASSUME, "the ASGI server follows the ASGI specification"],
    "technique": _LAYOUT_TECH,
    "level_note": "Sampled, not enumerated: no violation in the runs the evidence file "
    "counts. Real server code; ASGI server, clock and browsers are simulated. Trusts the "
    "reference model in sim/w_layout.py and asyncio's documented scheduling order.",
}
_ASGI_RULE = (
    "Each case is a generated component program shared by one to four connections of one "
    "application (standalone or middleware), each with its own location, script of "
    "stimuli, latencies, faults (malformed and unknown messages, floods, stalled or "
    "failing sends, failing handshakes, unregistered components, early disconnects, "
    "cancellation) and end, all drawn from the seed. Non-trivial: {}")
PROPS["C15"] = dict(_ASGI, rule=_ASGI_RULE.format(
    "at least two sessions and four updates"))
PROPS["C16"] = dict(_ASGI, rule=_ASGI_RULE.format("at least two renders and an update"))


def _bundle():
    """compile the client of /repo's working tree once, before the shards start"""
    import os
    import subprocess
    here = os.path.dirname(os.path.abspath(__file__))
    p = subprocess.run(["node", os.path.join(here, "js", "bundle.js")], text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    if p.returncode:
        print("cannot compile the client:\n" + p.stdout[-3000:])
        raise SystemExit(2)


_JS_SRC = "src/js/packages/@reactpy/client/src/"
_JS = {
    "world": "sim/js/world.js", "engine": "node", "prepare": _bundle,
    "budget": {"quick": 60, "thorough": 780},
    "states": "shapes (tags, nesting) of the page, counted per shard",
    "real": [_JS_SRC + f for f in (
        "client.ts", "websocket.ts", "mount.tsx", "components.tsx", "vdom.tsx", "handler.ts",
        "bind.tsx", "logger.ts")] + ["src/js/packages/event-to-object/src"],
    "stub": ["WebSocket, timers, animation frames, both clocks and the page (sim/js/browser.js, "
             "virtual time)", "DOM (sim/js/dom.js)",
             "preact and preact/hooks (sim/js/preact.js): not installed here",
             "json-pointer (sim/js/json-pointer.js): not installed here",
             "JavaScript modules that components are imported from",
             "server: a small reference server or a scripted one", "user"],
    "assumptions": [
        "preact schedules renders, effects and DOM updates as its version 10 does",
        "a page delivers timers and socket events in the order of their times"],
    "technique": "deterministic simulation: seeded search over server updates, user actions, "
    "network schedules and faults on a simulated page with virtual time, reference model as "
    "oracle",
    "level_note": "Sampled, not enumerated: no violation in the runs the evidence file counts. "
    "Real TypeScript client compiled from the tree; preact, DOM, timers, sockets and server "
    "are simulated. Trusts sim/js/preact.js and sim/js/dom.js to behave as preact and "
    "browsers do.",
}
_JS_RULE = (
    "Each case is a generated page and client configuration, a list of connections with "
    "delays, latencies, failures and losses, {}and a list of user actions with times, all "
    "drawn from the seed. Non-trivial: {}")
_APP = "fields and buttons with handlers, "
PROPS["C17"] = dict(_JS, rule=_JS_RULE.format(
    _APP, "a message was submitted while not connected, and two were sent"))
PROPS["C18"] = dict(_JS, rule=_JS_RULE.format("", "at least two connections"))
PROPS["C19"] = dict(_JS, rule=_JS_RULE.format(
    _APP + "throttles and delays, ", "three events, and a limited handler"))
PROPS["C20"] = dict(_JS, rule=_JS_RULE.format(
    _APP + "transformations of the typed text, ", "the server handled at least two events"))
PROPS["C21"] = dict(_JS, rule=_JS_RULE.format(
    "random models and updates for each, ", "at least three updates"))
PROPS["C27"] = dict(_JS, rule=_JS_RULE.format(
    "random models that import components and updates for each, modules that load slowly or "
    "not at all, ", "a settled imported component was compared with its model"))

_THREADS_TECH = (
    "deterministic simulation: seeded search over interleavings of real threads that run one "
    "at a time under a cooperative scheduler, with crashes, stalls and failing calls; {}")
PROPS["C22"] = {
    "world": "sim.w_e2e", "prepare": _bundle, "budget": {"quick": 60, "thorough": 780},
    "rule": "Each case is an application (components with several versions of their views, "
    "fields whose handlers transform the text), client settings, three links with delays, "
    "jitter and slow writes, refused connections, and a list of renders, user events, typing, "
    "losses, stalls, server restarts, clock jumps and hidden pages, all drawn from the seed. "
    "Non-trivial: at least three updates and one message arrived, and the page was compared "
    "twice",
    "states": "shapes of the page (tags and numbers of handlers), counted per shard",
    "real": [*_LAYOUT_REAL, "reactpy.executors.asgi (middleware, standalone)",
             "the served page's script"] + _JS["real"],
    "stub": ["network and ASGI server", "event loop clock, timers and selector",
             "process boundary: the browser runs in lockstep with the server's clock"] +
            _JS["stub"][:4],
    "assumptions": [*_LAYOUT_ASSUME, *_JS["assumptions"],
                    "the first connection can be made (the client gives up where it cannot)",
                    "a half-open connection is noticed by both sides in the end"],
    "technique": "deterministic simulation: seeded search over user actions, network schedules "
    "and faults with server and browser client in one simulated system, with the expected "
    "page as oracle",
    "level_note": "Sampled, not enumerated: no violation in the runs the evidence file counts. "
    "Real server stack and real client; network, clocks, DOM and preact are simulated.",
}
PROPS["C23"] = {
    "world": "sim.w_pyscript", "budget": {"quick": 60, "thorough": 780},
    "rule": "Each case is one to three applications on a page, with user files, initial content, "
    "components with several versions of their views (elements, fragments, text, keys, "
    "attributes, handlers), updates, bursts of user events before and after the page has "
    "settled, failing handlers and removals from the page, all drawn from the seed. "
    "Non-trivial: at least three renders and one comparison of the page",
    "states": "shapes of the views (tags and numbers of handlers), counted per shard",
    "real": ["reactpy.executors.pyscript (layout_handler, component_template, utils)",
             "reactpy.core.layout and hooks", "jsonpointer", "asyncio tasks and queues"],
    "stub": ["DOM and HTML parser", "morphdom (a port of its algorithm)",
             "pyodide and pyscript modules, with proxies that are counted",
             "event loop clock and timers"],
    "assumptions": ["ids are unique and stay on their level of the page (morphdom does not "
                    "support that they move to another)",
                    "options of event handlers other than prevent_default and "
                    "stop_propagation are not offered by PyScript"],
    "technique": "deterministic simulation: seeded search over histories of updates, events and "
    "removals from the page on a simulated browser, with the expected view as oracle",
    "level_note": "Sampled, not enumerated: no violation in the runs the evidence file counts. "
    "Real layout handler and layout; DOM, morphdom and pyodide are stand-ins.",
}
PROPS["C24"] = {
    "world": "sim.w_fs", "budget": {"quick": 60, "thorough": 780},
    "rule": "Each case is a list of publishers (processes, or threads of one process) with the "
    "modules they publish as a copy, link or text, readers, the point of a crash, stalls, "
    "failing calls, clock jumps and what is in the directory before, all drawn from the seed; "
    "every file system call is a point where the scheduler may switch. Non-trivial: at least "
    "four publications and three reads",
    "states": "fates of the publishers with the number of calls they made, counted per shard",
    "real": ["reactpy.reactjs.module", "reactpy.reactjs.utils", "pathlib, shutil, io",
             "a directory of the sandbox's file system"],
    "stub": ["process scheduling and process numbers", "clocks and file times",
             "reads and writes transfer a few bytes at a time", "crashes: buffers are lost",
             "endpoint that serves the file: a reader of the published path"],
    "assumptions": ["a rename is atomic, and data written before a crash of the process is "
                    "not lost (the machine itself does not crash)",
                    "renaming and linking do not fail (the fallbacks for Windows are not "
                    "exercised)"],
    "technique": _THREADS_TECH.format("linearizability of the recorded history as oracle"),
    "level_note": "Sampled, not enumerated: no violation in the runs the evidence file counts. "
    "Real publication code on real files; scheduling, clock and faults are simulated.",
}

PROPS["C25"] = {
    "world": "sim.w_threads", "budget": {"quick": 60, "thorough": 780},
    "rule": "Each case is a component program with several states, threads that call their "
    "setters (values, updater functions, reducers), user events whose handlers do so on the "
    "session's thread or in a worker, preemption and stall rates, and the time at which the "
    "session ends, all drawn from the seed; every line of reactpy is a point where the "
    "scheduler may switch. Non-trivial: at least two states were set and five switches",
    "states": "progress of the threads at the end of the run, counted per shard",
    "real": _LAYOUT_REAL[:-2] + ["real threads, of which one runs at a time",
                                 "asyncio tasks, futures and queues", "anyio task groups"],
    "stub": ["thread scheduling (sys.settrace and a cooperative scheduler)",
             "event loop clock, timers and wake-ups (a loop that sleeps is only woken by "
             "call_soon_threadsafe)", "executor threads", "locks that reactpy makes",
             "websocket transport and browser"],
    "assumptions": ["threads are preempted between lines of Python, not within one",
                    "updater functions of the application do not wait for other threads"],
    "technique": _THREADS_TECH.format("order of updates and the final view as oracle"),
    "level_note": "Sampled, not enumerated: no violation in the runs the evidence file counts. "
    "Real code in real threads; scheduling, clock and stalls are simulated.",
}
PROPS["C29"] = {
    "world": "sim.w_rewrite", "budget": {"quick": 60, "thorough": 780},
    "rule": "Each case is a tree of source files (nested statements and element calls in every "
    "kind of position, comments, indentation, encodings, modes, links, invalid and unreadable "
    "files), one or two processes that run a command with their arguments, locale, the point "
    "of a crash and failing calls, and readers, all drawn from the seed; every file system "
    "call is a point where the scheduler may switch. Afterwards the command is run twice "
    "without faults. Non-trivial: two commands ended and a file had to be changed",
    "states": "fates of the processes with the number of calls they made, counted per shard",
    "real": ["reactpy._console", "click", "ast, tokenize, pathlib, shutil, tempfile, io",
             "a directory of the sandbox's file system"],
    "stub": ["process scheduling", "file times", "locale", "random names of temporary files",
             "reads and writes transfer a few bytes at a time", "crashes: buffers are lost"],
    "assumptions": ["a rename is atomic, and data written before a crash of the process is "
                    "not lost (the machine itself does not crash)",
                    "what the program has to mean is generated along with it: elements are "
                    "html.x(...), calls of a declared element's name and vdom(...)"],
    "technique": _THREADS_TECH.format("the program the source has to mean as oracle"),
    "level_note": "Sampled, not enumerated: no violation in the runs the evidence file counts. "
    "Real commands on real files; scheduling, disk faults and locale are simulated.",
}

PROPS["C30"] = {
    "world": "sim.w_page", "prepare": _bundle, "budget": {"quick": 60, "thorough": 780},
    "rule": "Each case is a template with one to four component tags among text (some of the "
    "same component, one that is not registered, classes from variables), a path prefix, "
    "client settings, JavaScript modules that some components use, and a list of user and "
    "server actions and faults of single mounts (connections lost, refused, stalled, flooded, "
    "restarts of the server, slow or failing modules), all drawn from the seed. Non-trivial: "
    "at least two mounts, two checks at rest and three updates",
    "states": "rows and counters of each mount by number of connections, counted per shard",
    "real": ["reactpy.templatetags (in a Jinja2 environment)", "reactpy.executors.utils",
             "reactpy.executors.asgi.middleware with servestatic, and its WebSocket sessions",
             "reactpy.core", "reactpy.reactjs (publication of modules)"] + _JS["real"],
    "stub": ["the ASGI server and the network", "the user's ASGI application",
             "event loop clock and timers"] + _JS["stub"][:5],
    "assumptions": ["a browser runs classic scripts before module scripts, in their order",
                    *_JS["assumptions"]],
    "technique": "deterministic simulation: seeded search over user actions, server updates, "
    "network schedules and faults of several sessions of one page, with the actions of each "
    "mount as its oracle",
    "level_note": "Sampled, not enumerated: no violation in the runs the evidence file counts. "
    "Real template tag, middleware, server core and TypeScript client; the network, clocks, "
    "preact and the browser are simulated.",
}

PROPS["C28"] = {
    "world": "sim.w_http", "budget": {"quick": 60, "thorough": 780},
    "rule": "Each case is a list of configurations (rendering on the server or the client, "
    "texts, headers, routes), one to three replicas that are started and restarted with them, "
    "and a list of requests of clients that cache pages, publications of modules, WebSocket "
    "and lifespan scopes, clock jumps, slow, aborted and cancelled transfers and files that "
    "appear late, all drawn from the seed. Non-trivial: at least two pages were transferred "
    "and one was revalidated",
    "states": "combinations of application, method, condition and status, counted per shard",
    "real": ["reactpy.executors.asgi (standalone, pyscript, middleware)",
             "reactpy.executors.utils, reactpy.executors.pyscript.utils (HTML)",
             "reactpy.utils (conversion to HTML)", "asgi_tools responses",
             "servestatic for modules, on a directory of the sandbox's file system"],
    "stub": ["ASGI server, network and load balancer", "HTTP clients with caches",
             "event loop clock and timers, executor threads", "wall clock (time.time, "
             "datetime.now)", "the wheel that PyScript pages name"],
    "assumptions": ["a client that revalidates by date alone can't tell pages of the same "
                    "second apart (HTTP)",
                    "the server omits the content-length of 304 responses (asgi_tools sends 0)"],
    "technique": "deterministic simulation: seeded search over histories of requests, restarts "
    "and faults, with the page of the answering instance as oracle",
    "level_note": "Sampled, not enumerated: no violation in the runs the evidence file counts. "
    "Real ASGI applications; server, clients, clocks and transfers are simulated.",
}

PROPS["C31"] = {
    "world": "sim.w_imports", "budget": {"quick": 60, "thorough": 780},
    "rule": "Each case is a graph of one to seven modules (URLs on three hosts, some behind "
    "redirects, or files) whose sources are laid out in several styles and refer to each other "
    "in every form of a reference, and a history of two to fifteen imports by URL, file or "
    "text, each with the names asked for, the depth, other options and the failures that hold "
    "meanwhile, all drawn from the seed. Non-trivial: two requests and a name that was found",
    "states": "requests, failures and result of each import, counted per shard",
    "real": ["reactpy.reactjs", "requests (sessions, redirects, errors)", "urllib3's responses",
             "a directory of the sandbox's file system"],
    "stub": ["what each URL answers, how long that takes and how it fails (in place of the "
             "connections of requests' HTTPAdapter)"],
    "assumptions": ["failures hold during one import", "sources have the statements the "
                    "generator knows: no computed export lists, no exports inside comments or strings"],
    "technique": "deterministic simulation: seeded search over module graphs, histories of "
    "imports and network failures, with the generated graph as oracle",
    "level_note": "Sampled, not enumerated: no violation in the runs the evidence file counts. "
    "Real resolver and HTTP library; the network is simulated.",
}
