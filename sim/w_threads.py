"""State that is set from several threads.

Each session's event loop runs in a thread of its own, other threads call state setters. All
of them are real threads of which one runs at a time: at every line of reactpy's core, and
inside the updater functions, the seeded scheduler may let another one go on."""
from __future__ import annotations

import asyncio
import hashlib
import heapq
import json
import logging
import os
import random
import sys

from sim import boot
from sim.loop import SimLoop
from sim.threads import Sched

boot.install()

from reactpy import component, config, html, use_effect, use_reducer, use_state  # noqa: E402
from reactpy.core.layout import Layout  # noqa: E402
from reactpy.core.serve import serve_layout  # noqa: E402

for _o in (config.REACTPY_ASYNC_RENDERING, config.REACTPY_DEBUG, config.REACTPY_CHECK_VDOM_SPEC):
    _o.current = not _o.current  # an option that was never set takes longer to read
    _o.current = not _o.current
config.REACTPY_MAX_QUEUE_SIZE.current = 7
for _tag in ("p", "div"):
    getattr(html, _tag)  # made on first use, which would differ from later ones
CORE = os.path.join(boot.REPO, "src", "reactpy") + os.sep
logging.getLogger("asyncio").setLevel(logging.ERROR)


class ThreadLoop(SimLoop):
    """an event loop in a scheduled thread, woken only by call_soon_threadsafe"""

    def __init__(self, rng, world):
        super().__init__(rng)
        self.world, self.sched = world, world.sched
        self.woken = False
        self.idle = False
        self.ended = False

    def time(self):
        return self.sched.now

    def _write_to_self(self):
        self.woken = True

    def call_soon_threadsafe(self, callback, *args, context=None):
        return asyncio.BaseEventLoop.call_soon_threadsafe(self, callback, *args, context=context)

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()

        def body(t):
            try:
                r, e = func(*args), None
            except Exception as error:  # noqa: BLE001
                r, e = None, error

            def done():
                if not fut.cancelled():
                    fut.set_exception(e) if e is not None else fut.set_result(r)

            if not self.is_closed():
                self.call_soon_threadsafe(done)

        self.world.thread("worker", body)
        return fut

    def _run_once(self):
        timers = self._scheduled
        while timers and timers[0]._cancelled:
            self._timer_cancelled_count -= 1
            heapq.heappop(timers)._scheduled = False
        if not self._ready and not self._stopping:
            timeout = max(0.0, timers[0]._when - self.sched.now) if timers else None
            self.idle = not timers
            self.sched.wait(lambda: self.woken, timeout)
            self.idle = False
        else:
            self.sched.point()
        self.woken = False
        while timers and timers[0]._when <= self.sched.now + 1e-9:
            h = heapq.heappop(timers)
            h._scheduled = False
            if h._cancelled:
                self._timer_cancelled_count -= 1
            else:
                self._ready.append(h)
        for _ in range(len(self._ready)):
            h = self._ready.popleft()
            if not h._cancelled:
                self.steps += 1
                h._run()
                self.sched.point()


# ------------------------------------------------------------------ plans
def gen(rng, prop):
    n_sessions = rng.choice([1, 1, 1, 2])
    children = [{"name": f"c{j}", "states": [rng.choice(["append", "append", "set", "reduce"])
                                             for _ in range(rng.randint(1, 2))],
                 "effect": rng.random() < 0.15} for j in range(rng.randint(1, 3))]
    n_ops = rng.choice([1, 2, 4, 8])

    def op(t, k):
        s = rng.randrange(n_sessions)
        if rng.random() < (0.04 if burst else 0.12):
            return {"s": s, "c": "root", "show": [c["name"] for c in children
                                                  if rng.random() < 0.6]}
        c = rng.choice(children)
        return {"s": s, "c": c["name"], "i": rng.randrange(len(c["states"])),
                "id": t * 100 + k + 1}

    threads = []
    burst = rng.random() < 0.35  # all threads set the same component's states at once
    if burst:
        n_sessions, children = 1, children[:1]
    for t in range(rng.randint(2, 4) if burst else rng.randint(1, 3)):
        threads.append({"start": 0.01 if burst else rng.choice([0, 0, 0.001, 0.01]), "ops": [
            dict(op(t, k), gap=0 if burst else rng.choice([0, 0, 0, 0.001, 0.01]), wait=rng.random() < 0.9)
            for k in range(rng.randint(1, n_ops))]})
    events = [{"at": round(rng.random() * 0.02, 4), "thread": rng.random() < 0.4,
               "op": op(90, k)} for k in range(rng.randint(0, 4))]
    return {"seed": rng.getrandbits(32), "sessions": n_sessions, "children": children,
            "threads": threads, "events": events, "async": rng.random() < 0.5,
            "queue": rng.choice([1, 2, 1000, 1000]), "show": rng.random() < 0.8,
            "switch": rng.choice([0.005, 0.02, 0.1, 0.3, 0.6]),
            "stall": rng.choice([0, 0.003, 0.01, 0.03, 0.1]),
            "slow": rng.choice([None, [rng.choice([0.05, 0.2, 0.4, 0.6]), rng.getrandbits(20)]]),
            "send": rng.choice([0, 0, 0.0005, 0.005]),
            "early_end": rng.choice([None, None, None, None, 0.005, 0.02])}


def shrink(plan):
    def cp():
        return json.loads(json.dumps(plan))

    for i in range(len(plan["threads"])):
        p = cp()
        p["threads"].pop(i)
        yield p
    for i in range(len(plan["events"])):
        p = cp()
        p["events"].pop(i)
        yield p
    for i, t in enumerate(plan["threads"]):
        for j in range(len(t["ops"])):
            p = cp()
            p["threads"][i]["ops"].pop(j)
            yield p
        for j, o in enumerate(t["ops"]):
            if o["gap"]:
                p = cp()
                p["threads"][i]["ops"][j]["gap"] = 0
                yield p
    for i in range(len(plan["children"])):
        name = plan["children"][i]["name"]
        if len(plan["children"]) > 1 and not any(
                o["c"] == name for t in plan["threads"] for o in t["ops"]) and not any(
                e["op"]["c"] == name for e in plan["events"]):
            p = cp()
            p["children"].pop(i)
            yield p
    for i, c in enumerate(plan["children"]):
        if c["effect"]:
            p = cp()
            p["children"][i]["effect"] = False
            yield p
    for k, v in (("stall", 0), ("slow", None), ("sessions", 1), ("queue", 1000), ("send", 0), ("early_end", None),
                 ("show", True)):
        if plan[k] != v and not (k == "sessions" and any(
                o["s"] for t in plan["threads"] for o in t["ops"])) and not (
                k == "sessions" and any(e["op"]["s"] for e in plan["events"])):
            p = cp()
            p[k] = v
            yield p


# ------------------------------------------------------------------ the run
class Session:
    def __init__(self, world, no):
        self.world, self.no = world, no
        self.loop = ThreadLoop(random.Random(f"{world.plan['seed']}:{no}"), world)
        self.setters = {}  # name -> (instance, [setter])
        self.model = None
        self.shown = {}  # instance -> [values]
        self.over = False
        self.inbox = None
        self.handlers = {}
        self.root_setter = None

    # the view of the client
    def apply(self, u):
        w = self.world
        if u["type"] != "layout-update":
            return
        if u["path"] == "":
            self.model = u["model"]
        else:
            node = self.model
            parts = u["path"].strip("/").split("/")
            for p in parts[:-1]:
                node = node[int(p)] if isinstance(node, list) else node[p]
            last = parts[-1]
            node[int(last) if isinstance(node, list) else last] = u["model"]
        before, self.shown = self.shown, {}
        self.handlers = {}
        self.collect(self.model)
        for inst, vals in self.shown.items():
            for i, v in enumerate(vals):
                w.displayed.setdefault((inst, i), []).append(v)
                old = before.get(inst)
                if old is not None and isinstance(v, list) and len(v) < len(old[i]):
                    w.violate("back", f"the page showed {v} for a state that it had shown "
                              f"as {old[i]} before")
        w.ev("update", self.no, u["path"], json.dumps(self.shown, sort_keys=True))

    def collect(self, node):
        if isinstance(node, dict):
            a = node.get("attributes") or {}
            if "data-inst" in a:
                self.shown[a["data-inst"]] = json.loads(a["data-vals"])
            for h, d in (node.get("eventHandlers") or {}).items():
                self.handlers[h] = d["target"]
            for c in node.get("children") or ():
                self.collect(c)

    async def main(self):
        w = self.world
        self.inbox = asyncio.Queue()

        async def send(u):
            if w.plan["send"]:
                await asyncio.sleep(w.plan["send"])
            self.apply(json.loads(json.dumps(u)))

        async def recv():
            m = await self.inbox.get()
            if m is None:
                raise ConnectionResetError
            return m

        self.layout = Layout(self.program())
        try:
            await serve_layout(self.layout, send, recv)
        except BaseException as e:  # noqa: BLE001
            if not (self.over and _only_reset(e)):
                w.violate("session", f"the session ended with {_describe(e)}")
        self.ended_tasks = [t for t in asyncio.all_tasks(self.loop)
                            if t is not asyncio.current_task()]

    def program(self):
        w, sess = self.world, self

        @component
        def Child(spec):
            inst, _ = use_state(lambda: w.new_instance())
            vals, setters = [], []
            for i, kind in enumerate(spec["states"]):
                if kind == "reduce":
                    v, s = use_reducer(lambda old, new: w.updater((inst, i), old, new), ())
                else:
                    v, s = use_state((lambda: ()) if kind == "append" else 0)
                vals.append(v)
                setters.append(s)
            sess.setters[spec["name"]] = (inst, setters)

            def start():
                if spec["effect"]:
                    w.thread("effect", lambda t: w.do(sess, {
                        "c": spec["name"], "i": 0, "id": 5000 + inst, "s": sess.no}, inst))

            use_effect(start, [])
            return html.p({"data-inst": inst, "data-vals": json.dumps(vals)})

        @component
        def Root():
            names = [c["name"] for c in w.plan["children"]] if w.plan["show"] else []
            show, set_show = use_state(lambda: names)
            sess.root_setter = set_show
            inst, _ = use_state(lambda: w.new_instance())
            sess.root_inst = inst

            async def click(e):
                o = e["op"]
                if e["thread"]:
                    await asyncio.to_thread(w.do, sess, o)
                else:
                    w.do(sess, o)

            return html.div(
                {"onClick": click, "data-inst": inst, "data-vals": json.dumps([len(show)])},
                [Child(c, key=c["name"]) for c in w.plan["children"] if c["name"] in show])

        return Root()


def _only_reset(e):
    if isinstance(e, BaseExceptionGroup):
        return all(_only_reset(x) for x in e.exceptions)
    return isinstance(e, ConnectionResetError)


def _describe(e):
    if isinstance(e, BaseExceptionGroup):
        return ", ".join(_describe(x) for x in e.exceptions)
    return f"{type(e).__name__}: {e}"


class World:
    def __init__(self, plan, want_trace):
        self.plan = plan
        self.bad, self.trace, self.stats, self.shapes = [], [], {}, set()
        self.want_trace = want_trace
        self.hash = hashlib.sha1()
        self.instances = 0
        self.displayed = {}
        self.ops = {}  # (instance, state) -> operations
        self.busy = 0  # threads other than those of loops
        self.kinds = {c["name"]: c["states"] for c in plan["children"]}

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def violate(self, kind, msg):
        self.bad.append((kind, msg))
        self.ev("BAD", kind, msg)

    def ev(self, *a):
        t = self.sched.here()
        line = (self.sched.steps, round(self.sched.now, 5), t.name if t else "-", *a)
        self.hash.update(repr(line).encode())
        if self.want_trace:
            self.trace.append(line)

    def new_instance(self):
        self.instances += 1
        return self.instances

    # -- threads
    def tracer(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(CORE):
            return self.line
        return None

    def line(self, frame, event, arg):
        if event == "line":
            self.sched.point()
            if self.plan["stall"] and self.rng.random() < self.plan["stall"]:
                # this thread is not scheduled for a while
                self.count("fault_stall")
                self.sched.sleep(self.rng.choice((0.0001, 0.001, 0.02)))
            slow = self.plan["slow"]
            if slow:
                # some lines take long, whoever runs them
                k = frame.f_code.co_name, frame.f_lineno
                if k not in self.slow:
                    self.slow[k] = random.Random(f"{slow}:{k}").random() < slow[0]
                if self.slow[k] and self.rng.random() < 0.5:
                    self.count("fault_slow_line")
                    self.sched.sleep(self.rng.choice((0.00001, 0.0001, 0.001)))
        return self.line

    def thread(self, name, body, at=0.0, loop=False):
        def run(t):
            sys.settrace(self.tracer)
            try:
                return body(t)
            finally:
                sys.settrace(None)
                if not loop:
                    self.busy -= 1

        if not loop:
            self.busy += 1
        t = self.sched.spawn(f"{name}{len(self.sched.tasks)}", run, at)
        t.pid = 1
        return t

    # -- operations
    def updater(self, key, old, new):
        # the updater function of the application
        if callable(new):
            return new(old)  # only looks
        self.sched.point()
        return (*old, new)

    def do(self, sess, o, inst=None):
        if o["c"] == "root":
            self.ev("show", o["show"])
            self.count("shown_sets")
            sess.root_setter(list(o["show"]))
            return
        if o["c"] not in sess.setters:
            return
        at, setters = sess.setters[o["c"]]
        if inst is not None and at != inst:
            return
        key, kind, s = (at, o["i"]), self.kinds[o["c"]][o["i"]], setters[o["i"]]
        rec = {"id": o["id"], "a": self.sched.steps, "b": None, "kind": kind}
        self.ops.setdefault(key, []).append(rec)
        self.ev("set", key, o["id"])
        if kind == "append":
            s(lambda old: self.updater(key, old, o["id"]))
        else:
            s(o["id"])
        self.sched.steps += 1
        rec["b"] = self.sched.steps
        self.count("sets")
        self.ev("was set", key, o["id"])

    def caller(self, spec):
        def body(t):
            for o in spec["ops"]:
                if o["gap"]:
                    self.sched.sleep(o["gap"])
                sess = self.sessions[o["s"]]
                if o["wait"] or o["c"] == "root":
                    if not self.sched.wait(
                            lambda: sess.root_setter if o["c"] == "root"  # noqa: B023
                            else o["c"] in sess.setters, 0.05):  # noqa: B023
                        continue
                self.do(sess, o)
        return body

    def loop_thread(self, sess):
        def body(t):
            try:
                sess.loop.run_until_complete(sess.main())
            finally:
                sess.loop.ended = True
        return body

    def quiet(self):
        return self.busy == 1 and all(
            s.loop.ended or (s.loop.idle and not s.loop.woken) for s in self.sessions)

    def conductor(self, t):
        plan = self.plan
        sched = self.sched
        for e in sorted(plan["events"], key=lambda e: e["at"]):
            sched.sleep(max(0.0, e["at"] - sched.now))
            self.event(e)
        if plan["early_end"] is not None:
            sched.sleep(max(0.0, plan["early_end"] - sched.now))
            self.count("ended_early")
            self.end()
            return
        sched.wait(self.quiet)
        self.check("at the end")
        # nothing that happened before keeps later updates from being shown
        n = 20000
        for how in ("thread", "loop"):
            for sess in self.sessions:
                if sess.loop.ended:
                    continue
                for name, (inst, setters) in sorted(sess.setters.items()):
                    if inst not in sess.shown:
                        continue
                    for i in range(len(setters)):
                        n += 1
                        o = {"c": name, "i": i, "id": n, "s": sess.no}
                        if how == "thread":
                            self.do(sess, o)
                        else:
                            sess.loop.call_soon_threadsafe(self.do, sess, o)
            sched.wait(self.quiet)
            self.check(f"after another update from the {how}")
        self.end()

    def event(self, e):
        sess = self.sessions[e["op"]["s"]]
        target = sess.handlers.get("onClick")
        if target is None or sess.loop.ended:
            return
        self.count("events")
        sess.loop.call_soon_threadsafe(sess.inbox.put_nowait, {
            "type": "layout-event", "target": target, "data": [e]})

    def end(self):
        for sess in self.sessions:
            sess.over = True
            self.ev("end", sess.no)
            if not sess.loop.ended:
                sess.loop.call_soon_threadsafe(
                    lambda s=sess: s.inbox.put_nowait(None) if s.inbox else None)
        if not self.sched.wait(lambda: all(s.loop.ended for s in self.sessions), 60):
            self.violate("end", "the session did not end")

    # -- oracles
    def check(self, when):
        for sess in self.sessions:
            if sess.loop.ended:
                continue
            show = self.value(sess.root_setter)
            want = {sess.setters[n][0] for n in show if n in sess.setters}
            got = set(sess.shown) - {sess.root_inst}
            self.count("checks")
            if got != want or len(want) != len(show):
                self.violate("shown", f"{when}: the page shows {len(got)} components, but the "
                             f"state says {len(show)}")
                continue
            for name in show:
                inst, setters = sess.setters[name]
                vals = [self.value(s) for s in setters]
                vals = json.loads(json.dumps(vals))
                if sess.shown[inst] != vals:
                    self.violate("stale", f"{when}: the page shows {sess.shown[inst]}, but the "
                                 f"state is {vals}")
                for i, v in enumerate(vals):
                    self.explain((inst, i), v, when)

    def value(self, setter):
        out = []

        def look(v):
            out.append(v)
            return v

        setter(look)
        return out[0]

    def explain(self, key, v, when):
        ops = self.ops.get(key, [])
        shown = self.displayed.get(key, [])
        if isinstance(v, list):
            if sorted(v) != sorted(o["id"] for o in ops):
                self.violate("lost", f"{when}: updates {sorted(o['id'] for o in ops)} were made, "
                             f"the state contains {v}")
                return
            pos = {x: i for i, x in enumerate(v)}
            for a in ops:
                for b in ops:
                    if a["b"] is not None and a["b"] <= b["a"] and pos[a["id"]] > pos[b["id"]]:
                        self.violate("order", f"{when}: update {a['id']} had ended before "
                                     f"{b['id']} began, the state is {v}")
                        return
            for d in shown:
                if d != v[: len(d)]:
                    self.violate("shown", f"{when}: the page has shown {d}, no earlier value of {v}")
                    return
        elif ops:
            last = [o["id"] for o in ops if not any(
                o["b"] is not None and o["b"] <= p["a"] for p in ops)]
            if v not in last:
                self.violate("lost", f"{when}: the state is {v}, the last ones set were {last}")
        elif v != 0:
            self.violate("lost", f"{when}: the state is {v}, but nothing was set")

    def run(self):
        plan = self.plan
        boot.seed_run(plan["seed"])
        rng = random.Random(plan["seed"])
        self.slow = {}
        self.rng = random.Random(f"{plan['seed']}:stall")
        self.sched = Sched(rng, plan["switch"], max_steps=150_000, max_time=1000)
        config.REACTPY_ASYNC_RENDERING.current = plan["async"]
        config.REACTPY_MAX_QUEUE_SIZE.current = plan["queue"]
        config.REACTPY_DEBUG.current = False
        config.REACTPY_CHECK_VDOM_SPEC.current = False
        hook = sys.unraisablehook
        try:
            self.sessions = [Session(self, i) for i in range(plan["sessions"])]
            for s in self.sessions:
                self.thread("loop", self.loop_thread(s), loop=True)
            for spec in plan["threads"]:
                self.thread("caller", self.caller(spec), spec["start"])
            self.thread("conductor", self.conductor)
            self.sched.run()
            if self.sched.stuck:
                self.violate("stuck", self.sched.stuck)
            for t in self.sched.tasks:
                if t.error is not None:
                    self.violate("error", f"{t.name}: {_describe(t.error)}")
            for s in self.sessions:
                left = getattr(s, "ended_tasks", [])
                if left and not self.sched.stuck:
                    self.violate("left", f"{len(left)} tasks of the session run after its end: "
                                 f"{left[0].get_coro().__qualname__}")
                for ctx in s.loop.errors:
                    if "exception" in ctx:
                        self.violate("error", f"{ctx['message']}: {_describe(ctx['exception'])}")
            if plan["early_end"] is None:
                for r in boot.capture.records:
                    if r[0] >= logging.ERROR:
                        self.violate("error", f"logged: {r[2]}"[:200])
                        break
        finally:
            for s in self.sessions:
                s.loop.dispose()
            sys.unraisablehook = hook
        self.shapes.add(repr([(t.name[:4], t.points // 40) for t in self.sched.tasks]))
        self.count("switches", self.sched.switches)
        self.count("threads", len(self.sched.tasks))
        self.digest = self.hash.hexdigest()
        self.sim_time = self.sched.now
        self.steps = self.sched.steps
        return self


def run(plan, want_trace=False):
    return World(plan, want_trace).run()


def judge(prop, plan, w):
    return w.bad


def nontrivial(prop, w):
    return w.stats.get("sets", 0) >= 2 and w.stats.get("switches", 0) >= 5
