"""C14: a session repeats the same round of updates many times; what it retains while idle
must not grow with the number of rounds. (C07: the same for sessions repeated in one
process.) The harness itself keeps nothing per round.

Measured at equidistant checkpoints, each at an idle moment after a garbage collection:
tasks of the session that are not done, live component objects and handler functions
(weak references), entries of all containers the layout or reactpy's modules hold, and
allocated memory blocks of the whole process.
"""
from __future__ import annotations

import asyncio
import collections
import gc
import hashlib
import json
import random
import sys
import weakref

from . import boot
from .loop import SimLoop, StepLimit

boot.install()

from reactpy import (  # noqa: E402
    component,
    config,
    create_context,
    html,
    use_async_effect,
    use_callback,
    use_context,
    use_debug_value,
    use_effect,
    use_memo,
    use_reducer,
    use_ref,
    use_state,
)
from reactpy.core.layout import Layout  # noqa: E402
from reactpy.core.serve import serve_layout  # noqa: E402

WARM, POINTS = 4, 4
BLOCKS = 8  # blocks per round that count as growth; interpreter noise stays below 4
STEP = 5  # rounds between checkpoints
LONG = 60  # the same in the second look at runs whose memory seems to grow: growth that
#            is not linear in the number of rounds (hash tables, caches) stays below it


def gen_leak(r, sessions=False):
    items = r.randrange(1, 4)
    feats = {
        "eff": r.choice((None, None, "none", "empty", "dep", "infer")),
        "effclean": r.random() < 0.7,
        "efffail": r.random() < 0.1,
        "aeff": r.choice((None, None, "none", "empty", "dep", "infer")),
        "dur": r.choice((0, 1, 10, 50)),
        "shield": r.random() < 0.3,
        "aclean": r.random() < 0.7,
        "memo": r.choice((None, None, None, "dep", "infer")),
        "callback": r.choice((None, None, None, "dep", "infer")),
        "debugvalue": r.random() < 0.2,
        "reducer": r.random() < 0.2,
        "ctx": r.random() < 0.4,
        "ref": r.random() < 0.3,
        "input": r.random() < 0.5,
        "hasync": r.choice((None, 0, 1, 20)),
        "hraise": r.random() < 0.15,
        "leaf": r.random() < 0.7,
        "leafkey": r.random() < 0.3,
        "decor": r.random() < 0.2,
        "failing": r.random() < 0.25,
        "dup": r.random() < 0.08,
        "cond": r.random() < 0.3,
    }
    ops = []
    for _ in range(r.randrange(2, 9)):
        k = r.choices(("root", "item", "ev", "burst", "stale", "mode", "fail", "bogus",
                       "twice"), (3, 4, 5, 2, 1, 4, 2 if feats["failing"] else 0, 1, 2))[0]
        ops.append([k, r.randrange(100), r.randrange(5), r.choice((None, 1)),
                    r.choice((0, 0, 1, 2, 5, 8, 30, -1))])
    return {
        "kind": "leak", "world": "layout", "prop": "C07" if sessions else "C14",
        "cfg": {"async": r.random() < 0.75, "queue": r.choice((1, 2, 1000)),
                "send": r.choice((0, 0, 1, 15)), "sessions": sessions,
                "keys": r.choice(("same", "fresh", "fresh", "none")),
                "debug": r.random() < 0.2,
                "early": r.random() < 0.5, "how": r.choice(("cancel", "recv", "send"))},
        "items": items, "f": feats, "ops": ops, "loopseed": r.randrange(1 << 30),
    }


CONTAINERS = (dict, list, set, frozenset, tuple, collections.deque, weakref.WeakSet,
              weakref.WeakKeyDictionary, weakref.WeakValueDictionary)


def entries(roots):
    """number of entries of all containers reachable from here through objects of the
    code under test"""
    seen, stack, total = set(), list(roots), 0
    while stack:
        o = stack.pop()
        if id(o) in seen:
            continue
        if isinstance(o, CONTAINERS):
            total += len(o)
        elif isinstance(o, type) or not type(o).__module__.startswith(
                ("reactpy", "asyncio", "_asyncio", "anyio")):
            continue
        seen.add(id(o))
        stack.extend(gc.get_referents(o))
    return total


def module_state():
    out = []
    for name, m in sorted(sys.modules.items()):
        if name.startswith("reactpy") and m is not None:
            for k, v in vars(m).items():
                if isinstance(v, CONTAINERS) and not k.startswith("__"):
                    out.append(v)
    return out


def deps_of(kind, n):
    return {"none": None, "empty": [], "dep": [n], "infer": ...}[kind]


class Leak:
    def __init__(self, plan, want_trace=False, step=STEP):
        self.step = step
        self.plan = plan
        self.cfg = plan["cfg"]
        self.f = plan["f"]
        self.violations = {}
        self.stats = {}
        self.trace = []
        self.want = want_trace
        self.h = hashlib.blake2b(digest_size=12)
        self.shapes = set()
        self.live = weakref.WeakSet()
        self.handlers = weakref.WeakSet()
        self.setters = {}
        self.round = 0
        self.failing = False
        self.layout = None
        self.points = []
        self.suspect = False
        self.nev = 0

    def log(self, *a):
        rec = (self.loop.steps, round(self.loop._vtime, 6), *a)
        self.h.update(repr(rec).encode())
        if self.want:
            self.trace.append(rec)

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    # ---- program ------------------------------------------------------------------
    def build(self):
        me = weakref.proxy(self)
        f = self.f
        ctx = create_context(0)

        def handler(set_n):
            if f["hasync"] is not None:
                async def h(e):
                    me.count("handled")
                    await asyncio.sleep(f["hasync"] / 1000)
                    if f["hraise"]:
                        raise ValueError
                    set_n(lambda x: (x + 1) % 3)
            else:
                def h(e):
                    me.count("handled")
                    if f["hraise"]:
                        raise ValueError
                    set_n(lambda x: (x + 1) % 3)
            me.handlers.add(h)
            return h

        def Leaf(i, v):
            me.count("renders")
            n, set_n = use_state(0)
            me.setters["leaf", i] = set_n
            c = use_context(ctx) if f["ctx"] else 0
            return html.p({"onClick": handler(set_n)}, f"{n} {v} {c}")

        leaf = component(Leaf)

        def Item(i, tick):
            me.count("renders")
            n, set_n = use_state(0)
            me.setters["item", i] = set_n
            if f["ref"]:
                use_ref(0).current = n
            if f["memo"]:
                use_memo(lambda: [n], ... if f["memo"] == "infer" else [n])
            if f["callback"]:
                use_callback(lambda: n, ... if f["callback"] == "infer" else [n, tick])
            if f["debugvalue"]:
                use_debug_value(lambda: f"{n} {tick}")
            if f["reducer"]:
                use_reducer(lambda s, a: s + a + n, 0)
            if f["eff"]:
                def eff():
                    me.count("effect_runs")
                    if f["efffail"]:
                        raise ValueError
                    return (lambda: me.count("cleanups")) if f["effclean"] else None
                use_effect(eff, deps_of(f["eff"], n))
            if f["aeff"]:
                async def aeff():
                    me.count("effect_runs")
                    await asyncio.sleep(f["dur"] / 1000)
                    return (lambda: me.count("cleanups")) if f["aclean"] else None
                use_async_effect(aeff, deps_of(f["aeff"], n),
                                 shield=f["shield"])
            if me.failing and f["failing"]:
                me.count("fault_render_error")
                raise ValueError("x")
            kids = []
            if f["leaf"]:
                k = f"r{me.round}" if f["leafkey"] else None
                kids.append(me.track(leaf(i, n, key=k)))
            if f["input"]:
                on = {"onChange": handler(set_n), "onInput": handler(set_n)}
                if f["cond"] and not tick:
                    on = {}
                kids.append(html.input({"value": str(n), **on}))
            return html.div({"onClick": handler(set_n)}, str(tick), *kids)

        item = component(Item)

        def Root():
            me.count("renders")
            t, set_t = use_state(0)
            m, set_m = use_state(0)
            me.setters["root", 0] = set_t
            me.setters["mode", 0] = set_m
            out = []
            for i in range(me.plan["items"] + m % 2):
                ks = me.cfg["keys"]
                key = (None if ks == "none" else f"k{(i + m) % 5}" if ks == "same"
                       else f"r{me.round}.{i}")
                if f["dup"] and m == 2:
                    key = "d"
                out.append(me.track(item(i, t, key=key)))
            if m == 1:
                out.append(html.span({"onClick": handler(set_t), "key": f"s{me.round}"}))
            if f["ctx"]:
                return html.div(ctx(*out, value=t))
            return html.div(*out)

        return component(Root)

    def track(self, c):
        self.live.add(c)
        return c

    # ---- client -------------------------------------------------------------------
    def targets(self):
        out = []
        stack = [self.view]
        while stack:
            n = stack.pop()
            if isinstance(n, dict):
                for h in (n.get("eventHandlers") or {}).values():
                    out.append(h["target"])
                stack.extend(reversed(n.get("children") or []))
        return out

    def apply(self, u):
        u = json.loads(json.dumps(u))
        self.count("updates")
        if u["path"] == "":
            self.view = u["model"]
            return
        cur = self.view
        parts = u["path"].split("/")[1:]
        try:
            for p in parts[:-1]:
                cur = cur[int(p)] if isinstance(cur, list) else cur[p]
            if isinstance(cur, list):
                cur[int(parts[-1])] = u["model"]
            else:
                cur[parts[-1]] = u["model"]
        except (KeyError, IndexError, ValueError):
            pass  # judged by C01

    async def send(self, u):
        if self.closing and self.cfg["how"] == "send":
            raise ConnectionError
        if self.cfg["send"]:
            self.count("fault_slow_send")
            await asyncio.sleep(self.cfg["send"] / 1000)
        self.apply(u)

    async def recv(self):
        m = await self.inbox.get()
        if m is None:
            raise ConnectionError
        return m

    async def session(self):
        layout = Layout(self.root())
        if not self.cfg["sessions"]:
            self.layout = layout
        await serve_layout(layout, self.send, self.recv)

    async def idle(self):
        self.idle_fut = self.loop.create_future()
        await self.idle_fut
        self.idle_fut = None

    def on_idle(self):
        f = self.idle_fut
        if f is not None and not f.done():
            f.set_result(None)
            return True
        return False

    def emit(self, target, seq, n=1):
        for _ in range(n):
            self.nev += 1
            m = {"type": "layout-event", "target": target, "data": [{}]}
            if seq is not None:
                m["seq"] = self.nev
            self.inbox.put_nowait(m)
            self.count("events")

    async def one_round(self):
        for k, a, b, seq, w in self.plan["ops"]:
            s = self.setters
            self.log(k)
            if k in ("root", "mode"):
                if (k, 0) in s:
                    s[k, 0]((b + self.round % 2) % 3 if k == "mode" else b % 3)
            elif k == "item":
                ks = sorted(x for x in s if x[0] in ("item", "leaf"))
                if ks:
                    s[ks[a % len(ks)]](lambda x: (x + 1) % 3)
            elif k == "twice":
                for kk in (("root", 0), ("item", 0)):
                    if kk in s:
                        s[kk](lambda x: (x + 1) % 3)
            elif k in ("ev", "burst"):
                ts = self.targets()
                if ts:
                    self.emit(ts[a % len(ts)], seq, 1 + (k == "burst") * b)
            elif k == "stale":
                self.count("fault_stale_event")
                self.emit(f"/'gone{self.round}'/0:onClick", seq)
            elif k == "bogus":
                self.count("fault_unknown_target")
                self.emit(f"nowhere{self.nev}", seq)
            elif k == "fail":
                self.failing = not self.failing
                if ("root", 0) in s:
                    s["root", 0](lambda x: (x + 1) % 3)
            if w < 0:
                await self.idle()
            elif w:
                await asyncio.sleep(w / 1000)
        if self.failing:
            self.failing = False
            if ("root", 0) in self.setters:
                self.setters["root", 0](lambda x: (x + 1) % 3)
        if not self.cfg["sessions"]:
            # back to the same mounted set
            for k in ("mode", "root"):
                if (k, 0) in self.setters:
                    self.setters[k, 0](1)
            await self.idle()
            if ("mode", 0) in self.setters:
                self.setters["mode", 0](0)
                self.setters["root", 0](0)
            await self.idle()

    def measure(self):
        boot.capture.records.clear()
        self.loop.errors.clear()
        gc.collect()
        tasks = self.loop.live_tasks("session")
        del tasks
        n_tasks = len(self.loop.tasks)
        return {"tasks": n_tasks, "components": len(self.live),
                "handlers": len(self.handlers),
                "entries": entries([self.layout, *module_state()]),
                "blocks": sys.getallocatedblocks()}

    async def driver(self):
        sess = self.cfg["sessions"]
        loop = asyncio.get_running_loop()
        n = WARM + self.step * (POINTS - 1)
        if not sess:
            self.start(loop)
            await self.idle()
        for self.round in range(n + 1):
            if sess:
                self.start(loop)
                await self.idle()
            if self.round >= WARM and (self.round - WARM) % self.step == 0 and not sess:
                self.points.append(self.measure())
            await self.one_round()
            if sess:
                if not self.cfg["early"]:
                    await self.idle()
                await self.stop()
                self.setters.clear()
                self.view = None
                if self.round >= WARM and (self.round - WARM) % self.step == 0:
                    self.points.append(self.measure())
            elif self.task.done():
                break
        if not sess:
            await self.stop()

    def start(self, loop):
        self.view = {}
        self.closing = False
        self.inbox = asyncio.Queue()
        self.task = loop.create_task(self.session())
        self.task._sim_tag = "session"

    async def stop(self):
        self.closing = True
        if self.cfg["how"] == "recv":
            self.inbox.put_nowait(None)
        elif self.cfg["how"] == "cancel" or ("root", 0) not in self.setters:
            self.task.cancel()
        else:
            self.setters["root", 0](7)
        await self.idle()
        if not self.task.done():
            self.task.cancel()
            await self.idle()
        if self.task.done() and not self.task.cancelled():
            self.task.exception()
        self.task = None

    def run(self):
        plan = self.plan
        boot.seed_run(plan["loopseed"])
        self.loop = SimLoop(random.Random(plan["loopseed"]), step_limit=50_000 * self.step)
        self.loop.idle_hooks.append(self.on_idle)
        config.REACTPY_ASYNC_RENDERING.current = self.cfg["async"]
        config.REACTPY_DEBUG.current = self.cfg["debug"]
        config.REACTPY_CHECK_VDOM_SPEC.current = False
        config.REACTPY_CHECK_JSON_ATTRS.current = False
        config.REACTPY_MAX_QUEUE_SIZE.current = self.cfg["queue"]
        asyncio.set_event_loop(self.loop)
        self.root = self.build()
        self.idle_fut = None
        drv = self.loop.create_task(self.driver())
        drv._sim_tag = "driver"
        try:
            self.loop.run_to_idle()
        except StepLimit:
            self.violations["C14", "no-quiescence"] = f"not idle after {self.loop.steps} steps"
        else:
            if not drv.done():
                raise RuntimeError(f"driver did not finish: {drv}")
            if drv.exception():
                raise drv.exception()
        self.judge()
        self.loop.dispose()
        asyncio.set_event_loop(None)
        self.digest = self.h.hexdigest()
        self.sim_time, self.steps = self.loop._vtime, self.loop.steps
        return self

    def judge(self):
        if len(self.points) < POINTS:
            return
        prop = self.plan["prop"]
        for k in ("tasks", "components", "handlers", "entries", "blocks"):
            v = [p[k] for p in self.points]
            d = [b - a for a, b in zip(v, v[1:])]
            if min(d) < (BLOCKS * self.step if k == "blocks" else 1):
                continue
            if k == "blocks" and self.step == STEP:
                self.suspect = True
                continue
            self.violations[prop, "leak-" + k] = (
                f"{k} retained while idle grow with every {self.step} rounds of the same "
                f"updates: {v if k != 'blocks' else d}")
        self.log("points", [p["tasks"] for p in self.points])


def run_leak(plan, want_trace=False):
    w = Leak(plan, want_trace).run()
    if w.suspect and not w.violations:
        w2 = Leak(plan, False, LONG).run()
        if w2.violations:  # once more: the first one also fills caches
            w2 = Leak(plan, False, LONG).run()
        w.violations.update(w2.violations)
        w.count("second_looks")
    return w


def shrink(plan):
    def cp():
        return json.loads(json.dumps(plan))

    for i in range(len(plan["ops"])):
        c = cp()
        del c["ops"][i]
        yield c
    base = {"eff": None, "aeff": None, "hasync": None}
    for k, v in plan["f"].items():
        if v not in (False, None) and v != base.get(k, False):
            c = cp()
            c["f"][k] = base.get(k, False)
            if k == "dur":
                c["f"][k] = 0
                if v == 0:
                    continue
            yield c
    if plan["items"] > 1:
        c = cp()
        c["items"] = 1
        yield c
    for k, v in (("send", 0), ("queue", 1000), ("async", False), ("keys", "none"),
                 ("debug", False)):
        if plan["cfg"][k] != v:
            c = cp()
            c["cfg"][k] = v
            yield c
    for i, o in enumerate(plan["ops"]):
        if o[4] not in (0, -1):
            c = cp()
            c["ops"][i][4] = 0
            yield c
