"""The whole system: the real ASGI application and layouts on one side, the real browser
client (a coprocess in lockstep with the virtual clock) on the other, joined by a network that
delays, stalls, loses and restores connections; the server may be restarted."""
from __future__ import annotations

import asyncio
import collections
import contextlib
import functools
import hashlib
import json
import logging
import os
import random
import re
import subprocess
import urllib.parse

from sim import boot
from sim.loop import SimLoop

boot.install()
from sim import w_pyscript as P  # noqa: E402

from reactpy import component, config, event, html, use_effect, use_state  # noqa: E402
from reactpy.core.events import EventHandler, to_event_handler_function  # noqa: E402
from reactpy.core.hooks import use_async_effect, use_location, use_scope  # noqa: E402
from reactpy.core.vdom import Vdom  # noqa: E402
from reactpy.executors.asgi.standalone import ReactPy  # noqa: E402

EVENTS = {"onClick": "click", "onKeyDown": "keydown"}
ATTRS = {
    "className": ["k", "k l", "m"], "title": ["t", "<&>"], "data-q": ["1", "2"],
    "style": [{"color": "red"}, {"color": "blue", "margin": "1px"}, {"margin": "2px"}],
}
TAGS = ("input",)
PLACES = [("/page", "?q=1"), ("/", ""), ("/a%20b/%C3%A9", "?x=a+b&y=%26%3D#"[:-1]), ("/page", "?path=/x&qs=?"),
          ("/a;b=1/c", "")]
# handlers that ask for what happens in the browser in their code
STYLES = {
    "plain": "async def h(e):\n    {}\n    await f(e)",
    "call": "def h(e):\n    {}\n    return f(e)",
    "inner": "async def h(e):\n    async def go():\n        await f(e)\n    {}\n    await go()",
    "method": "class H:\n    async def go(self, e):\n        {}\n        await f(e)\nh = H().go",
    "partial": "async def g(x, e):\n    {}\n    await f(e)\nh = functools.partial(g, 1)",
    "object": "class H:\n    async def __call__(self, e):\n        {}\n        await f(e)\nh = H()",
    "both": "class H:\n    def go(self, x, e, *, y):\n        {}\n        return f(e)\n"
            "h = functools.partial(H().go, 1, y=2)",
}


@functools.cache
def style_code(style, prevent, stop):
    calls = "; ".join(["e.preventDefault()"] * prevent + ["e.stopPropagation()"] * stop) or "pass"
    return compile(STYLES[style].format(calls), "<handler>", "exec")


def styled(f, style, prevent, stop):
    g = {"f": f, "functools": functools}
    exec(style_code(style, prevent, stop), g)  # noqa: S102
    return g["h"]


TICK = {"id": "tick", "prevent": False, "stop": False, "set": None, "slow": 0, "fail": False}
HERE = os.path.dirname(os.path.abspath(__file__))


# ------------------------------------------------------------------ the coprocess
class Node:
    proc = pid = None


def call(**q):
    if Node.pid != os.getpid():
        Node.proc = subprocess.Popen(  # noqa: S603
            ["node", "--max-old-space-size=700", os.path.join(HERE, "js", "page.js")],  # noqa: S607
            stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        Node.pid, Node.runs = os.getpid(), 0
    p = Node.proc
    p.stdin.write(json.dumps(q).encode() + b"\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise RuntimeError("the browser process ended")
    a = json.loads(line)
    if "fail" in a:
        raise RuntimeError("browser process: " + a["fail"][:500])
    return a


def drop_process():
    if Node.pid == os.getpid() and Node.proc is not None:
        Node.proc.kill()
        Node.proc.wait()
        Node.proc.stdin.close()
        Node.proc.stdout.close()
    Node.pid = Node.proc = None


# ------------------------------------------------------------------ plans
def clean(n):
    for x in P.walk(n):
        if "t" in x:
            if x["t"] == "input":
                x["t"] = "i"
            x["a"] = {k: v for k, v in x["a"].items() if k == "id" or (k in ATTRS and v in ATTRS[k])}
            x["h"] = {k: v for k, v in x["h"].items() if k in EVENTS}
    return n


def rows(rng):
    """an application that shows its components in rows which come, go and move"""
    names = [f"a0c{i}" for i in range(rng.randint(3, 6))]
    ctx = {"hid": 0, "comps": names, "free": []}
    comps = {}
    kids = names[1:]
    inner = kids.pop() if rng.random() < 0.5 else None
    for name in names[1:]:
        v = {"t": "div", "a": {}, "h": {}, "c": P.gen_children(rng, ctx, 2, [rng.choice([2, 5])])}
        if inner and name == kids[0]:
            v["c"].insert(rng.randint(0, len(v["c"])), {"comp": inner})
        comps[name] = vs = [v]
        for _ in range(rng.randint(1, 3)):
            vs.append(P.mutate(rng, ctx, vs[-1]))
        ctx["free"].clear()
        for v in vs:
            for x in P.walk(v):
                x.get("a", {}).pop("id", None)
            P.unique(v, name)
    vs, shown = [], kids
    for _ in range(rng.randint(2, 6)):
        if rng.random() < 0.4:
            shown = rng.sample(kids, rng.randint(1, len(kids)))
        shown = rng.sample(shown, len(shown))
        c = []
        for n in shown:
            x = {"t": "li", "a": {}, "h": {}, "k": n, "c": [{"comp": n}]}
            if rng.random() < 0.3:
                x["c"].insert(rng.randint(0, 1), "text")
            if rng.random() < 0.3:
                x["h"]["onClick"] = P.gen_handler(rng, ctx)
            c.append(x)
        vs.append({"t": "div", "a": {}, "h": {}, "c": [
            *["more"][: rng.randint(0, 1)], {"t": "ul", "a": {}, "h": {}, "c": c}]})
    comps[names[0]] = vs
    return {"comps": comps, "names": names}


def gen(rng, prop):
    app = rows(rng) if rng.random() < 0.5 else P.gen(rng, prop)["apps"][0]
    for vs in app["comps"].values():
        for v in vs:
            clean(v)
            for x in P.walk(v):
                if "t" in x and rng.random() < 0.15:
                    x["a"].update({k: rng.choice(ATTRS[k]) for k in rng.sample(sorted(ATTRS), 1)})
                for h in x.get("h", {}).values():
                    if rng.random() < 0.4:
                        h["style"] = rng.choice(sorted(STYLES))
    names = app["names"]
    fields = [{"id": f"f{i}", "transform": rng.choice(["same", "same", "same", "upper", "cut", "keep"]),
               "debounce": rng.choice([None, None, 0, 50]), "slow": rng.choice([0, 0, 0.01, 0.03]),
               "kind": rng.choice(["input", "input", "textarea"]), "value": rng.choice(["", "", "ab"])}
              for i in range(rng.choice([0, 1, 1, 2]))]
    acts = []
    for _ in range(rng.randint(4, 18)):
        r = rng.random()
        if rng.random() < 0.15:
            acts.append({"do": "tick", "n": rng.choice([1, 1, 2, 5, 60]), "gap": rng.choice(
                [0, 0, 0.001, 0.01, 0.05, 0.3, "settle"])})
        gap = rng.choice([0, 0, 0.001, 0.01, 0.05, 0.3, "settle", "settle"])
        if r < 0.3:
            a = {"do": "set", "comp": rng.choice(names), "by": rng.choice([1, 1, 2, -1])}
            if rng.random() < 0.3:
                some = rng.sample(names, min(2, len(names)))
                a = {"do": "churn", "of": [rng.choice(some) for _ in range(rng.randint(2, 6))],
                     "pace": rng.choice([0, 0.001, 0.01])}
        elif r < 0.62:
            a = {"do": "fire", "at": rng.random(), "burst": rng.choice([1, 1, 2, 4]),
                 "ev": rng.choice(["click", "click", "click", "keydown"])}
        elif r < 0.8 and fields:
            a = {"do": "type", "field": rng.randrange(len(fields)),
                 "txt": [rng.choice(["a", "b", "Q", "back", "xyz"]) for _ in range(rng.choice([1, 2, 4]))],
                 "pace": rng.choice([0, 0.005, 0.04, 0.15])}
        elif r < 0.84 and fields:
            a = {"do": "field", "field": rng.randrange(len(fields)), "value": rng.choice(["", "srv", "zz"])}
        elif r < 0.92:
            a = {"do": "drop", "kind": rng.choice(["clean", "unclean", "closing"]),
                 "client": rng.choice([0, 0, 0.01, 0.3]), "server": rng.choice([0, 0, 0.01, 0.4, 2.0]),
                 "loses": rng.random() < 0.6}
        elif r < 0.95:
            a = {"do": "stall", "for": rng.choice([0.05, 0.5, 1.5])}
        elif r < 0.97:
            a = {"do": "restart", "down": rng.choice([0, 0.05, 0.4])}
        elif r < 0.98:
            a = {"do": "goto", "to": rng.randrange(len(PLACES))}
        elif r < 0.99:
            a = {"do": "clock", "by": rng.choice([-3600e3, 5e3, 86400e3])}
        else:
            a = {"do": "hidden", "on": rng.random() < 0.5}
        a["gap"] = gap
        acts.append(a)
    return {"seed": rng.getrandbits(32), "at": rng.randrange(len(PLACES)), "tick": rng.choice([0, 0, 0.01, 0.03]),
            "effect": {n: rng.choice(["sync", "sync", "async"]) for n in names}, "comps": app["comps"], "names": names, "fields": fields,
            "acts": acts, "async": rng.random() < 0.5, "queue": rng.choice([1, 2, 1000, 1000]),
            "late": rng.choice([0, 0, 1, 8]),
            "settings": {"reconnect_interval": rng.choice([5, 50, 200]),
                         "reconnect_max_interval": rng.choice([200, 1000]),
                         "reconnect_max_retries": 150,
                         "reconnect_backoff_multiplier": rng.choice([1, 1.25, 2])},
            "net": [{"up": rng.choice([0, 0.002, 0.03]), "down": rng.choice([0, 0.002, 0.03]),
                     "jitter": rng.choice([0, 0, 0.02]), "connect": rng.choice([0, 0.002, 0.05]),
                     "write": rng.choice([None, 0, 0.004, 0.05])} for _ in range(3)],
            "refuse": sorted(rng.sample(range(1, 6), rng.choice([0, 0, 0, 1, 2])))}


def shrink(plan):
    def cp():
        return json.loads(json.dumps(plan))

    n = len(plan["acts"])
    size = n
    while size >= 1:
        for i in range(0, n, size):
            p = cp()
            del p["acts"][i: i + size]
            yield p
        size //= 2
    for k, v in (("late", 0), ("queue", 1000), ("refuse", []), ("async", False)):
        if plan[k] != v:
            p = cp()
            p[k] = v
            yield p
    for c in range(len(plan["net"])):
        for k in plan["net"][c]:
            if plan["net"][c][k]:
                p = cp()
                p["net"][c][k] = None if k == "write" else 0
                yield p
    used = {a.get("field") for a in plan["acts"]}
    if plan["fields"] and len(plan["fields"]) - 1 not in used:
        p = cp()
        p["fields"].pop()
        yield p
    for name, vs in plan["comps"].items():
        for j in range(len(vs)):
            if len(vs) > 1:
                p = cp()
                p["comps"][name].pop(j)
                yield p
        for j, v in enumerate(vs):
            for k, x in enumerate(P.walk(v)):
                for key in ("c", "frag"):
                    for m in range(len(x.get(key, ()))):
                        p = cp()
                        list(P.walk(p["comps"][name][j]))[k][key].pop(m)
                        yield p
                for key in ("a", "h"):
                    for m in x.get(key, ()):
                        p = cp()
                        list(P.walk(p["comps"][name][j]))[k][key].pop(m)
                        yield p


# ------------------------------------------------------------------ a connection
class Gone(OSError):
    pass


class Conn:
    def __init__(self, w, no, url):
        self.w, self.no, self.url = w, no, url
        self.net = w.plan["net"][min(no, len(w.plan["net"]) - 1)]
        self.inbox = asyncio.Queue()
        self.pipe_up, self.pipe_down = collections.deque(), collections.deque()
        self.open = False  # as the browser sees it
        self.cut = self.killed = self.refused = False
        self.loses = False
        self.accepted = False
        self.told = None  # when the server was told that it is gone
        self.closed = None  # when the browser was told
        self.last_up = self.last_down = 0.0
        self.connected = False
        self.stalled = -1.0
        self.release = w.loop.create_future()
        self.task = None
        self.version, self.setters, self.mounted, self.values = {}, {}, {}, {}
        self.field_setters = {}
        self.floods = -100.0
        self.served = set()  # fields that the server has set
        self.ticks = []  # clicks on the button that were sent over it

    def start(self):
        u = urllib.parse.urlsplit(self.url)
        self.scope = {
            "type": "websocket", "path": urllib.parse.unquote(u.path), "raw_path": u.path.encode(),
            "query_string": u.query.encode(), "headers": [(b"host", b"sim.test")], "conn": self,
            "subprotocols": [], "client": ("127.0.0.1", 1), "server": ("sim.test", 80), "scheme": "ws"}
        self.task = self.w.loop.create_task(self.w.app(self.scope, self.receive, self.send))

    async def receive(self):
        if not self.connected:
            self.connected = True
            return {"type": "websocket.connect"}
        if self.told is not None and self.inbox.empty():
            return {"type": "websocket.disconnect", "code": 1006}
        m = await self.inbox.get()
        if m is None:
            return {"type": "websocket.disconnect", "code": 1006}
        self.w.active()
        return {"type": "websocket.receive", "text": m}

    async def send(self, ev):
        w = self.w
        if ev["type"] == "websocket.accept":
            self.accepted = True
            self.last_down = w.loop.time() + self.net["connect"]
            self.pipe_down.append(None)
            w.loop.call_at(self.last_down, self.arrives)
            return
        if ev["type"] == "websocket.close":
            if not self.cut and not w.over:
                w.violate("closed", f"the server closed the healthy connection {self.no}")
            return
        if self.net["write"] is not None:
            await asyncio.sleep(self.net["write"])
        while self.stalled > w.loop.time() and not self.release.done():
            await asyncio.wait([self.release], timeout=self.stalled - w.loop.time())
        if self.told is not None:
            raise Gone("the client is gone")
        w.active()
        t = max(w.loop.time() + self.net["down"] + w.rng.random() * self.net["jitter"], self.last_down)
        self.last_down = t
        self.pipe_down.append(ev["text"])
        w.loop.call_at(t, self.arrives)

    def arrives(self):
        text = self.pipe_down.popleft()
        if text is None:
            self.w.opened(self)
            return
        if (self.cut and self.loses) or self.closed is not None:
            self.w.count("fault_update_lost")
            return
        self.w.active()
        self.w.count("updates")
        self.w.ev("update", self.no, hash_text(text), text[:150] if self.w.want_trace else "")
        self.w.js(c="msg", ws=self.no, data=text)

    def up(self, text):
        """a message of the browser"""
        w = self.w
        t = max(w.loop.time() + self.net["up"] + w.rng.random() * self.net["jitter"], self.last_up)
        self.last_up = t
        w.active()

        self.pipe_up.append(text)

        def there():
            text = self.pipe_up.popleft()
            if (self.cut and self.loses) or self.told is not None:
                w.count("fault_event_lost")
                return
            w.active()
            self.inbox.put_nowait(text)
        w.loop.call_at(t, there)

    def tell_server(self):
        if self.told is None:
            self.told = self.w.loop.time()
            if not self.release.done():
                self.release.set_result(None)
            self.inbox.put_nowait(None)
            self.w.active()

    def advance(self, name, by):
        self.version[name] = self.version.get(name, 0) + by
        if name in self.setters:
            self.setters[name](self.version[name])


# ------------------------------------------------------------------ the run
class World:
    def __init__(self, plan, want_trace):
        self.plan, self.want_trace = plan, want_trace
        self.bad, self.trace, self.stats, self.shapes = [], [], {}, set()
        self.hash = hashlib.sha1()  # noqa: S324
        self.conns = []
        self.over = False
        self.place = PLACES[plan["at"]]
        self.ticks = []
        self.marks = 0
        self.calls = []  # (connection, handler, mark)
        self.seen = set()
        self.typed = {}  # field -> (value, connection or None, time)
        self.last_active = 0.0
        self.timer = None
        self.refuse_until = -1.0
        self.attempts = 0
        self.by_id = {h["id"]: h for vs in plan["comps"].values() for v in vs for x in P.walk(v)
                      for h in x.get("h", {}).values()}
        self.by_id["tick"] = TICK

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def violate(self, kind, msg):
        self.bad.append((kind, msg))
        self.ev("BAD", kind, msg)

    def ev(self, *a):
        line = (self.loop.steps, round(self.loop.time(), 5), *a)
        self.hash.update(repr(line[:5]).encode())
        if self.want_trace:
            self.trace.append(line)

    def active(self):
        self.last_active = self.loop.time()

    # -- the application
    def view(self, conn, name):
        vs = self.plan["comps"][name]
        return vs[conn.version.get(name, 0) % len(vs)]

    def make(self, name):
        w = self

        @component
        def Comp():
            conn = use_scope()["conn"]
            n, set_n = use_state(lambda: conn.version.get(name, 0))
            conn.setters[name] = set_n

            def life():
                conn.mounted[name] = conn.mounted.get(name, 0) + 1

                def gone():
                    conn.mounted[name] -= 1
                return gone

            async def slow():
                await asyncio.sleep(0)
                conn.mounted[name] = conn.mounted.get(name, 0) + 1
                try:
                    await asyncio.sleep(1e6)
                finally:
                    await asyncio.sleep(0.03)
                    conn.mounted[name] -= 1

            if w.plan["effect"][name] == "sync":
                use_effect(life, [])
            else:
                use_async_effect(slow, [])
            vs = w.plan["comps"][name]
            w.count("renders")
            w.active()
            return w.build(vs[n % len(vs)])

        return Comp

    def make_field(self, f):
        w = self

        @component
        def Field():
            conn = use_scope()["conn"]
            value, set_value = use_state(lambda: conn.values.get(f["id"], f["value"]))
            _, set_edits = use_state(0)
            conn.field_setters[f["id"]] = set_value
            w.active()

            async def changed(e):
                w.active()
                w.handled(conn, f["id"], e)
                v = e["target"]["value"]
                if f["slow"]:
                    await asyncio.sleep(f["slow"])
                new = {"same": v, "upper": v.upper(), "cut": v[:3], "keep": conn.values.get(
                    f["id"], f["value"])}[f["transform"]]
                conn.values[f["id"]] = new
                set_value(new)
                # (an edit that leaves the value as it is must still be taken back in the page)
                set_edits(lambda n: n + 1)
                w.active()

            def life():
                conn.mounted[f["id"]] = conn.mounted.get(f["id"], 0) + 1

                def gone():
                    conn.mounted[f["id"]] -= 1
                return gone

            use_effect(life, [])
            h = changed if f["debounce"] is None else event(changed, debounce=f["debounce"])
            return html_tag(f["kind"])({"id": f["id"], "value": value, "onChange": h})

        return Field

    def build(self, s):
        if s is None or isinstance(s, str):
            return s
        if "comp" in s:
            return self.comps[s["comp"]](key=s.get("k"))
        if "frag" in s:
            return Vdom("")(*([{"key": s["k"]}] if "k" in s else []),
                            *[self.build(c) for c in s["frag"]])
        attrs = dict(s["a"])
        if "k" in s:
            attrs["key"] = s["k"]
        for k, h in s["h"].items():
            if h.get("style"):
                attrs[k] = styled(self.handler(h), h["style"], h["prevent"], h["stop"])
            else:
                attrs[k] = event(self.handler(h), prevent_default=h["prevent"],
                                 stop_propagation=h["stop"])
        return Vdom(s["t"])(attrs, *[self.build(c) for c in s["c"]])

    def handler(self, h):
        w = self

        async def handle(e):
            conn = handle.conn()
            w.active()
            w.handled(conn, h["id"], e)
            if h["slow"]:
                await asyncio.sleep(h["slow"])
            if h["fail"]:
                w.count("fault_handler_failed")
                raise RuntimeError("planned")
            if h["set"]:
                conn.advance(h["set"], 1)
                w.active()

        # the session that rendered it
        conn = use_scope()["conn"]
        handle.conn = lambda: conn
        return handle

    def handled(self, conn, hid, e):
        mark = e.get("mark")
        self.ev("handle", conn.no, hid, mark)
        self.count("handled")
        if mark is None:
            self.violate("data", f"a handler was called with {str(e)[:100]}")
            return
        if (mark, hid) in self.seen:
            self.violate("twice", f"event {mark} was handled twice by handler {hid}")
        self.seen.add((mark, hid))
        last = [m for c, h, m in self.calls if c is conn and h == hid]
        if last and last[-1] > mark:
            self.violate("order", f"handler {hid} got event {mark} after {last[-1]}")
        self.calls.append((conn, hid, mark))
        if conn.killed:
            return
        if conn.told is not None and self.loop.time() > conn.told + 0.5:
            self.violate("after-end", f"an event was handled {self.loop.time() - conn.told:.1f} s after "
                         "the connection had ended")

    # -- browser
    def js(self, **q):
        q["t"] = max(self.loop.time() * 1000, self.js_time)
        a = call(**q)
        self.js_time = q["t"]
        for e in a["errors"]:
            self.violate("client", f"error in the browser: {e}"[:300])
        for o in a["out"]:
            if o[0] == "connect":
                self.connect(o[1], o[2])
            elif o[0] == "send":
                self.ev("sent", o[1], hash_text(o[2]))
                self.count("messages")
                m = json.loads(o[2])
                if m.get("target") == "tick":
                    self.conns[o[1]].ticks.append(m["data"][0].get("mark"))
                if not o[3]:
                    self.violate("dead-socket", "a message was handed to a closed connection")
                self.conns[o[1]].up(o[2])
        if self.timer is not None:
            self.timer.cancel()
            self.timer = None
        if a["next"] is not None:
            self.timer = self.loop.call_at(max(a["next"] / 1000, self.loop.time()), self.wake, a["next"])
        return a["r"]

    def wake(self, t):
        self.timer = None
        self.js_time = max(self.js_time, t)
        self.js(c="run")

    def connect(self, no, url):
        conn = Conn(self, no, url)
        conn.place = self.place
        self.conns.append(conn)
        self.ev("connect", no)
        self.count("connections")
        self.active()
        i = self.attempts
        self.attempts += 1
        refuse = i in self.plan["refuse"] and i > 0

        def there():
            self.active()
            if conn.closed is not None:
                return
            if refuse or self.loop.time() < self.refuse_until:
                self.count("fault_connect_refused")
                conn.refused = True
                conn.closed = conn.told = self.loop.time()
                self.js(c="close", ws=no, clean=False)
                return
            conn.start()
        self.loop.call_later(conn.net["connect"], there)

    def opened(self, conn):
        if conn.cut or conn.closed is not None:
            return
        conn.open = True
        self.ev("open", conn.no)
        self.active()
        self.js(c="open", ws=conn.no)

    def drop(self, conn, kind, client, server, loses):
        if conn.cut or conn.closed is not None or conn.refused:
            return
        conn.cut, conn.loses = True, loses
        self.ev("drop", conn.no, kind)
        self.count("fault_connection_lost")
        if client or server:
            self.count("fault_half_open")

        def tell_client():
            if conn.closed is None:
                conn.closed = self.loop.time()
                conn.open = False
                self.ev("closed", conn.no)
                self.active()
                self.js(c="close", ws=conn.no, clean=kind == "clean")
        if kind == "closing":
            self.js(c="closing", ws=conn.no)
        self.loop.call_later(client, tell_client)
        self.loop.call_later(server, conn.tell_server)

    def live(self):
        c = self.conns[-1] if self.conns else None
        return c if c is not None and c.open and not c.cut else None

    # -- what the page must show
    def expected(self, conn, s):
        if s is None:
            return []
        if isinstance(s, str):
            return [s]
        if "comp" in s:
            return self.expected(conn, self.view(conn, s["comp"]))
        if "frag" in s:
            return [x for c in s["frag"] for x in self.expected(conn, c)]
        attrs = {"class" if k == "className" else k: v for k, v in s["a"].items()}
        return [[s["t"], attrs, {EVENTS[k]: h for k, h in s["h"].items()},
                 [x for c in s["c"] for x in self.expected(conn, c)]]]

    def page_of(self, conn):
        out = self.expected(conn, {"comp": self.plan["names"][0]})
        out.append(["button", {"id": "tick"}, {"click": TICK}, []])
        for f in self.plan["fields"]:
            out.append([f["kind"], {"id": f["id"]}, {}, []])
        return [["div", {"id": "top"}, {}, out]]

    def actual(self, nodes):
        out = []
        for n in nodes:
            if isinstance(n, str):
                out.append(n)
            else:
                attrs = dict(n["attrs"])
                if "style" in n:
                    attrs["style"] = n["style"]
                kids = [] if n["tag"] == "textarea" else self.actual(n["kids"])
                out.append([n["tag"], attrs, n, kids])
        return out

    def check(self):
        conn = self.live()
        if conn is None:
            return None
        want, got = self.page_of(conn), self.actual(self.js(c="tree"))
        r = P.World.same(self, want, got, "")
        self.count("checks")
        self.shapes.add(P.hash_shape(want))
        if r:
            self.ev("want", want)
            self.ev("got", got)
            self.violate("page", f"the page differs from the session's view: {r}")
            return None
        for f in self.plan["fields"]:
            shown = self.js(c="value", id=f["id"])
            value = conn.values.get(f["id"], f["value"])
            typed = self.typed.get(f["id"])
            strict = True
            if typed is not None:
                text, c, t = typed
                strict = c is not None and (c is conn or (c.closed is not None and t < c.closed - 0.4))
                if c is conn and f["transform"] == "same" and f["id"] not in conn.served:
                    self.count("typed_checks")
                    if shown != text:
                        self.violate("typed", f"{f['id']} shows {shown!r} after the user has typed {text!r}")
                        continue
            if shown != value and (strict or typed is None or shown != typed[0]):
                self.violate("field", f"{f['id']} shows {shown!r}, its value on the server is {value!r}")
        sent = [m for c in self.conns for m in c.ticks]
        if sent != self.ticks:
            self.violate("ticks", f"{len(self.ticks)} clicks on the button, sent were "
                         f"{len(sent)}: {set(self.ticks) ^ set(sent) or 'in another order'}"[:200])
        done = [m for c, h, m in self.calls if c is conn and h == "tick"]
        if done != conn.ticks:
            self.violate("ticks", f"connection {conn.no} has sent the clicks {conn.ticks}, "
                         f"handled were {done}"[:300])
        for c in self.conns:
            if c.killed or c.refused or c is conn or c.told is None or self.loop.time() - c.told < 0.5:
                continue
            if c.task is not None and not c.task.done():
                self.violate("endpoint", f"the endpoint of connection {c.no} is still running "
                             f"{self.loop.time() - c.told:.1f} s after it was lost")
            left = [k for k, v in c.mounted.items() if v]
            if left:
                self.violate("mounted", f"{left} of the lost connection {c.no} are still mounted")
            self.count("teardown_checks")
        return list(self.pairs(want, got))

    pairs = P.World.pairs
    same = P.World.same

    # -- acts
    def advance_time(self, d):
        self.loop.call_later(d, self.loop.stop)
        self.loop.run_forever()

    def turns(self, n):
        for _ in range(n):
            self.loop.call_soon(self.loop.stop)
            self.loop.run_forever()

    def settle(self):
        """-> whether the page is connected and nothing happens any more"""
        end = self.loop.time() + 40
        while self.loop.time() < end:
            self.advance_time(0.25)
            conn = self.live()
            told = all(c.told is not None for c in self.conns if c.cut and not c.killed)
            if conn is not None and told and self.loop.time() - self.last_active > 0.7 and (
                    conn.stalled < self.loop.time() - 0.7):
                return True
        self.violate("liveness", "the page is not connected and at rest 40 s after the last fault"
                     + ("" if self.live() else " (there is no connection)"))
        return False

    def fire(self, act, views):
        if not views:
            return
        i = int(act["at"] * len(views))
        spec, node = views[i]
        path = self.chain(views, i)
        want, prevent = [], False
        for s in path:
            h = s[2].get(act["ev"])
            if h is not None:
                want.append(h["id"])
                prevent |= h["prevent"]
                if h["stop"]:
                    break
        conn = self.live()
        n0 = len(self.calls)
        burst = act.get("burst", 1)
        if any(self.by_id[h]["set"] for h in want):
            burst = 1
        marks = []
        for _ in range(burst):
            self.marks += 1
            marks.append(self.marks)
            r = self.js(c="fire", nth=i, type=act["ev"], mark=self.marks)
            self.clicked(r, act["ev"])
            if not r or r[0] != spec[0]:
                raise RuntimeError(f"the page has no element {i} like {spec[:2]}: {r}")
            if r[2] != prevent:
                self.violate("default", f"the default of a {act['ev']} was {'' if r[2] else 'not '}prevented")
        self.ev("fire", act["ev"], len(want), burst)
        self.count("settled_events", burst)
        if not self.settle() or self.live() is not conn:
            return
        got = self.calls[n0:]
        # (once a handler has changed the view, others have taken the place of the later ones)
        sets = next((i for i, h in enumerate(want) if self.by_id[h]["set"]), len(want)) + 1
        if sets < len(want):
            if len(got) > len(want):
                self.violate("events", f"a {act['ev']} caused {len(got)} calls of {len(want)} handlers")
            got, want = [g for g in got if g[1] in want[:sets]], want[:sets]
        for hid in want:
            ms = [m for c, h, m in got if h == hid and c is conn]
            if ms != marks:
                self.violate("events", f"handler {hid} was called for {ms} of the events {marks}")
        if len(got) != len(want) * burst:
            self.violate("events", f"a {act['ev']} caused {len(got)} calls instead of {len(want) * burst}")

    def chain(self, views, i):
        """the element and its ancestors"""
        parents = {}
        for s, n in views:
            for k in n["kids"]:
                if not isinstance(k, str):
                    parents[id(k)] = n
        by = {id(n): s for s, n in views}
        out, n = [], views[i][1]
        while n is not None:
            out.append(by[id(n)])
            n = parents.get(id(n))
        return out

    def clicked(self, r, ev):
        if r and r[1] == "tick" and ev == "click":
            self.ticks.append(self.marks)

    def act(self, act):
        do = act["do"]
        conn = self.live()
        self.active()
        if do == "set" and conn is not None and act["comp"] in conn.setters:
            self.ev("set", act["comp"], act["by"])
            self.count("sets")
            self.in_session(conn, conn.advance, act["comp"], act["by"])
        elif do == "churn":
            for name in act["of"]:
                if self.live() is not None and name in self.live().setters:
                    self.ev("set", name, 1)
                    self.count("sets")
                    self.in_session(self.live(), self.live().advance, name, 1)
                if act["pace"]:
                    self.advance_time(act["pace"])
                else:
                    self.turns(3)
        elif do == "field" and conn is not None:
            f = self.plan["fields"][act["field"]]
            if f["id"] in conn.field_setters:
                self.ev("field", f["id"], act["value"])
                conn.served.add(f["id"])

                def put():
                    conn.values[f["id"]] = act["value"]
                    conn.field_setters[f["id"]](act["value"])
                self.in_session(conn, put)
        elif do == "fire":
            for _ in range(act.get("burst", 1)):
                self.marks += 1
                self.ev("racing", act["ev"], self.marks)
                self.clicked(self.js(c="fire", at=act["at"], type=act["ev"], mark=self.marks), act["ev"])
                self.count("racing_events")
        elif do == "tick":
            for _ in range(act["n"]):
                self.marks += 1
                if self.js(c="click", id="tick", mark=self.marks):
                    self.ticks.append(self.marks)
                    self.count("ticks")
            self.ev("tick", act["n"])
        elif do == "type":
            f = self.plan["fields"][act["field"]]
            for txt in act["txt"]:
                self.marks += 1
                conn = self.live()
                r = self.js(c="type", id=f["id"], txt=txt, mark=self.marks)
                self.ev("type", f["id"], txt, r)
                if r is not None:
                    self.count("typed")
                    self.typed[f["id"]] = (r, conn, self.loop.time())
                if act["pace"]:
                    self.advance_time(act["pace"])
        elif do == "drop" and conn is not None:
            self.drop(conn, act["kind"], act["client"], act["server"], act["loses"])
        elif do == "stall" and conn is not None:
            self.ev("stall", act["for"])
            self.count("fault_stalled_writes")
            conn.stalled = max(conn.stalled, self.loop.time() + act["for"])
        elif do == "restart" and any(c.open for c in self.conns):
            # (the client gives up where the very first connection cannot be made)
            self.ev("restart", act["down"])
            self.count("fault_server_restarted")
            self.refuse_until = self.loop.time() + act["down"]
            for c in self.conns:
                if not c.killed and c.task is not None:
                    c.killed = True
                    self.drop(c, "unclean", 0, 0, True)
                    c.task.cancel()
            self.app = self.new_app()
        elif do == "clock":
            self.count("fault_clock_jump")
            self.js(c="clock", by=act["by"])
        elif do == "goto":
            # history.pushState: the next connection is made from there
            self.place = PLACES[act["to"]]
            self.count("location_changed")
            self.js(c="goto", to="".join(self.place))
        elif do == "hidden":
            self.count("page_hidden")
            self.js(c="hidden", on=act["on"])
            if act["on"]:
                self.loop.call_later(0.3, lambda: self.js(c="hidden", on=False))

    def in_session(self, conn, fn, *args):
        async def go():
            fn(*args)
        self.loop.create_task(go())
        self.active()

    def new_app(self):
        fields = [self.make_field(f) for f in self.plan["fields"]]
        root = self.comps[self.plan["names"][0]]
        w = self

        @component
        def App():
            conn = use_scope()["conn"]
            loc = use_location()
            if (loc.path, loc.query_string) != conn.place:
                w.violate("location", f"the session's location is {loc}, the page's {conn.place}")
            if not isinstance(conn, Conn):
                raise RuntimeError("scope")
            async def ticked(e):
                w.active()
                w.handled(conn, "tick", e)
                if w.plan["tick"]:
                    await asyncio.sleep(w.plan["tick"])
                    w.active()

            # with its own name, the button means the same to every session
            button = html.button({"id": "tick", "onClick": EventHandler(
                to_event_handler_function(ticked, positional_args=True), target="tick")})
            return html.div({"id": "top"}, root(), button, *[f(key=f"field{i}") for i, f in enumerate(fields)])

        return ReactPy(App, **self.plan["settings"])

    async def fetch(self):
        """the page as it is served"""
        got = []

        async def receive():
            return {"type": "http.request", "body": b"", "more_body": False}

        async def send(m):
            got.append(m)
        await self.app({"type": "http", "method": "GET", "path": "/page", "raw_path": b"/page",
                        "query_string": b"q=1", "headers": [], "http_version": "1.1", "scheme": "http",
                        "server": ("sim.test", 80), "client": ("127.0.0.1", 1), "root_path": ""},
                       receive, send)
        return b"".join(m.get("body", b"") for m in got if m["type"] == "http.response.body").decode()

    def run(self):
        plan = self.plan
        boot.seed_run(plan["seed"])
        self.rng = random.Random(plan["seed"])  # noqa: S311
        self.loop = SimLoop(self.rng, 400_000)
        self.js_time = 0.0
        config.REACTPY_ASYNC_RENDERING.current = plan["async"]
        config.REACTPY_DEBUG.current = False
        config.REACTPY_MAX_QUEUE_SIZE.current = plan["queue"]
        self.comps = {n: self.make(n) for n in plan["names"]}
        asyncio._set_running_loop(None)
        try:
            return self.go()
        except BaseException:
            drop_process()
            raise
        finally:
            self.over = True
            for t in asyncio.all_tasks(self.loop):
                t.cancel()
            with contextlib.suppress(Exception):
                self.loop.run_to_idle()
            self.loop.dispose()
            config.REACTPY_MAX_QUEUE_SIZE.current = 1000

    def go(self):
        plan, loop = self.plan, self.loop
        self.app = self.new_app()
        t = loop.create_task(self.fetch())
        while not t.done():
            self.advance_time(0.01)
        page = t.result()
        m = re.search(r'<script type="module"[^>]*>import \{ mountReactPy \} from "[^"]*";(.*?)</script>',
                      page, re.S)
        mount = re.search(r'<div id="([^"]+)"', page)
        if m is None or mount is None:
            self.violate("page", f"the served page does not mount the client: {page[-400:]}")
        else:
            a = call(c="new", seed=plan["seed"], late=plan["late"], script=m.group(1),
                     mount=mount.group(1), page={"path": self.place[0], "qs": self.place[1]})
            self.js_time = 0.0
            for e in a["errors"]:
                self.violate("client", f"error in the browser: {e}"[:300])
            self.js_time = loop.time() * 1000
            for o in a["out"]:
                if o[0] == "connect":
                    self.connect(o[1], o[2])
            self.js(c="run")
            self.script()
        for ctx in loop.errors:
            e = ctx.get("exception")
            if not (isinstance(e, RuntimeError) and str(e) == "planned") and not isinstance(e, Gone):
                self.violate("error", f"{ctx['message']}: {type(e).__name__}: {e}"[:300])
        for c in self.conns:
            t = c.task
            if t is not None and t.done() and not t.cancelled() and t.exception() is not None and not (
                    c.killed or isinstance(t.exception(), Gone)):
                self.violate("endpoint-raised", f"the endpoint of connection {c.no} raised "
                             f"{t.exception()!r}"[:300])
        self.digest = self.hash.hexdigest()
        self.sim_time, self.steps = loop.time(), loop.steps
        return self

    def script(self):
        for act in self.plan["acts"]:
            if act["gap"] == "settle":
                if not self.settle():
                    return
                views = self.check()
                if self.bad:
                    return
                if act["do"] == "fire":
                    self.fire(act, views)
                    if self.bad:
                        return
                    continue
            elif act["gap"]:
                self.advance_time(act["gap"])
            else:
                self.turns(self.rng.choice([0, 0, 1, 3]))
            self.act(act)
            if self.bad:
                return
        if self.settle():
            views = self.check()
            for _ in range(3):
                if self.bad or not views:
                    break
                self.fire({"at": self.rng.random(), "ev": "click", "burst": 2}, views)
                if not self.bad:
                    views = self.check()


def html_tag(kind):
    return getattr(html, kind)


def hash_text(s):
    return hashlib.md5(s.encode()).hexdigest()[:8]  # noqa: S324


def run(plan, want_trace=False):
    return World(plan, want_trace).run()


def judge(prop, plan, w):
    return w.bad


def nontrivial(prop, w):
    s = w.stats
    return s.get("updates", 0) >= 3 and s.get("checks", 0) >= 2 and s.get("messages", 0) >= 1
