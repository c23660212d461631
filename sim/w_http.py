"""The HTTP world: replicas of the standalone applications (server-side and client-side
rendering) and of the middleware behind a load balancer, restarted with other
configurations while clients that cache pages revalidate them; the wall clock jumps,
transfers are slow, aborted and cancelled, files appear late, modules are published while
the server runs. One virtual-time loop; the history is judged afterwards."""
from __future__ import annotations

import asyncio
import datetime as _dt
import email.utils
import hashlib
import html.parser as _hp
import json
import os
import random
import re
import shutil
import sys
import tempfile
import time

from . import boot

boot.install()

from .loop import SimLoop, StepLimit  # noqa: E402

import reactpy  # noqa: E402
from reactpy import config, html  # noqa: E402
from reactpy.executors.asgi.middleware import ReactPyMiddleware  # noqa: E402
from reactpy.executors.asgi.pyscript import ReactPyCsr  # noqa: E402
from reactpy.executors.asgi.standalone import ReactPy  # noqa: E402
from reactpy.executors.pyscript import utils as putils  # noqa: E402
from reactpy.reactjs import module as rmodule  # noqa: E402

# ------------------------------------------------------------------ the clock
WALL = {"loop": None, "offset": 0.0}
real_time = time.time
RealDT = _dt.datetime
EPOCH = 1_700_000_000.0


def wall():
    lp = WALL["loop"]
    return real_time() if lp is None else EPOCH + lp.time() + WALL["offset"]


class SimDT(RealDT):
    @classmethod
    def now(cls, tz=None):
        if WALL["loop"] is None:
            return RealDT.now(tz)
        d = RealDT.fromtimestamp(wall(), tz or _dt.UTC)
        return d if tz else d.replace(tzinfo=None)

    @classmethod
    def utcnow(cls):
        return cls.now()

    @classmethod
    def today(cls):
        return cls.now()


def sim_time():
    return wall()


time.time = sim_time
_dt.datetime = SimDT
for _name, _mod in list(sys.modules.items()):
    if _name.split(".")[0] == "reactpy" and _mod is not None:
        for _k, _v in list(vars(_mod).items()):
            if _v is RealDT:
                setattr(_mod, _k, SimDT)
            elif _v is real_time:
                setattr(_mod, _k, sim_time)

# nothing may be built or downloaded in order to serve a page
CSR_OK = hasattr(putils, "_reactpy_pkg_string")
if CSR_OK:
    putils._reactpy_pkg_string = lambda: "/reactpy/static/wheels/reactpy-0-py3-none-any.whl"

# ------------------------------------------------------------------ generation
TEXTS = ["Hello", "Grüße", "日本語のページ", "a < b & c", 'say "hi"', "it's", "€ 5", "plain"]
LANGS = ["en", "de", "fr-CA", "ja"]
USER_HEADERS = [
    ("X-Frame-Options", "DENY"), ("x-content-type-options", "nosniff"),
    ("Cache-Control", "no-store"), ("cache-control", "no-cache"),
    ("CACHE-CONTROL", "private"), ("Access-Control-Allow-Origin", "https://example.org"),
    ("Content-Security-Policy", "default-src 'self'"),
    ("Content-Type", "text/html; charset=UTF-8"), ("Referrer-Policy", "no-referrer"),
]
PAGES = ["/", "/", "/", "/about", "/a/b/", "/reactpy", "/reactpyx/", "/reactpy/", "/ü",
         "/reactpy/static", "/reactpy/modules", "/reactpy/staticx/a.js", "/reactpy/modules.js"]
ROUTES = ["/api", "/api/[a-z]+", "^/files/.*", "/x$", "/api/v(\\d+)/item", "/about/me"]
ROUTE_PATHS = ["/api", "/api/abc", "/api/ABC", "/apix", "/files/", "/files/a/b", "/x", "/xx",
               "/api/v12/item", "/api/v/item", "/about/me", "/about/men"]


def gen_build(rng, k, nmods):
    kind = rng.choice(["ssr"] * 4 + ["csr"] * (3 if CSR_OK else 0) + ["mw"])
    b = {
        "kind": kind, "title": rng.choice(TEXTS), "lang": rng.choice(LANGS),
        "prepend": rng.choice([None, "default", "default", rng.choice(TEXTS)]),
        "meta": rng.choice(TEXTS) if rng.random() < 0.3 else None,
        "headers": [list(h) for h in rng.sample(USER_HEADERS, rng.choice([0, 0, 1, 2, 3]))],
        "routes": [[r, rng.choice(["ok", "ok", "slow", "fail"])]
                   for r in rng.sample(ROUTES, rng.choice([0, 1, 2, 3]))],
        "ws": rng.sample(["/ws", "/live/[0-9]+"], rng.choice([0, 0, 1, 2])),
        "lifespan": rng.random() < 0.3,
        "head": rng.choice(["own", "own", "shared", "none"]),
    }
    seen = set()
    b["headers"] = [h for h in b["headers"]
                    if h[0].lower() not in seen and not seen.add(h[0].lower())]
    if kind == "csr":
        b["code"] = rng.choice(TEXTS)
        b["initial"] = rng.choice(["", rng.choice(TEXTS)])
        b["config"] = rng.choice([{}, {}, {"name": rng.choice(TEXTS)}])
        b["late"] = rng.random() < 0.2
    if kind == "ssr":
        b["pyscript"] = CSR_OK and rng.random() < 0.15
    return b


def gen(rng, prop):
    nb = rng.choice([1, 2, 2, 3])
    builds = [gen_build(rng, k, 0) for k in range(nb)]
    if nb > 1 and rng.random() < 0.5:  # a new version of the same application
        builds[1] = dict(json.loads(json.dumps(builds[0])), title=rng.choice(TEXTS))
    slots = rng.choice([1, 1, 2, 3])
    acts = [["start", 0.0, s, rng.randrange(nb)] for s in range(slots)]
    t = 0.0
    nclients = rng.choice([1, 2, 3])
    for _ in range(rng.randint(6, 40)):
        t += rng.choice([0, 0, 0.001, 0.05, 0.3, 0.7, 1.0, 2, 70])
        r = rng.random()
        if r < 0.1:
            acts.append(["start", t, rng.randrange(slots), rng.randrange(nb)])
        elif r < 0.16:
            acts.append(["clock", t, rng.choice([-3600, -60, -1, -0.4, 0.5, 3600, 86400])])
        elif r < 0.2:
            acts.append(["files", t])
        elif r < 0.26:
            acts.append(["publish", t, rng.choice(["m1", "m2.js", "lib/m3", "m1.mjs"]),
                         rng.choice(TEXTS), rng.random() < 0.3])
        elif r < 0.30:
            acts.append(["ws", t, rng.randrange(slots),
                         rng.choice(["/ws", "/live/3", "/live/x", "/nope"])])
        elif r < 0.33:
            acts.append(["lifespan", t, rng.randrange(slots)])
        else:
            k = rng.random()
            path = rng.choice(PAGES) if k < 0.68 else rng.choice(ROUTE_PATHS) if k < 0.84 \
                else "mod:" + rng.choice(["m1.js", "m2.js", "lib/m3.js", "m1.mjs", "none.js"])
            acts.append(["req", t, {
                "client": rng.randrange(nclients), "slot": rng.randrange(slots),
                "sticky": rng.random() < 0.5, "path": path,
                "method": rng.choice(["GET"] * 5 + ["HEAD"]),
                "cond": rng.choice(["no", "both", "both", "etag", "date", "stale"]),
                "delays": rng.choice([[], [], [0.2, 0.1], [3, 0], [0, 5]]),
                "fault": rng.choice([None] * 7 + ["abort0", "abort1", "cancel"]),
                "cancel": rng.choice([0, 0.0001, 0.05, 0.25]),
                "burst": rng.choice([1, 1, 1, 2, 3]),
            }])
    return {"seed": rng.getrandbits(32), "builds": builds, "slots": slots, "acts": acts}


def shrink(plan):
    def cp():
        return json.loads(json.dumps(plan))

    for i in reversed(range(len(plan["acts"]))):
        p = cp()
        p["acts"].pop(i)
        yield p
    for i, b in enumerate(plan["builds"]):
        for k, v in (("headers", []), ("routes", []), ("ws", []), ("lifespan", False),
                     ("meta", None), ("prepend", None), ("title", "plain"),
                     ("head", "own"), ("late", False), ("code", "plain"),
                     ("initial", ""), ("config", {}), ("pyscript", False)):
            if k in b and b[k] != v:
                p = cp()
                p["builds"][i][k] = v
                yield p
    for i, a in enumerate(plan["acts"]):
        if a[0] == "req":
            for k, v in (("fault", None), ("delays", []), ("burst", 1), ("path", "/"),
                         ("method", "GET")):
                if a[2][k] != v:
                    p = cp()
                    p["acts"][i][2][k] = v
                    yield p


# ------------------------------------------------------------------ reading a page
class Page(_hp.HTMLParser):
    VOID = {"meta", "link", "br", "img", "input", "hr"}

    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.stack, self.items, self.doctype = [], [], None
        self.feed(text)
        self.close()

    def handle_decl(self, decl):
        self.doctype = decl.lower()

    def handle_starttag(self, tag, attrs):
        self.items.append(("el", tag, dict(attrs), tuple(self.stack)))
        if tag not in self.VOID:
            self.stack.append(tag)

    def handle_startendtag(self, tag, attrs):
        self.items.append(("el", tag, dict(attrs), tuple(self.stack)))

    def handle_endtag(self, tag):
        if tag in self.stack:
            while self.stack.pop() != tag:
                pass

    def handle_data(self, data):
        self.items.append(("text", data, None, tuple(self.stack)))

    def els(self, tag):
        return [i for i in self.items if i[0] == "el" and i[1] == tag]

    def text_in(self, tag):
        return "".join(i[1] for i in self.items
                       if i[0] == "text" and i[3] and i[3][-1] == tag)


# ------------------------------------------------------------------ the run
class Gone(Exception):
    """the connection of the client was lost"""


class RouteError(Exception):
    pass


class Instance:
    def __init__(self, world, slot, build, serial):
        self.slot, self.build, self.serial = slot, build, serial
        self.probe = None
        self.app = world.make_app(build, self)


class World:
    def __init__(self, plan, want_trace=False):
        self.plan, self.want_trace = plan, want_trace
        self.bad, self.trace, self.stats, self.shapes = [], [], {}, set()
        self.h = hashlib.sha256()
        self.caches = {}
        self.published, self.publishing = {}, {}
        self.heads = {}
        self.log = []
        self.digest, self.sim_time, self.steps = "", 0.0, 0

    def violate(self, kind, msg):
        self.bad.append((kind, msg[:600]))

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def note(self, *what):
        line = (round(self.loop.time(), 6), *what)
        self.h.update(repr(line).encode())
        if self.want_trace:
            self.trace.append(line)

    # -- applications
    def head_of(self, i, b):
        if b["head"] == "none":
            return None
        key = i if b["head"] == "shared" else None
        if key is not None and key in self.heads:
            return self.heads[key]
        kids = [html.title(b["title"])]
        if b["meta"] is not None:
            kids.append(html.meta({"name": "description", "content": b["meta"]}))
        h = html.head(*kids)
        if key is not None:
            self.heads[key] = h
        return h

    def code_path(self, i):
        return os.path.join(self.dir, f"code{i}.py")

    def write_code(self, i, b):
        with open(self.code_path(i), "w", encoding="utf-8") as f:
            f.write("from reactpy import component, html\n\n@component\ndef root():\n"
                    f"    return html.p({b['code']!r})\n")

    def make_app(self, i, inst):
        b = self.plan["builds"][i]
        opts = {"html_lang": b["lang"], "http_headers": {k: v for k, v in b["headers"]}}
        if not b["headers"]:
            opts.pop("http_headers")
        if b["prepend"] != "default":
            opts["prepend_body"] = None if b["prepend"] is None else html.p(b["prepend"])
        head = self.head_of(i, b)
        if head is not None:
            opts["html_head"] = head
        if b["kind"] == "ssr":
            def root():
                return html.div("x")
            if b.get("pyscript"):
                opts["pyscript_setup"] = True
            app = ReactPy(reactpy.component(root), **opts)
        elif b["kind"] == "csr":
            if not b["late"] or self.files_there:
                self.write_code(i, b)
            app = ReactPyCsr(self.code_path(i), initial=b["initial"],
                             pyscript_config=dict(b["config"]), **opts)
        else:
            app = ReactPyMiddleware(self.user_app(inst), root_components=[])
            return app
        for r, mode in b["routes"]:
            app.route(r)(self.route_app(inst, r, mode))
        for r in b["ws"]:
            app.route(r, type="websocket")(self.ws_app(inst, r))
        if b["lifespan"]:
            app.lifespan(self.lifespan_app(inst))
        return app

    def user_app(self, inst):
        async def app(scope, receive, send):
            if scope["type"] == "lifespan":
                return
            body = f"user {inst.serial} {scope['method']} {scope['path']}".encode()
            await send({"type": "http.response.start", "status": 200,
                        "headers": [(b"content-length", str(len(body)).encode())]})
            await send({"type": "http.response.body", "body": body})
        return app

    def route_app(self, inst, r, mode):
        async def app(scope, receive, send):
            if mode == "slow":
                await asyncio.sleep(1)
            body = f"route {inst.serial} {r}".encode()
            await send({"type": "http.response.start", "status": 203, "headers": []})
            if mode == "fail":
                raise RouteError(f"{inst.serial} {r}")
            await send({"type": "http.response.body", "body": body})
        return app

    def ws_app(self, inst, r):
        async def app(scope, receive, send):
            await receive()
            await send({"type": "websocket.accept"})
            await send({"type": "websocket.send", "text": f"ws {inst.serial} {r}"})
            await send({"type": "websocket.close"})
        return app

    def lifespan_app(self, inst):
        async def app(scope, receive, send):
            await receive()
            await send({"type": "lifespan.startup.complete", "by": inst.serial})
        return app

    # -- what a request must lead to
    def expected(self, inst, path):
        b = self.plan["builds"][inst.build]
        if b["kind"] == "mw":
            return ("user", f"user {inst.serial}")
        for r, mode in b["routes"]:
            if re.fullmatch(r.lstrip("^").rstrip("$"), path):
                return ("route", r, mode)
        return ("index",)

    # -- clients
    async def request(self, inst, rec, headers, method, path, delays=(), fault=None):
        """-> fills in rec: status, headers, body, error"""
        rec.update(status=None, headers=None, body=b"", more=True, error=None, sent=0)

        async def receive():
            await asyncio.sleep(3600)
            return {"type": "http.disconnect"}

        async def send(m):
            k = rec["sent"]
            rec["sent"] += 1
            if k < len(delays) and delays[k]:
                self.count("fault_slow_transfer")
                await asyncio.sleep(delays[k])
            if fault == f"abort{k}":
                self.count("fault_aborted_transfer")
                raise Gone
            if m["type"] == "http.response.start":
                if rec["status"] is not None:
                    self.violate("protocol", "the response was started twice")
                rec["status"] = m["status"]
                rec["headers"] = [(bytes(k), bytes(v)) for k, v in m.get("headers", ())]
            elif m["type"] == "http.response.body":
                if rec["status"] is None:
                    self.violate("protocol", "a body was sent before the response began")
                elif not rec["more"]:
                    self.violate("protocol", "a body was sent after the response had ended")
                rec["body"] += m.get("body", b"")
                rec["more"] = m.get("more_body", False)
            else:
                self.violate("protocol", f"unexpected message {m['type']!r}")

        scope = {"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1",
                 "method": method, "path": path, "raw_path": path.encode(),
                 "query_string": b"", "scheme": "http", "headers": headers,
                 "client": ("127.0.0.1", 5), "server": ("127.0.0.1", 80), "state": {},
                 "root_path": ""}
        try:
            await inst.app(scope, receive, send)
        except Gone:
            rec["error"] = "gone"
        except asyncio.CancelledError:
            rec["error"] = "cancelled"
        except Exception as e:  # noqa: BLE001
            rec["error"] = f"{type(e).__name__}: {e}".replace(self.dir, "")
            rec["exc"] = type(e).__name__

    def cond_headers(self, r, path):
        cached = self.caches.get((r["client"], path))
        hs, used = [], None
        if cached and r["cond"] != "no":
            used = cached
            if r["cond"] == "stale":  # the version before the one that is cached
                used = cached.get("older")
            if used and r["cond"] in ("both", "etag", "stale"):
                hs.append((b"if-none-match", used["etag"]))
            if used and r["cond"] in ("both", "date", "stale") and used["date"]:
                hs.append((b"if-modified-since", used["date"]))
        return hs, used

    async def do_request(self, r, n):
        slot = r["client"] % self.plan["slots"] if r["sticky"] else r["slot"]
        inst = self.slots[slot]
        path = r["path"]
        if path.startswith("mod:"):
            return await self.get_module(inst, r, path[4:])
        hs, used = self.cond_headers(r, path)
        self.count("requests")
        if used:
            self.count("revalidations")
        rec = {"n": n, "r": r, "inst": inst, "path": path, "used": used, "hs": hs,
               "t": self.loop.time(), "files": self.files_there}
        task = self.loop.create_task(self.request(
            inst, rec, [(b"host", b"x"), *hs], r["method"], path, r["delays"], r["fault"]))
        if r["fault"] == "cancel":
            await asyncio.sleep(r["cancel"])
            if not task.done():
                self.count("fault_cancelled_request")
                task.cancel()
        await asyncio.wait([task])
        rec["files_after"] = self.files_there
        self.note("response", n, inst.serial, r["method"], path, rec["status"],
                  hashlib.md5(rec["body"]).hexdigest()[:8], rec["error"])
        self.log.append(rec)
        if rec["error"] is None and rec["status"] == 200 and r["method"] == "GET" \
                and self.expected(inst, path) == ("index",):
            h = dict(rec["headers"] or ())
            if b"etag" in h:
                self.caches[r["client"], path] = {
                    "body": rec["body"], "etag": h[b"etag"], "date": h.get(b"last-modified"),
                    "older": self.caches.get((r["client"], path)), "n": n}
                c = self.caches[r["client"], path]
                if c["older"] is not None:
                    c["older"]["older"] = None

    async def get_module(self, inst, r, name):
        before = self.published.get(name)
        rec = {"n": -1}
        path = f"{config.REACTPY_PATH_PREFIX.current}modules/{name}"
        await self.request(inst, rec, [(b"host", b"x")], "GET", path, r["delays"])
        self.count("module_requests")
        if self.published.get(name) != before:
            return  # it was replaced meanwhile
        self.note("module", name, rec["status"], len(rec["body"]), rec["error"])
        if rec["error"]:
            self.violate("module", f"the request for module {name} failed: {rec['error']}")
        elif before is None:
            if rec["status"] == 200:
                self.violate("module", f"module {name} was never published but is served")
        else:
            self.count("modules_served")
            ct = dict(rec["headers"] or ()).get(b"content-type", b"")
            if rec["status"] != 200 or rec["body"] != before.encode() or rec["more"]:
                self.violate("module", f"module {name} was published before the request, which "
                             f"was answered with {rec['status']} and {rec['body'][:80]!r}")
            elif b"javascript" not in ct:
                self.violate("module", f"module {name} is served as {ct!r}, which browsers "
                             "do not accept")

    def publish(self, name, text, as_file):
        src = f"export function A() {{}}; // {text} {len(self.log)}\n"
        self.count("published")
        mod = getattr(reactpy.reactjs, "module", rmodule)
        if as_file:
            f = os.path.join(self.dir, "source.js")
            with open(f, "w", encoding="utf-8", newline="") as out:
                out.write(src)
            m = mod.file_to_module(name, f)
        else:
            m = mod.string_to_module(name, src)
        self.published[m.source] = src
        self.note("published", m.source)

    async def do_ws(self, slot, path):
        inst = self.slots[slot]
        b = self.plan["builds"][inst.build]
        if b["kind"] == "mw" or path == "/reactpy/":
            return
        got, err = [], None
        sent = []

        async def receive():
            if not sent:
                sent.append(1)
                return {"type": "websocket.connect"}
            return {"type": "websocket.disconnect", "code": 1000}

        async def send(m):
            got.append(m)

        scope = {"type": "websocket", "path": path, "headers": [], "query_string": b"",
                 "subprotocols": []}
        try:
            await inst.app(scope, receive, send)
        except Exception as e:  # noqa: BLE001
            err = e
        want = next((r for r in b["ws"] if re.fullmatch(r, path)), None)
        texts = [m["text"] for m in got if m["type"] == "websocket.send"]
        self.note("ws", path, texts, type(err).__name__)
        if want is None:
            if texts or any(m["type"] == "websocket.accept" for m in got):
                self.violate("route", f"a connection to {path} was accepted: {got}")
        elif err or texts != [f"ws {inst.serial} {want}"]:
            self.violate("route", f"the connection to {path} did not reach the application "
                         f"of route {want!r}: {texts} {err}")
        else:
            self.count("ws_routed")

    async def do_lifespan(self, slot):
        inst = self.slots[slot]
        b = self.plan["builds"][inst.build]
        got, err = [], None

        async def receive():
            return {"type": "lifespan.startup"}

        async def send(m):
            got.append(m)

        try:
            await inst.app({"type": "lifespan"}, receive, send)
        except Exception as e:  # noqa: BLE001
            err = e
        self.note("lifespan", len(got), type(err).__name__)
        if b["kind"] != "mw" and b["lifespan"]:
            if err or [m.get("by") for m in got] != [inst.serial]:
                self.violate("route", f"the lifespan application was not run: {got} {err}")
        elif err and b["kind"] != "mw":
            self.violate("route", f"the lifespan of the application failed: {err!r}")

    # -- the whole
    def act(self, n, a):
        if a[0] == "start":
            if a[2] in self.slots:
                self.count("fault_restart")
            self.serial += 1
            self.instances.append(Instance(self, a[2], a[3], self.serial))
            self.slots[a[2]] = self.instances[-1]
            self.note("start", a[2], a[3])
        elif a[0] == "clock":
            WALL["offset"] += a[2]
            self.count("fault_clock_jump")
        elif a[0] == "files":
            self.files()
        elif a[0] == "publish":
            self.publish(*a[2:])
        elif a[0] == "ws":
            self.spawn(self.do_ws(a[2], a[3]))
        elif a[0] == "lifespan":
            self.spawn(self.do_lifespan(a[2]))
        else:
            for k in range(a[2]["burst"]):
                self.spawn(self.do_request(a[2], f"{n}.{k}"))

    def files(self):
        self.files_there = True
        for i, b in enumerate(self.plan["builds"]):
            if b["kind"] == "csr":
                self.write_code(i, b)

    def spawn(self, coro):
        self.pending.append(self.loop.create_task(coro))

    async def probes(self):
        for inst in self.instances:
            if self.plan["builds"][inst.build]["kind"] != "mw":
                rec = {"n": "probe"}
                await self.request(inst, rec, [(b"host", b"x")], "GET", "/")
                inst.probe = rec

    def run(self):
        plan = self.plan
        boot.seed_run(plan["seed"])
        self.rng = random.Random(plan["seed"])
        self.loop = SimLoop(self.rng)
        WALL.update(loop=self.loop, offset=0.0)
        self.dir = tempfile.mkdtemp(prefix="verif-http-", dir=boot.fast_dir())
        os.makedirs(os.path.join(self.dir, "mods"))
        saved = config.REACTPY_WEB_MODULES_DIR.current
        config.REACTPY_WEB_MODULES_DIR.current = type(saved)(os.path.join(self.dir, "mods"))
        config.REACTPY_DEBUG.current = False
        self.slots, self.instances, self.pending, self.serial = {}, [], [], 0
        self.files_there = not any(b.get("late") for b in plan["builds"])
        hook = sys.unraisablehook
        asyncio._set_running_loop(None)
        try:
            for n, a in enumerate(plan["acts"]):
                self.loop.call_at(a[1], self.act, n, a)
            self.loop.run_to_idle()
            if any(not t.done() for t in self.pending):
                self.violate("stuck", "a request was never answered")
            for t in self.pending:
                if t.done() and not t.cancelled() and t.exception() is not None:
                    raise t.exception()
            self.files()
            done = self.loop.create_task(self.probes())
            self.loop.run_to_idle()
            if done.done():
                done.result()
                for rec in self.log:
                    self.check(rec)
                self.check_pages()
            else:
                self.violate("stuck", "the page was never answered")
        except StepLimit:
            self.violate("stuck", "the run did not end")
        finally:
            self.steps = self.loop.steps
            self.sim_time = self.loop.time()
            self.loop.dispose()
            sys.unraisablehook = hook
            WALL["loop"] = None
            config.REACTPY_WEB_MODULES_DIR.current = saved
            shutil.rmtree(self.dir, ignore_errors=True)
        self.h.update(repr(self.bad).encode())
        self.digest = self.h.hexdigest()
        return self

    # -- checks over the history
    def headers_of(self, rec, what):
        hs = rec["headers"] or []
        names = [k for k, _ in hs]
        for k in names:
            if k != k.lower():
                self.violate("headers", f"{what}: the header name {k!r} is not in lower case")
        low = [k.lower() for k in names]
        dup = sorted({k for k in low if low.count(k) > 1})
        if dup:
            self.violate("headers", f"{what}: sent twice: {dup} in {hs}")
        return {k.lower(): v for k, v in hs}

    def check(self, rec):
        inst, r, path = rec["inst"], rec["r"], rec["path"]
        b = self.plan["builds"][inst.build]
        what = f"{r['method']} {path} to instance {inst.serial} ({b['kind']}, request {rec['n']})"
        want = self.expected(inst, path)
        if rec["error"] in ("gone", "cancelled"):
            return
        if want[0] == "user":
            ok = f"user {inst.serial} {r['method']} {path}"
            if rec["error"] or rec["body"].decode() != ok:
                self.violate("route", f"{what}: the user's application was not reached: "
                             f"{rec['status']} {rec['body'][:60]!r} {rec['error']}")
            return
        if want[0] == "route":
            _, p, mode = want
            if mode == "fail":
                if rec.get("exc") != "RouteError":
                    self.violate("route", f"{what}: the failure of the route was hidden: "
                                 f"{rec['status']} {rec['error']}")
            elif rec["error"] or rec["body"].decode() != f"route {inst.serial} {p}" \
                    or rec["status"] != 203:
                self.violate("route", f"{what}: route {p!r} was not reached: {rec['status']} "
                             f"{rec['body'][:60]!r} {rec['error']}")
            else:
                self.count("routed")
            return
        if rec["error"]:
            if rec.get("exc") == "FileNotFoundError" and not rec["files"]:
                self.count("fault_missing_file")
                return
            self.violate("error", f"{what}: {rec['error']}")
            return
        probe = inst.probe
        if probe is None or probe["error"] or probe["status"] != 200:
            return  # reported by check_pages
        page = probe["body"]
        ph = {k.lower(): v for k, v in probe["headers"]}
        h = self.headers_of(rec, what)
        if rec["status"] is None or rec["more"]:
            self.violate("incomplete", f"{what}: the response did not end")
            return
        for k, v in b["headers"]:
            if h.get(k.lower().encode()) != v.encode():
                self.violate("headers", f"{what}: the configured header {k}: {v} was answered "
                             f"as {h.get(k.lower().encode())!r}")
        for k in (b"etag", b"last-modified", b"cache-control", b"content-type",
                  b"access-control-allow-origin"):
            if rec["status"] != 304 and k not in h:
                self.violate("headers", f"{what}: no {k.decode()} header")
            elif k in h and h[k] != ph.get(k):
                self.violate("headers", f"{what}: {k.decode()} is {h[k]!r}, in the response "
                             f"with the page {ph.get(k)!r}")
        used, got = rec["used"], rec["status"]
        self.shapes.add(f"{b['kind']} {r['method']} {r['cond'] if used else '-'} {got}")
        inm = any(k == b"if-none-match" for k, _ in rec["hs"])
        if r["method"] == "HEAD":
            if rec["body"]:
                self.violate("head", f"{what}: a body of {len(rec['body'])} bytes was sent")
            if got == 200 and h.get(b"content-length", b"").decode() != str(len(page)):
                self.violate("length", f"{what}: content-length {h.get(b'content-length')!r}, "
                             f"but the page has {len(page)} bytes")
            elif got not in (200, 304):
                self.violate("status", f"{what}: status {got}")
            if got == 304 and (not used or used["body"] != page):
                self.violate("stale", f"{what}: 'not modified' for another page")
            return
        if got == 304:
            if rec["body"]:
                self.violate("body304", f"{what}: 304 with a body")
            if h.get(b"content-length", b"") not in (b"", b"0", str(len(page)).encode()):
                self.violate("length", f"{what}: 304 with content-length "
                             f"{h[b'content-length']!r}")
            if not used:
                self.violate("stale", f"{what}: 304 without a condition")
            elif inm and used["body"] != page:
                self.violate("stale", f"{what}: the client was told that its copy is current, "
                             f"but it has another page (request headers {rec['hs']}, etag "
                             f"{ph.get(b'etag')!r})")
            elif not inm and used["date"] != ph.get(b"last-modified"):
                self.violate("stale", f"{what}: 304 although the page was modified at "
                             f"{ph.get(b'last-modified')!r}, not {used['date']!r}")
            else:
                self.count("not_modified")
        elif got == 200:
            if rec["body"] != page:
                self.violate("page", f"{what}: a page of {len(rec['body'])} bytes that differs "
                             f"from the instance's page of {len(page)} bytes")
            if h.get(b"content-length") != str(len(rec["body"])).encode():
                self.violate("length", f"{what}: content-length {h.get(b'content-length')!r} "
                             f"for a body of {len(rec['body'])} bytes")
            if used and inm and used["body"] == page and used["etag"] == ph.get(b"etag"):
                self.violate("refetch", f"{what}: the client has the page, but it was sent again")
            self.count("pages")
        else:
            self.violate("status", f"{what}: status {got}")

    def check_pages(self):
        for inst in self.instances:
            b = self.plan["builds"][inst.build]
            if b["kind"] == "mw":
                continue
            rec, what = inst.probe, f"the page of instance {inst.serial} ({b['kind']})"
            if rec["error"] or rec["status"] != 200 or rec["more"]:
                self.violate("error", f"{what}: {rec['status']} {rec['error']}")
                continue
            h = self.headers_of(rec, what)
            if h.get(b"content-length") != str(len(rec["body"])).encode():
                self.violate("length", f"{what}: content-length {h.get(b'content-length')!r} "
                             f"for {len(rec['body'])} bytes")
            try:
                email.utils.parsedate_to_datetime(h.get(b"last-modified", b"").decode())
            except (ValueError, TypeError):
                self.violate("headers", f"{what}: last-modified {h.get(b'last-modified')!r}")
            self.check_page(b, what, rec["body"].decode("utf-8", "replace"))

    def check_page(self, b, what, text):
        def bad(m):
            self.violate("content", f"{what}: {m}")

        p = Page(text)
        if p.doctype != "doctype html":
            bad(f"doctype {p.doctype!r}")
        roots = p.els("html")
        if len(roots) != 1 or roots[0][2].get("lang") != b["lang"]:
            bad(f"html element {roots}, expected language {b['lang']!r}")
        titles = [b["title"]] if b["head"] != "none" else []
        if len(p.els("title")) != len(titles) or (titles and p.text_in("title") != titles[0]):
            bad(f"title {p.text_in('title')!r}, configured was {titles}")
        metas = [m[2].get("content") for m in p.els("meta")
                 if m[2].get("name") == "description"]
        if metas != ([b["meta"]] if b["meta"] is not None and titles else []):
            bad(f"meta elements {metas}, configured was {b['meta']!r}")
        pre = [i[1] for i in p.items if i[0] == "text" and i[3] in
               (("html", "body", "p"), ("html", "body", "noscript"))]
        want = [] if b["prepend"] is None else \
            [b["prepend"]] if b["prepend"] != "default" else None
        if want is None and len(pre) != 1 or want is not None and "".join(pre) != "".join(want):
            bad(f"{pre} at the start of the body, configured was {b['prepend']!r}")
        scripts = [s for s in p.els("script")]
        setups = [s for s in scripts if s[2].get("type") == "py" and "config" in s[2]]
        n = 1 if b["kind"] == "csr" or b.get("pyscript") else 0
        if len(setups) != n:
            bad(f"{len(setups)} PyScript set-ups, expected {n}")
        for s in setups:
            if "head" not in s[3]:
                bad("the PyScript set-up is not in the head")
            try:
                c = json.loads(s[2]["config"])
            except (ValueError, TypeError):
                bad(f"the PyScript configuration can't be read: {s[2]['config']!r}")
                continue
            for k, v in b.get("config", {}).items():
                if c.get(k) != v:
                    bad(f"PyScript configuration {k} is {c.get(k)!r}, configured was {v!r}")
        if b["kind"] == "csr":
            divs = [d for d in p.els("div") if "data-uuid" in d[2]]
            if len(divs) != 1:
                bad(f"{len(divs)} places for the component")
            if repr(b["code"]) not in p.text_in("script"):
                bad("the user's code is not in the page")
            got = "".join(i[1] for i in p.items
                          if i[0] == "text" and i[3] == ("html", "body", "div"))
            if "<" not in b["initial"] and got != b["initial"]:
                bad(f"initial content {got!r}, configured was {b['initial']!r}")
        else:
            apps = [d for d in p.els("div") if d[2].get("id") == "app"]
            if len(apps) != 1 or text.count("mountReactPy({") != 1:
                bad("the application is not mounted exactly once")


def run(plan, want_trace=False):
    return World(plan, want_trace).run()


def judge(prop, plan, w):
    return w.bad


def nontrivial(prop, w):
    return w.stats.get("pages", 0) >= 2 and w.stats.get("revalidations", 0) >= 1
