"""A page of a template with several components: the real template tag, middleware, file serving,
layouts and browser client; each component of the page is a session of its own. The network
between them delays, stalls, loses and refuses; the server is restarted."""
from __future__ import annotations

import asyncio
import contextlib
import hashlib
import html.parser
import json
import os
import random
import shutil
import sys
import tempfile
import types
import urllib.parse
from pathlib import Path

from sim import boot, w_e2e
from sim.loop import SimLoop
from sim.w_e2e import Conn, Gone, call, drop_process, hash_text

import jinja2  # noqa: E402

from reactpy import component, config, html as H, use_effect, use_state  # noqa: E402
from reactpy import reactjs  # noqa: E402
from reactpy.core.events import EventHandler, to_event_handler_function  # noqa: E402
from reactpy.core.hooks import use_location, use_scope  # noqa: E402
from reactpy.executors.asgi.middleware import ReactPyMiddleware  # noqa: E402
from reactpy.templatetags import ReactPyJinja  # noqa: E402

NAMES = ["simpage.Alpha", "simpage.Alpha2", "simpage.Beta_2", "simpage.sub_mod.Gamma", "simpage.Délta"]
PREFIXES = ["/reactpy/", "/reactpy/", "/_rp/x/", "/a.b-c/", "/c++/"]
PLACES = w_e2e.PLACES + [("/reactpy", ""), ("/reactpy/simpage.Alpha/", ""), ("/staticx", "?static=1")]
CLASSES = ["", "", "box", "box wide", "é", 'a"b', "<&>"]
TEXT = ["Hello", "<p>more</p>", "<h1 class=\"t\">Title</h1>", "<ul><li>1</li></ul>", "é → &amp;"]


def gen(rng, prop):
    names = rng.sample(NAMES, rng.randint(1, 3))
    tags = [{"name": n, "class": rng.choice(CLASSES)} for n in names]
    if rng.random() < 0.3:
        tags.append({"name": rng.choice(names), "class": ""})
    if rng.random() < 0.15:
        tags.append({"name": "simpage.Missing", "class": ""})
    rng.shuffle(tags)
    acts = []
    for _ in range(rng.randint(4, 16)):
        r = rng.random()
        m = rng.randrange(len(tags))
        if r < 0.3:
            a = {"do": "click", "n": rng.choice([1, 1, 2, 5])}
        elif r < 0.4:
            a = {"do": "set"}
        elif r < 0.5:
            a = {"do": "rows", "to": rng.sample("abcde", rng.randint(0, 4))}
        elif r < 0.56:
            a = {"do": "ping"}
        elif r < 0.76:
            a = {"do": "drop", "kind": rng.choice(["clean", "unclean", "closing"]),
                 "client": rng.choice([0, 0, 0.01, 0.3]), "server": rng.choice([0, 0, 0.01, 0.4, 2.0]),
                 "loses": rng.random() < 0.6, "refuse": rng.choice([0, 0, 1, 3])}
        elif r < 0.82:
            a = {"do": "stall", "for": rng.choice([0.05, 0.5, 1.5])}
        elif r < 0.9:
            a = {"do": "flood", "n": rng.choice([10, 40])}
        elif r < 0.94:
            a = {"do": "restart", "down": rng.choice([0, 0.05, 0.4])}
        else:
            a = {"do": "get", "path": rng.choice(["/other", "/x/static/index.js", "/xPREstatic/index.js",
                                                 "/xPREmodules/m.js", "PREstatic/none.js",
                                                 "PREmodules/none.js", "PRE", "/"])}
        a["m"] = m
        a["gap"] = rng.choice([0, 0, 0.001, 0.01, 0.05, 0.3, "settle", "settle"])
        a["probe"] = rng.random() < 0.4
        acts.append(a)
    return {"seed": rng.getrandbits(32), "tags": tags, "acts": acts,
            "text": [rng.choice(TEXT) for _ in range(len(tags) + 1)],
            "prefix": rng.choice(PREFIXES), "at": rng.randrange(len(PLACES)), "tls": rng.random() < 0.2,
            "gadget": [n for n in NAMES if rng.random() < 0.4],
            "named": rng.random() < 0.5, "slow": {n: rng.choice([0, 0, 0.01, 0.05]) for n in NAMES},
            "module_delay": [rng.choice([0, 0.002, 0.05, 0.8]) for _ in range(3)],
            "module_fail": [i for i in range(6) if rng.random() < 0.07],
            "async": rng.random() < 0.5, "queue": rng.choice([1, 2, 1000, 1000]),
            "late": rng.choice([0, 0, 1, 8]),
            "settings": {"reconnect_interval": rng.choice([5, 50, 200]),
                         "reconnect_max_interval": rng.choice([200, 1000]),
                         "reconnect_max_retries": 150,
                         "reconnect_backoff_multiplier": rng.choice([1, 1.25, 2])},
            "net": [{"up": rng.choice([0, 0.002, 0.03]), "down": rng.choice([0, 0.002, 0.03]),
                     "jitter": rng.choice([0, 0, 0.02]), "connect": rng.choice([0, 0.002, 0.05]),
                     "write": rng.choice([None, 0, 0.004, 0.05])} for _ in range(4)]}


def shrink(plan):
    def cp():
        return json.loads(json.dumps(plan))

    n = len(plan["acts"])
    size = n
    while size >= 1:
        for i in range(0, n, size):
            p = cp()
            del p["acts"][i: i + size]
            yield p
        size //= 2
    for i in range(len(plan["tags"])):
        if len(plan["tags"]) > 1:
            p = cp()
            p["tags"].pop(i)
            p["text"].pop(i)
            for a in p["acts"]:
                a["m"] = (a["m"] - (a["m"] > i)) % len(p["tags"])
            yield p
    for k, v in (("late", 0), ("queue", 1000), ("async", False), ("tls", False), ("gadget", []),
                 ("module_fail", []), ("prefix", "/reactpy/"), ("at", 0)):
        if plan[k] != v:
            p = cp()
            p[k] = v
            yield p
    for i, t in enumerate(plan["tags"]):
        if t["class"]:
            p = cp()
            p["tags"][i]["class"] = ""
            yield p
    for i, t in enumerate(plan["text"]):
        if t != "Hello":
            p = cp()
            p["text"][i] = "Hello"
            yield p
    for i, a in enumerate(plan["acts"]):
        if a["probe"]:
            p = cp()
            p["acts"][i]["probe"] = False
            yield p


# ------------------------------------------------------------------ what a browser reads
class Reader(html.parser.HTMLParser):
    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.tops = {"head": [], "body": []}
        self.at, self.scripts, self.script = None, [], None
        self.stack = []
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        if tag in ("html", "head", "body"):
            if tag in self.tops:
                self.at, self.stack = tag, [self.tops[tag]]
            return
        if tag == "script":
            a = dict(attrs)
            self.script = {"module": a.get("type") == "module", "text": "", "attrs": a}
            return
        if self.at is None:
            return
        n = {"tag": tag, "attrs": {k: v or "" for k, v in attrs}, "kids": []}
        self.stack[-1].append(n)
        if tag not in ("meta", "link", "br"):
            self.stack.append(n["kids"])

    def handle_endtag(self, tag):
        if tag in ("html", "head", "body"):
            return
        if tag == "script":
            self.scripts.append(self.script)
            self.script = None
        elif len(self.stack) > 1:
            self.stack.pop()

    def handle_data(self, data):
        if self.script is not None:
            self.script["text"] += data
        elif self.at is not None and data.strip():
            self.stack[-1].append(data)


def plain(nodes):
    out = []
    for n in nodes:
        if isinstance(n, str):
            if out and isinstance(out[-1], str):
                out[-1] += n
            else:
                out.append(n)
        else:
            out.append([n["tag"], dict(n["attrs"]), plain(n["kids"])])
    return [" ".join(x.split()) if isinstance(x, str) else x for x in out if not isinstance(x, str) or x.strip()]


class World(w_e2e.World):
    def __init__(self, plan, want_trace):
        super().__init__({**plan, "comps": {}, "acts": plan["acts"], "at": 0}, want_trace)
        self.place = PLACES[plan["at"]]
        self.refusals = {}
        self.sent = {}  # mark -> connection
        self.home = {}  # mark -> mount
        self.owner = {}  # connection -> mount
        self.loads = 0
        self.loading = 0
        self.wild = False  # whether a module could not be loaded
        self.outside = []

    # -- the application
    def make_root(self, name):
        w = self

        @component
        def Row(k):
            n, set_n = use_state(0)
            return H.li({"data-k": k}, f"{k}{n}")

        @component
        def Root():
            conn = use_scope()["conn"]
            loc = use_location()
            n, set_n = use_state(lambda: 0)
            rows, set_rows = use_state(lambda: [])
            w.active()
            conn.set_n, conn.set_rows = set_n, set_rows
            conn.root = name
            if (loc.path, loc.query_string) != w.place:
                w.violate("location", f"the session's location is {loc}, the page's {w.place}")

            def life():
                conn.mounted[name] = conn.mounted.get(name, 0) + 1

                def gone():
                    conn.mounted[name] -= 1
                return gone

            use_effect(life, [])

            async def inc(e):
                w.handled(conn, "inc", e)
                w.active()
                if w.plan["slow"][name]:
                    await asyncio.sleep(w.plan["slow"][name])
                conn.n += 1
                set_n(conn.n)
                w.active()

            async def ping(e):
                w.handled(conn, "ping", e)
                w.active()

            # with names of their own, the handlers mean the same to every session
            own = lambda f, t: EventHandler(  # noqa: E731
                to_event_handler_function(f, positional_args=True), target=t)
            return H.div(
                {"className": "root", "data-session": str(conn.no), "data-root": name},
                H.p({"id": "n"}, f"{name} {n}"),
                H.button({"id": "inc", "onClick": own(inc, "inc")}, "+"),
                H.ul(*[Row(k, key=k) for k in rows]),
                w.gadgets[name]({"n": n, "onPing": own(ping, "ping")}) if name in w.gadgets else None)

        return Root

    def setup(self):
        plan = self.plan
        self.dir = tempfile.mkdtemp(prefix="verif-page-", dir=boot.fast_dir())
        static, mods = Path(self.dir, "static"), Path(self.dir, "modules")
        static.mkdir()
        mods.mkdir()
        for n in ("index.js", "preact.js", "preact-dom.js", "preact-jsx-runtime.js"):
            (static / n).write_text(f"// {n}\n")
        config.REACTPY_WEB_MODULES_DIR.current = mods
        for c in (reactjs._STRING_JS_MODULE_CACHE, reactjs._FILE_JS_MODULE_CACHE):
            c.clear()
        self.gadgets, self.texts = {}, {}
        for i, n in enumerate(plan["gadget"]):
            text = f"export function Gadget() {{}} // {n}\n"
            kw = {"name": f"gadget-{i}.min"} if plan["named"] else {}
            if i % 2:
                # relative, so that names made from the path do not depend on the scratch directory
                cwd = os.getcwd()
                os.chdir(self.dir)
                try:
                    Path(f"src{i}.js").write_text(text)
                    self.gadgets[n] = reactjs.component_from_file(f"src{i}.js", "Gadget", **kw)
                finally:
                    os.chdir(cwd)
            else:
                self.gadgets[n] = reactjs.component_from_string(text, "Gadget", **kw)
            self.texts[n] = text
        for m in ("simpage", "simpage.sub_mod"):
            sys.modules[m] = types.ModuleType(m)
        sys.modules["simpage"].sub_mod = sys.modules["simpage.sub_mod"]
        for n in NAMES:
            mod, attr = n.rsplit(".", 1)
            setattr(sys.modules[mod], attr, self.make_root(n))
        self.static = static

    def source(self):
        out = ["<!doctype html><html><head><title>T</title></head><body>"]
        for i, t in enumerate(self.plan["tags"]):
            # where a value comes from a variable it may hold anything
            cls = f", class=c{i}" if t["class"] else ""
            out.append(f'{self.plan["text"][i]}{{% component "{t["name"]}"{cls} %}}')
        return "\n".join([*out, self.plan["text"][-1], "</body></html>"])

    def new_app(self):
        w = self
        env = jinja2.Environment(extensions=[ReactPyJinja], autoescape=True)
        template = env.from_string(self.source())

        async def user_app(scope, receive, send):
            w.outside.append((scope["type"], scope.get("path")))
            if scope["type"] != "http":
                return
            text = template.render(**{f"c{i}": t["class"] for i, t in enumerate(w.plan["tags"])})
            await send({"type": "http.response.start", "status": 200,
                        "headers": [(b"content-type", b"text/html; charset=utf-8")]})
            await send({"type": "http.response.body", "body": text.encode()})

        names = dict.fromkeys(t["name"] for t in self.plan["tags"] if t["name"] != "simpage.Missing")
        app = ReactPyMiddleware(user_app, list(names), path_prefix=self.plan["prefix"], **self.plan["settings"])
        app.static_dir = self.static
        return app

    async def get(self, url):
        """what a browser does with a URL of the page -> status, body"""
        # (a browser encodes what may not stand in a URL)
        u = urllib.parse.urlsplit(urllib.parse.quote(url, safe="/:?=&%+@!$'()*,;~#[]"))
        got = []

        async def receive():
            return {"type": "http.request", "body": b"", "more_body": False}

        async def send(m):
            got.append(m)
        await self.app({"type": "http", "method": "GET", "path": urllib.parse.unquote(u.path),
                        "raw_path": u.path.encode(), "query_string": u.query.encode(), "headers": [],
                        "http_version": "1.1", "scheme": "http", "server": ("sim.test", 80),
                        "client": ("127.0.0.1", 1), "root_path": ""}, receive, send)
        status = next((m["status"] for m in got if m["type"] == "http.response.start"), None)
        return status, b"".join(m.get("body", b"") for m in got if m["type"] == "http.response.body").decode()

    def fetch_now(self, url):
        t = self.loop.create_task(self.get(url))
        while not t.done():
            self.advance_time(0.01)
        return t.result()

    # -- browser
    def js(self, **q):
        q["t"] = max(self.loop.time() * 1000, self.js_time)
        a = call(**q)
        self.js_time = q["t"]
        self.took(a)
        return a["r"]

    def took(self, a):
        for e in a["errors"]:
            if "cannot load" not in e:
                self.violate("client", f"error in the browser: {e}"[:300])
        for o in a["out"]:
            if o[0] == "connect":
                self.connect(o[1], o[2])
            elif o[0] == "send":
                self.ev("sent", o[1], hash_text(o[2]))
                self.count("messages")
                m = json.loads(o[2])
                conn = self.conns[o[1]]
                if not o[3]:
                    self.violate("dead-socket", "a message was handed to a closed connection")
                mark = m["data"][0].get("mark")
                if mark in self.sent:
                    self.violate("sent-twice", f"event {mark} was sent twice")
                self.sent[mark] = conn
                conn.ticks.append((m["target"], mark))
                if self.owner.setdefault(conn.no, self.home.get(mark)) != self.home.get(mark):
                    self.violate("mixed", f"event {mark} of mount {self.home.get(mark)} was sent over the "
                                 f"connection of mount {self.owner[conn.no]}")
                conn.up(o[2])
            elif o[0] == "module":
                self.loop.create_task(self.load(o[1], o[2]))
            elif o[0] == "script":
                self.scripts.append(o[1])
            elif o[0] == "importmap":
                self.maps.append(o[1:])
        if self.timer is not None:
            self.timer.cancel()
            self.timer = None
        if a["next"] is not None:
            self.timer = self.loop.call_at(max(a["next"] / 1000, self.loop.time()), self.wake, a["next"])

    async def load(self, i, url):
        """the browser imports a module"""
        k = self.loads
        self.loads += 1
        self.loading += 1
        self.active()
        self.count("module_loads")
        await asyncio.sleep(self.plan["module_delay"][k % 3])
        text = None
        if k in self.plan["module_fail"]:
            self.count("fault_module_failed")
            self.wild = True
        else:
            status, text = await self.get(url)
            known = [n for n, t in self.texts.items() if t == text]
            if status != 200 or not known:
                self.violate("module", f"the import of {url} was answered with {status} {text[:60]!r}")
                text = None
            else:
                text = known[0]
        self.loading -= 1
        self.active()
        self.js(c="loaded", i=i, text=text)

    def connect(self, no, url):
        conn = Conn(self, no, url)
        conn.n, conn.rows, conn.root = 0, [], None
        conn.place = self.place
        self.conns.append(conn)
        self.ev("connect", no, urllib.parse.urlsplit(url).path)
        if urllib.parse.urlsplit(url).scheme != ("wss" if self.plan["tls"] else "ws"):
            self.violate("scheme", f"a connection is made to {url} by a page of "
                         f"{'https' if self.plan['tls'] else 'http'}")
        self.count("connections")
        self.active()
        path = urllib.parse.urlsplit(url).path

        def there():
            self.active()
            if conn.closed is not None:
                return
            # (a client whose first connection fails does not try again)
            if no >= len(self.plan["tags"]) and self.refusals.get(path, 0) > 0 or self.loop.time() < self.refuse_until:
                self.refusals[path] = max(0, self.refusals.get(path, 0) - 1)
                self.count("fault_connect_refused")
                conn.refused = True
                conn.closed = conn.told = self.loop.time()
                self.js(c="close", ws=no, clean=False)
                return
            conn.start()
        self.loop.call_later(conn.net["connect"], there)

    def handled(self, conn, hid, e):
        super().handled(conn, hid, e)
        mark = e.get("mark")
        m = self.home.get(mark)
        if self.sent.get(mark) is not conn:
            self.violate("mixed", f"event {mark} of mount {m} was handled by the session of connection {conn.no}")

    # -- mounts
    def session(self, m):
        """the connection whose view the mount shows"""
        for n in self.js(c="shown", m=m) or []:
            if not isinstance(n, str) and n["attrs"].get("data-session", "").isdigit():
                return self.conns[int(n["attrs"]["data-session"])]
        return None

    def live_of(self, m):
        c = self.session(m)
        return c if c is not None and c.open and not c.cut else None

    def missing(self, m):
        return self.plan["tags"][m]["name"] == "simpage.Missing"

    def live(self):
        """whether every mount has a live connection"""
        n = [self.missing(m) or self.live_of(m) is not None for m in range(len(self.plan["tags"]))]
        return self if all(n) else None

    stalled = -1.0

    def settle(self):
        end = self.loop.time() + 40
        while self.loop.time() < end:
            self.advance_time(0.25)
            now = self.loop.time()
            if all(c.told is not None for c in self.conns if c.cut and not c.killed) and not self.loading \
                    and now - self.last_active > 0.7 and all(c.stalled < now - 0.7 for c in self.conns if c.open) \
                    and self.live():
                return True
        lost = [m for m in range(len(self.plan["tags"])) if not self.missing(m) and self.live_of(m) is None]
        self.violate("liveness", f"the page is not at rest 40 s after the last fault; without a live session: "
                     f"{[(m, self.plan['tags'][m]['name']) for m in lost]}")
        return False

    def check(self):
        self.count("checks")
        used = {}
        for m, tag in enumerate(self.plan["tags"]):
            shown = plain(self.js(c="shown", m=m))
            if self.missing(m):
                if shown:
                    self.violate("missing", f"the mount of an unregistered component shows {shown}")
                continue
            conn = self.live_of(m)
            if conn.no in used:
                self.violate("mixed", f"mounts {used[conn.no]} and {m} show the same session")
            used[conn.no] = m
            if self.owner.setdefault(conn.no, m) != m:
                self.violate("mixed", f"mount {m} shows the session that the events of mount "
                             f"{self.owner[conn.no]} are sent to")
            if conn.root != tag["name"]:
                self.violate("wrong", f"the mount of {tag['name']} shows {conn.root}")
            name = tag["name"]
            kids = [["p", {"id": "n"}, [f"{name} {conn.n}"]], ["button", {"id": "inc"}, ["+"]],
                    ["ul", {}, [["li", {"data-k": k}, [f"{k}0"]] for k in conn.rows]]]
            if name in self.gadgets:
                kids.append(["span", {}, [f"{name} Gadget {conn.n}"]])
            want = [["div", {"class": "root", "data-session": str(conn.no), "data-root": name}, kids]]
            if self.wild and name in self.gadgets:
                for x in (want, shown):
                    if x and len(x[0][2]) == 4:
                        x[0][2].pop()
            if shown != want:
                self.violate("page", f"mount {m} shows {shown}, expected was {want}"[:700])
            self.shapes.add(repr((m, len(conn.rows), conn.n > 0, len(self.conns))))
        for c in self.conns:
            if c.refused:
                continue
            done = [(h, k) for cc, h, k in self.calls if cc is c]
            if not c.cut and c.root is not None:
                if sorted(done) != sorted(c.ticks) or [k for h, k in done if h == "inc"] != [
                        k for h, k in c.ticks if h == "inc"]:
                    self.violate("events", f"connection {c.no} has sent {c.ticks}, handled were {done}"[:400])
            elif not c.killed and c.cut and c.told is not None and self.loop.time() - c.told > 0.5:
                if c.task is not None and not c.task.done():
                    self.violate("endpoint", f"the endpoint of connection {c.no} is still running")
                if any(c.mounted.values()):
                    self.violate("mounted", f"the session of the lost connection {c.no} is still mounted")
        unsent = [k for k in self.home if k not in self.sent]
        if unsent and not any(self.missing(self.home[k]) for k in unsent):
            self.violate("unsent", f"events {unsent} were never sent")

    def press(self, m):
        self.marks += 1
        self.home[self.marks] = m
        if self.js(c="press", m=m, id="inc", mark=self.marks):
            self.count("clicks")
            return self.marks
        del self.home[self.marks]
        return None

    def probe(self, busy):
        """while others are in trouble, the mounts that are not must answer"""
        now = self.loop.time()
        for m in range(len(self.plan["tags"])):
            if self.missing(m) or m == busy:
                continue
            c = self.live_of(m)
            if c is None or c.stalled > now or c.floods > now - 5 or len(c.ticks) != sum(x is c for x, _, _ in self.calls):
                continue
            if any(k not in self.sent and self.home[k] == m for k in self.home):
                continue
            self.count("probes")
            mark = self.press(m)
            net, slow = c.net, self.plan["slow"][self.plan["tags"][m]["name"]]
            bound = net["up"] + net["down"] + 2 * net["jitter"] + 8 * (net["write"] or 0) + 2 * slow + 0.15
            self.advance_time(bound)
            if c.cut or c.killed:
                return
            if not any(k == mark for x, _, k in self.calls if x is c):
                self.violate("delayed", f"event {mark} of mount {m} was not handled within {bound:.3f} s while "
                             f"mount {busy} was in trouble")
            elif f" {c.n}'" not in str(self.js(c="shown", m=m)):
                self.violate("delayed", f"the update for event {mark} of mount {m} was not shown within "
                             f"{bound:.3f} s while mount {busy} was in trouble")
            return

    def act(self, a):
        do, m = a["do"], a["m"]
        self.active()
        c = self.live_of(m)
        if do == "get":
            path = a["path"].replace("PRE", self.plan["prefix"])
            self.outside.clear()
            status, body = self.fetch_now(path)
            mine = a["path"].startswith("PRE") and a["path"] != "PRE"
            if mine != (not self.outside) or (mine and status != 404):
                self.violate("route", f"GET {path}: {status}, passed to the application: {self.outside}")
        elif do == "restart":
            if self.live() is None:
                return
            self.ev("restart", a["down"])
            self.count("fault_server_restarted")
            self.refuse_until = self.loop.time() + a["down"]
            for x in self.conns:
                if not x.killed and x.task is not None:
                    x.killed = True
                    self.drop(x, "unclean", 0, 0, True)
                    x.task.cancel()
            self.app = self.new_app()
        elif do == "click":
            for _ in range(a["n"]):
                self.press(m)
            self.ev("click", m, a["n"])
        elif c is None:
            return
        elif do == "set":
            def put():
                c.n += 100
                c.set_n(c.n)
            self.in_session(c, put)
        elif do == "rows":
            def put():
                c.rows = a["to"]
                c.set_rows(a["to"])
            self.in_session(c, put)
        elif do == "ping":
            self.marks += 1
            self.home[self.marks] = m
            if self.js(c="ping", m=m, mark=self.marks):
                self.count("pings")
            else:
                del self.home[self.marks]
        elif do == "drop":
            self.refusals[urllib.parse.urlsplit(c.url).path] = a["refuse"]
            self.drop(c, a["kind"], a["client"], a["server"], a["loses"])
        elif do == "stall":
            self.count("fault_stalled_writes")
            c.stalled = max(c.stalled, self.loop.time() + a["for"])
        elif do == "flood":
            self.count("fault_flood")
            c.floods = self.loop.time()
            for _ in range(a["n"]):
                self.press(m)

    def script(self):
        for a in self.plan["acts"]:
            if a["gap"] == "settle":
                if not self.settle():
                    return
                self.check()
            elif a["gap"]:
                self.advance_time(a["gap"])
            if self.bad:
                return
            self.act(a)
            if a["probe"] and a["do"] in ("drop", "stall", "flood"):
                self.probe(a["m"])
            if self.bad:
                return
        if self.settle():
            self.check()
            for m in range(len(self.plan["tags"])):
                if not self.missing(m) and not self.bad:
                    self.press(m)
            if not self.bad and self.settle():
                self.check()

    def run(self):
        plan = self.plan
        boot.seed_run(plan["seed"])
        self.rng = random.Random(plan["seed"])  # noqa: S311
        self.loop = SimLoop(self.rng, 400_000)
        self.js_time = 0.0
        self.scripts, self.maps = [], []
        config.REACTPY_ASYNC_RENDERING.current = plan["async"]
        config.REACTPY_DEBUG.current = False
        config.REACTPY_MAX_QUEUE_SIZE.current = plan["queue"]
        asyncio._set_running_loop(None)
        mods = config.REACTPY_WEB_MODULES_DIR.current
        try:
            self.setup()
            return self.go()
        except BaseException:
            drop_process()
            raise
        finally:
            self.over = True
            for t in asyncio.all_tasks(self.loop):
                t.cancel()
            with contextlib.suppress(Exception):
                self.loop.run_to_idle()
            self.loop.dispose()
            config.REACTPY_MAX_QUEUE_SIZE.current = 1000
            config.REACTPY_PATH_PREFIX.current = "/reactpy/"
            config.REACTPY_WEB_MODULES_DIR.current = mods
            for m in ("simpage", "simpage.sub_mod"):
                sys.modules.pop(m, None)
            shutil.rmtree(self.dir, ignore_errors=True)

    def go(self):
        plan, loop = self.plan, self.loop
        self.app = self.new_app()
        status, text = self.fetch_now("".join(self.place))
        if not self.outside:
            self.violate("route", f"the request for {self.place} did not reach the application")
        elif status != 200:
            self.violate("page", f"the page was answered with {status}")
        else:
            page = Reader(text)
            # without its components the page is what the template says
            bare = Reader(self.bare())
            if plain(page.tops["body"]) != plain(bare.tops["body"]):
                got = plain(page.tops["body"])
                # the elements in the places of the components
                want = plain(bare.tops["body"])
                for x in got:
                    if isinstance(x, list) and x[0] == "div":
                        x[1].pop("id", None)
                if got != want:
                    self.violate("page", f"the body of the page is {got}, expected was {want}"[:600])
            a = call(c="page", seed=plan["seed"], late=plan["late"], head=page.tops["head"],
                     body=page.tops["body"], scripts=[{k: s[k] for k in ("module", "text")} for s in page.scripts],
                     page={"path": self.place[0], "qs": self.place[1], "tls": plan["tls"]})
            self.js_time = loop.time() * 1000
            self.took(a)
            ids = self.js(c="mounts")
            if len(ids) != len(plan["tags"]) or None in ids or len(set(ids)) != len(ids):
                self.violate("mounts", f"{len(plan['tags'])} components, mounted were {ids}")
            self.resources()
            if not self.bad:
                self.script()
        for ctx in loop.errors:
            e = ctx.get("exception")
            if not isinstance(e, Gone):
                self.violate("error", f"{ctx['message']}: {type(e).__name__}: {e}"[:300])
        for c in self.conns:
            t = c.task
            if t is not None and t.done() and not t.cancelled() and t.exception() is not None and not (
                    c.killed or isinstance(t.exception(), Gone)):
                self.violate("endpoint-raised", f"the endpoint of connection {c.no} raised "
                             f"{t.exception()!r}"[:300])
        self.digest = self.hash.hexdigest()
        self.sim_time, self.steps = loop.time(), loop.steps
        return self

    def bare(self):
        import html as h
        out = ["<html><head></head><body>"]
        for i, t in enumerate(self.plan["tags"]):
            out.append(f'{self.plan["text"][i]}<div class="{h.escape(t["class"])}"></div>')
        return "\n".join([*out, self.plan["text"][-1], "</body></html>"])

    def resources(self):
        """what the page refers to is served"""
        urls = set(self.scripts)
        if len(self.maps) != 1:
            self.violate("importmap", f"the page has {len(self.maps)} import maps")
        for kind, text, id_ in self.maps:
            try:
                urls |= set(json.loads(text)["imports"].values())
            except (ValueError, KeyError):
                self.violate("importmap", f"the import map is {text!r}")
            if kind != "importmap" or id_ != "reactpy-importmap":
                self.violate("importmap", f"the import map has the type {kind} and the id {id_}")
        for u in sorted(urls):
            status, text = self.fetch_now(u)
            self.count("resources")
            if status != 200 or text != f"// {os.path.basename(urllib.parse.urlsplit(u).path)}\n":
                self.violate("resource", f"GET {u} was answered with {status} {text[:80]!r}")


def run(plan, want_trace=False):
    return World(plan, want_trace).run()


def judge(prop, plan, w):
    return w.bad


def nontrivial(prop, w):
    s = w.stats
    return len(w.plan["tags"]) > 1 and s.get("checks", 0) >= 2 and s.get("messages", 0) >= 1 and s.get("updates", 0) >= 3
