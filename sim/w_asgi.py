"""The ASGI world: several clients against the real ASGI applications (standalone ReactPy
and ReactPyMiddleware) on one virtual-time loop. Every session runs its own copy of the
reference model of the layout world, so whatever leaks from one session into another shows
up as a divergence of the other one; a scripted ASGI server checks the protocol."""
from __future__ import annotations

import asyncio
import contextvars
import hashlib
import json
import random
import sys
import types
import urllib.parse
import weakref

from . import w_layout as L
from .loop import StepLimit
from .w_layout import Desc, Gen, HarnessError, World, new_loop, profile

from reactpy.core.hooks import use_connection, use_location, use_scope  # noqa: E402
from reactpy.core.component import component  # noqa: E402
from reactpy.executors.asgi.middleware import ReactPyMiddleware  # noqa: E402
from reactpy.executors.asgi.standalone import ReactPy  # noqa: E402

PATHS = ["/", "/a", "/a b/", "/ü/%", "/x&path=y", "/p?q", "/+1"]
QS = ["", "?a=1", "?x=1&y=2", "?q=%20&z=a+b", "?ü=ö", "?a==&&b"]
RETURN_S = 5.0  # virtual seconds from a disconnect to the end of the endpoint

BAD = {
    "notjson": {"type": "websocket.receive", "text": "{nope"},
    "list": {"type": "websocket.receive", "text": "[1, 2]"},
    "string": {"type": "websocket.receive", "text": '"layout-event"'},
    "bytes": {"type": "websocket.receive", "bytes": b"{}", "text": None},
    "notarget": {"type": "websocket.receive",
                 "text": '{"type": "layout-event", "data": []}'},
    "oddtarget": {"type": "websocket.receive",
                  "text": '{"type": "layout-event", "data": [], "target": ["x"]}'},
    "nodata": {"type": "websocket.receive",
               "text": '{"type": "layout-event", "target": %T}'},
    "odddata": {"type": "websocket.receive",
                "text": '{"type": "layout-event", "target": %T, "data": 7}'},
}
# these end, or may end, the session that sent them
FATAL = {"notjson", "list", "string", "bytes", "notarget", "oddtarget"}
UNKNOWN = ('{"type": "ping"}', "{}", '{"type": "layout-update", "path": "", "model": {}}',
           '{"type": null}')

PROFILES = {
    "C15": dict(err=0.25, ctx=0.5, eff=0.4, ops=(3, 14), hasync=0.5, floodw=1.5, maxdefs=4,
                early_end=0.3),
    "C16": dict(eff=0.6, aeff=0.5, hasync=0.7, slowclean=0.5, ops=(2, 14), floodw=2.5,
                evw=8, early_end=0.6, maxdefs=4, smallq=0.6, err=0.2),
}


# --------------------------------------------------------------------------- generation


def gen(rng, prop):
    p = dict(L.BASE)
    p.update(PROFILES[prop])
    g = Gen(rng, p)
    r = rng
    base = g.plan(prop)
    n = r.choice((2, 2, 3, 4)) if prop == "C15" else r.choice((1, 1, 2, 2, 3))
    sessions = []
    for s in range(n):
        bad = None
        if r.random() < (0.5 if prop == "C15" and s else 0.3):
            bad = r.choice(("msg", "msg", "stall", "unregistered", "flood", "vanish"))
        cfg = {
            "send": base["cfg"]["send"] if r.random() < 0.5 else
            [r.choice((0, 0, 1, 2, 5, 15, 40)) for _ in range(r.randrange(1, 4))],
            "syield": r.random() < 0.5, "fastrecv": r.random() < 0.6,
            "c2s": [r.choice((0, 0, 1, 3, 10)) for _ in range(3)],
            "connect": r.choice((None, 0, 0, 1, 5)),
            "accept": r.choice((None, 0, 0, 1, 5, 20)),
        }
        ops = [g.op() for _ in range(r.randrange(*p["ops"]))]
        for _ in range(r.choice((0, 0, 1, 2)) if bad != "msg" else 2):
            o = (["msg", r.choice(sorted(BAD)), r.randrange(10**6)]
                 if bad == "msg" and r.random() < 0.7
                 else ["unknown", r.randrange(len(UNKNOWN))])
            ops.insert(r.randrange(len(ops) + 1), {"w": g.wait(), "o": o})
        if bad == "flood":
            for _ in range(6):
                ops.append({"w": ["t", r.randrange(4)],
                            "o": ["flood", r.randrange(10**6), [0] * 12, False]})
        if bad == "stall":
            ops.insert(r.randrange(len(ops) + 1), {"w": g.wait(), "o": ["stall"]})
        end = {"kind": r.choice(("disconnect",) * 4 + ("cancel", "send", "senddead")),
               "early": bad == "vanish" or r.random() < p["early_end"],
               "w": g.wait(), "post": 0, "late": r.choice((0, 0, 1, 30, 200))}
        if r.random() < 0.06:
            end["kind"] = "accepterr"
        sessions.append({"cfg": cfg, "ops": ops, "end": end, "bad": bad,
                         "start": r.choice((0, 0, 0, 1, 5, 40, 200)),
                         "path": r.choice(PATHS), "qs": r.choice(QS),
                         "root": r.randrange(2)})
    return {"world": "asgi", "prop": prop,
            "cfg": {k: base["cfg"][k] for k in ("async", "debug", "queue", "names")},
            "app": r.choice(("standalone", "middleware")),
            "defs": base["defs"], "sessions": sessions, "loopseed": base["loopseed"]}


# ------------------------------------------------------------------------------ sessions


class Session(World):
    def __init__(self, run, n, spec, want_trace):
        cfg = dict(run.plan["cfg"], drive="serve", **spec["cfg"])
        plan = {"cfg": cfg, "defs": run.plan["defs"], "ops": spec["ops"],
                "end": spec["end"], "prop": run.plan["prop"]}
        super().__init__(plan, want_trace)
        self.asgi = run
        self.n = n
        self.spec = spec
        self.sid = f"s{n}"
        self.tag = f"session{n}"
        self.trace = run.trace
        self.tainted = None
        self.accepted = 0  # 1: sending, 2: accepted
        self.connected = False
        self.gone = None
        self.closed = False
        self.stall_fut = None
        self.dead_sends = False
        self.registered = True
        self.app_exc = None
        self.disc_t = None

    def log(self, *ev):
        super().log(f"s{self.n}", *ev)

    def taint(self, why):
        if self.tainted is None:
            self.tainted = why
            self.count("tainted_" + why)

    @property
    def may_end_early(self):
        return self.tainted is not None or self.spec["end"]["kind"] == "accepterr"

    def V(self, prop, kind, msg):
        if self.tainted and prop not in ("C07", "C16"):
            return
        if self.tainted and kind == "ended-early":
            return
        super().V(prop, kind, f"session {self.n}: {msg}")

    # -- the components see their own connection -----------------------------------
    def enter(self, conn, which):
        if self.asgi.plan["app"] == "middleware" and which != self.spec["root"]:
            self.V("C15", "wrong-root", f"root component {which} was rendered for the "
                   f"path of root component {self.spec['root']}")
        loc = use_location()
        if (loc.path, loc.query_string) != (self.spec["path"], self.spec["qs"]):
            self.V("C15", "wrong-location",
                   f"location is {loc}, the client is at {self.spec['path']!r} "
                   f"{self.spec['qs']!r}")
        if self.root_desc is None:
            self.root_desc = Desc(self.root_def, 1, None, None, 0, (), {}, ())
            self.root_desc.w = weakref.proxy(self)
        return self.comps[self.root_def](self.root_desc)

    root_desc = None

    @property
    def root_def(self):
        return self.spec["root"] % len(self.defs) \
            if self.asgi.plan["app"] == "middleware" else 0

    def render(self, desc):
        sid = use_scope()["sid"]
        if sid != self.sid:
            self.V("C15", "wrong-connection",
                   f"a component of session {self.sid} sees the connection of {sid}")
        return super().render(desc)

    # -- the ASGI server's side -----------------------------------------------------
    def asgi_scope(self):
        if self.asgi.plan["app"] == "standalone":
            path = "/reactpy/"
        elif self.spec["bad"] == "unregistered":
            path = "/reactpy/simroots.C/"
        else:
            path = f"/reactpy/simroots.{'AB'[self.spec['root']]}/"
        q = urllib.parse.urlencode({"path": self.spec["path"], "qs": self.spec["qs"]})
        return {"type": "websocket", "path": path, "query_string": q.encode(),
                "headers": [(b"x-sid", self.sid.encode())], "sid": self.sid,
                "subprotocols": [], "client": ("127.0.0.1", 1000 + self.n),
                "server": ("127.0.0.1", 80), "scheme": "ws", "raw_path": path.encode()}

    async def a_receive(self):
        if not self.connected:
            c = self.cfg["connect"]
            if c is not None:
                await asyncio.sleep(c / 1000)
            self.connected = True
            self.log("connect")
            return {"type": "websocket.connect"}
        if self.gone is not None:
            return {"type": "websocket.disconnect", "code": 1001}
        if self.cfg["fastrecv"] and not self.inbox.empty():
            got = self.inbox.get_nowait()
        else:
            got = await self.inbox.get()
        if got is None:
            self.gone = self.loop._vtime
            self.log("disconnect")
            return {"type": "websocket.disconnect", "code": 1001}
        uid, msg = got
        if uid is None:
            self.log("raw", msg.get("text"))
            return msg
        self.delivered(uid)
        return {"type": "websocket.receive", "text": json.dumps(msg)}

    async def a_send(self, ev):
        t = ev.get("type")
        self.log("asgi-send", t)
        if self.ended:
            self.V("C16", "send-after-return", f"{t} was sent after the endpoint returned")
        if self.gone is not None and (
                self.loop._vtime > self.gone or t in ("websocket.close", "websocket.accept")):
            self.V("C16", "send-after-gone", f"{t} was sent after the client's disconnect")
        if self.closed:
            self.V("C16", "send-after-close", f"{t} was sent after websocket.close")
        if t == "websocket.accept":
            if self.accepted or not self.connected:
                self.V("C16", "accept", "the connection was accepted twice or too early")
            self.accepted = 1
            a = self.cfg["accept"]
            if a is not None:
                await asyncio.sleep(a / 1000)
            if self.spec["end"]["kind"] == "accepterr":
                self.count("fault_accept_error")
                raise OSError("client left during the handshake")
            self.accepted = 2
            return
        if self.accepted != 2:
            self.V("C16", "send-before-accept", f"{t} was sent before the connection was accepted")
        if t == "websocket.close":
            self.closed = True
            if self.tainted is None and not self.ending:
                self.V("C16", "closed", "the endpoint closed a healthy connection")
            return
        if t != "websocket.send" or not isinstance(ev.get("text"), str):
            self.V("C16", "message", f"the endpoint sent {str(ev)[:80]}")
            return
        try:
            u = json.loads(ev["text"])
        except ValueError:
            self.V("C16", "message", f"the endpoint sent {ev['text'][:80]}")
            return
        if not isinstance(u, dict) or u.get("type") != "layout-update":
            self.V("C16", "message", f"the endpoint sent {ev['text'][:80]}")
            return
        if self.sending:
            self.V("C16", "overlapping-send", "an update was sent while another is being sent")
        self.sending = True
        try:
            await self.send(u)
            if self.stall_fut is not None:
                self.count("fault_stalled_send")
                await self.stall_fut
        finally:
            self.sending = False

    sending = False

    def start_session(self):
        self.task = asyncio.get_running_loop().create_task(self.session())
        self.task._sim_tag = self.tag

    async def session(self):
        try:
            await self.asgi.app(self.asgi_scope(), self.a_receive, self.a_send)
        except Exception as e:  # noqa: BLE001
            self.app_exc = e
            self.log("endpoint raised", type(e).__name__)
            if self.tainted is None and self.spec["end"]["kind"] != "accepterr":
                self.V("C16", "endpoint-raised",
                       f"the endpoint raised {type(e).__name__}: {e}")
        finally:
            if self.gone is not None and self.loop._vtime - self.gone > RETURN_S:
                self.V("C16", "slow-return", "the endpoint returned "
                       f"{self.loop._vtime - self.gone:.1f} s after the disconnect")
            if self.may_end_early:
                self.ending = True
            self.serve_done()

    def end_session(self, k):
        late = self.spec["end"].get("late", 0) / 1000
        if k == "cancel":
            self.task.cancel()
        elif k == "disconnect":
            self.inbox.put_nowait(None)
        else:
            if k == "send":
                self.send_fail = True
            elif k == "senddead":
                # the transport neither fails nor completes
                self.stall_fut = self.stall_fut or self.loop.create_future()
            root = self.root
            if root is not None and root.nslots_seen:
                self.do_set(root, 0, ["add", 1])
            for o in range(8):  # events keep arriving on the broken connection
                b = self.bindings()
                if b:
                    x = b[o % len(b)]
                    self.c2s_n += 1
                    self.emit(x[0], x[1], None, x[2])
                    uid = len(self.events) - 1
                    self.inbox.put_nowait((uid, {"type": "layout-event", "target": x[0],
                                                 "data": [{"uid": uid, "payload":
                                                           self.events[uid]["payload"]}]}))
            self.loop.call_later(late, self.inbox.put_nowait, None)

    def do_op(self, o):
        if o[0] == "msg":
            self.count("fault_malformed_" + o[1])
            m = dict(BAD[o[1]])
            b = self.bindings()
            if m.get("text") and "%T" in m["text"]:
                t = b[o[2] % len(b)][0] if b else "nowhere:onClick"
                m["text"] = m["text"].replace("%T", json.dumps(t))
            if o[1] in FATAL:
                self.taint("malformed")
            self.inbox.put_nowait((None, m))
        elif o[0] == "unknown":
            self.count("fault_unknown_message")
            self.inbox.put_nowait((None, {"type": "websocket.receive",
                                          "text": UNKNOWN[o[1]]}))
        elif o[0] == "stall":
            self.taint("stall")
            self.stall_fut = self.stall_fut or self.loop.create_future()
        elif o[0] == "fail":
            self.flags[o[1] % max(1, len(self.flags))] = o[2]
            super().do_op(["fail", *o[1:]])
        else:
            super().do_op(o)

    async def driver(self):
        if self.spec["start"]:
            await asyncio.sleep(self.spec["start"] / 1000)
        if self.spec["bad"] == "unregistered" and self.asgi.plan["app"] == "middleware":
            self.taint("unregistered")
        await super().driver()
        if self.root is not None and self.tainted == "unregistered":
            super().V("C15", "unregistered", "a component was rendered for an "
                      "unregistered path")

    def check_end(self):
        if self.task.cancelled():
            self.ending = True
        super().check_end()


# ----------------------------------------------------------------------------------- run


class AsgiRun:
    def __init__(self, plan, want_trace):
        self.plan = plan
        self.trace = []
        self.want_trace = want_trace

    def run(self):
        plan = self.plan
        loop = self.loop = new_loop(plan["loopseed"], plan["cfg"], 120_000)
        reg = self.reg = {}
        worlds = self.worlds = []
        for n, spec in enumerate(plan["sessions"]):
            w = Session(self, n, spec, self.want_trace)
            reg[w.sid] = weakref.proxy(w)
            worlds.append(w)

        def mk(which):
            def App():
                conn = use_connection()
                w = reg[conn.scope["sid"]]
                if conn.scope["type"] != "websocket" or conn.scope["sid"] != w.sid:
                    raise HarnessError("scope")
                return w.enter(conn, which)

            return component(App)

        roots = [mk(0), mk(1)]
        if plan["app"] == "standalone":
            self.app = ReactPy(roots[0])
        else:
            m = types.ModuleType("simroots")
            m.A, m.B = roots
            sys.modules["simroots"] = m

            async def user(scope, receive, send):
                raise HarnessError("not routed")

            self.app = ReactPyMiddleware(user, ["simroots.A", "simroots.B"])
        drvs = []
        for w in worlds:
            w.setup(loop)
            if w is worlds[0]:
                w.make_components()
            else:  # sessions run the same component functions and contexts
                w.comps, w.ctxs = worlds[0].comps, worlds[0].ctxs
            ctx = contextvars.copy_context()
            ctx.run(loop.task_tag.set, w.tag)
            d = loop.create_task(w.driver(), context=ctx)
            d._sim_tag = "driver"
            drvs.append(d)
        loop.idle_hooks[:] = [self.on_idle]
        self.violations = {}
        try:
            loop.run_to_idle()
        except StepLimit:
            self.violations["C04", "no-quiescence"] = f"not idle after {loop.steps} steps"
        else:
            for d in drvs:
                if not d.done():
                    raise HarnessError("driver did not finish: " + str(d))
                if d.exception():
                    raise d.exception()
        for w in worlds:
            if w.harness_errors:
                raise w.harness_errors[0]
        loop.dispose()
        asyncio.set_event_loop(None)
        self.by_session = [dict(w.violations) for w in worlds]
        self.stats = {}
        self.shapes = set()
        h = hashlib.blake2b(digest_size=12)
        for w in worlds:
            for k, m in w.violations.items():
                self.violations.setdefault(k, m)
            for k, v in w.stats.items():
                self.stats[k] = self.stats.get(k, 0) + v
            self.shapes |= w.shapes
            h.update(w.h.digest())
        self.stats["sessions"] = len(worlds)
        self.digest = h.hexdigest()
        self.sim_time = loop._vtime
        self.steps = loop.steps
        self.trace.sort(key=lambda r: r[0])
        return self

    def on_idle(self):
        got = [w.on_idle() for w in self.worlds]
        return any(got)


def run(plan, want_trace=False):
    return AsgiRun(plan, want_trace).run()


# -------------------------------------------------------------------------------- judging

C16_KINDS = {("C07", k) for k in (
    "ended-early", "never-ends", "effect-running", "effect-not-cleaned", "task-leak",
    "send-after-end", "render-after-end", "effect-after-end", "handler-after-end",
    "effect-outlives-session", "cleanup-after-end", "setter-raised", "task-after-end")} | {
    ("C08", k) for k in ("order", "handled-twice", "lost-event", "overlap", "payload")}


def judge(prop, plan, w):
    bad = [(k, m) for (p, k), m in w.violations.items() if p == prop]
    if ("C04", "no-quiescence") in w.violations:
        bad.append(("no-quiescence", w.violations["C04", "no-quiescence"]))
    if prop == "C16":
        bad += [(k, m) for (p, k), m in w.violations.items() if (p, k) in C16_KINDS]
    if prop == "C15" and not bad and w.violations:
        # does it happen to that session when it is alone, too?
        for n, vs in enumerate(w.by_session):
            vs = {k: m for k, m in vs.items() if k[0] != "C16"}
            if not vs:
                continue
            solo = dict(plan, sessions=[plan["sessions"][n]])
            other = AsgiRun(solo, False).run()
            for k, m in vs.items():
                if k not in other.violations:
                    bad.append((k[1], "not when it is alone: " + m))
    return bad


def nontrivial(prop, w):
    s = w.stats
    if prop == "C15":
        return s["sessions"] >= 2 and s.get("updates", 0) >= 4
    return s.get("updates", 0) >= 1 and s.get("renders", 0) >= 2


def shrink(plan):
    n = len(plan["sessions"])
    for i in range(n):
        if n > 1:
            c = L._copy(plan)
            del c["sessions"][i]
            yield c
    for i, s in enumerate(plan["sessions"]):
        k = len(s["ops"])
        size = k
        while size >= 1:
            for a in range(0, k, size):
                c = L._copy(plan)
                del c["sessions"][i]["ops"][a:a + size]
                yield c
            size //= 2
        for key, v in (("send", [0]), ("c2s", [0]), ("syield", False), ("connect", None),
                       ("accept", None)):
            if s["cfg"][key] != v:
                c = L._copy(plan)
                c["sessions"][i]["cfg"][key] = v
                yield c
        for key, v in (("start", 0), ("path", "/"), ("qs", "")):
            if s[key] != v:
                c = L._copy(plan)
                c["sessions"][i][key] = v
                yield c
    for k, v in (("queue", 1000), ("debug", False), ("async", False)):
        if plan["cfg"][k] != v:
            c = L._copy(plan)
            c["cfg"][k] = v
            yield c
    for path in L._lists(plan["defs"]):
        c = L._copy(plan)
        o = c["defs"]
        for x in path[:-1]:
            o = o[x]
        if path[-1] == "fail" and ("tree" in o or "deps" in o):
            o["fail"] = None
        elif path[-1] == "prop" and o.get("t") == "comp":
            continue
        else:
            del o[path[-1]]
        yield c
