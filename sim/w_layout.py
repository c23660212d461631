"""The layout world: generated component programs run by the real Layout / serve_layout
on the virtual-time loop; a scripted client; an independent reference model that is driven
by what actually rendered; oracles for C01-C14.

Only public API of reactpy is used: component, html, hooks, event, Layout as an async
context manager with render()/deliver(), serve_layout, config options.
"""
from __future__ import annotations

import asyncio
import collections
import hashlib
import json
import random
import weakref

from . import boot
from .loop import SimLoop, StepLimit

boot.install()

from anyio import CancelScope  # noqa: E402
from reactpy import (  # noqa: E402
    component,
    config,
    create_context,
    html,
    use_async_effect,
    use_callback,
    use_context,
    use_effect,
    use_memo,
    use_reducer,
    use_ref,
    use_state,
)
from reactpy.core.events import EventHandler, to_event_handler_function  # noqa: E402
from reactpy.core.events import event as rp_event  # noqa: E402
from reactpy.core.layout import Layout  # noqa: E402
from reactpy.core.serve import serve_layout  # noqa: E402

NCTX = 3
INPUTS = ("input", "select", "textarea")
CTX_DEFAULT = [900, 901, 902]
STALE_WINDOW = 0.35  # s of virtual time in which a replaced handler may still be seen
GRACE_MUST = 0.020
GRACE_MAX = 0.100
DELAY = 0.150  # s: an event that nothing of its own element holds up

class Vec:
    """A value like an array: `==` compares item by item, and has no truth of its own"""

    def __init__(self, *items):
        self.items = items

    def __eq__(self, other):
        return Vec(*[a == b for a, b in zip(self.items, other.items)])

    __hash__ = None

    def __bool__(self):
        raise ValueError("the truth of several items is ambiguous")

    def __repr__(self):
        return f"Vec{self.items}"


# values that are easily confused by an equality test; index -> fresh object
POOL = [
    lambda: 0,
    lambda: False,
    lambda: 0.0,
    lambda: "0",
    lambda: 1,
    lambda: True,
    lambda: 1.0,
    lambda: None,
    lambda: "",
    lambda: b"0",
    lambda: [0],
    lambda: (0,),
    lambda: [1],
    lambda: Vec(0),
]


def eq(a, b):
    try:
        return type(a) is type(b) and bool(a == b)
    except ValueError:
        return a is b


def num(v):
    return v if type(v) is int else len(repr(v)) * 7 + 3


# --------------------------------------------------------------------------- generation

BASE = dict(
    asynchronous=0.75,
    debug=0.25,
    direct=0.3,
    ctx=0.35,
    memo=0.3,
    eff=0.35,
    aeff=0.2,
    err=0.12,
    dup=0.05,
    lists=0.45,
    ifs=0.45,
    inputs=0.2,
    hasync=0.4,
    slowclean=0.25,
    smallq=0.25,
    sendlat=0.6,
    ops=(4, 22),
    evw=5,
    setw=5,
    burstw=2,
    stalew=1,
    zsetw=0.5,
    idlew=1.5,
    failw=0.7,
    floodw=0.4,
    early_end=0.15,
    hraise=0.1,
    efffail=0.0,
    cleanfail=0.0,
    pool=0.1,
    reducer=0.2,
    seqs=0.0,
    maxdefs=5,
    efset=0.25,
    dupev=0.05,
    nested_handlers=0.0,
    twohandlers=0.1,
    weirdkeys=0.06,
    turns=0.25,
)

PROFILES = {
    "C01": dict(sendlat=0.8, slowclean=0.4, ops=(6, 26)),
    "C02": dict(lists=0.8, ifs=0.7, ops=(6, 24), weirdkeys=0.1),
    "C03": dict(burstw=4, pool=0.25, reducer=0.4, efset=0.5, hasync=0.6),
    "C04": dict(burstw=4, pool=0.3, zsetw=2, slowclean=0.4, lists=0.6),
    "C05": dict(eff=0.85, efffail=0.12, cleanfail=0.12, aeff=0.1, err=0.2),
    "C06": dict(aeff=0.9, eff=0.1, efffail=0.12, cleanfail=0.05, ops=(6, 26)),
    "C07": dict(eff=0.6, aeff=0.5, early_end=0.9, slowclean=0.6, hasync=0.8, err=0.15),
    "C08": dict(floodw=6, evw=12, hasync=0.8, hraise=0.25, smallq=0.5, setw=3, twohandlers=0.3,
                ops=(8, 34)),
    "C09": dict(evw=6, stalew=7, ifs=0.8, hasync=0.4, dupev=0.15, ops=(8, 30)),
    "C10": dict(floodw=2, inputs=0.9, seqs=1.0, evw=10, hasync=0.7, ifs=0.6, stalew=2,
                twohandlers=0.5, ops=(8, 30)),
    "C11": dict(ctx=0.95, ifs=0.6, lists=0.5, ops=(6, 24)),
    "C12": dict(err=0.8, dup=0.3, failw=6, eff=0.5, aeff=0.2, ops=(6, 24)),
    "C13": dict(memo=0.95, err=0.3, failw=3, ops=(6, 22)),
    "C14": dict(),
}


def profile(prop):
    p = dict(BASE)
    p.update(PROFILES.get(prop, {}))
    return p


class Gen:
    def __init__(self, rng, p):
        self.r = rng
        self.p = p
        self.elid = 0
        self.flags = 0

    def chance(self, k):
        return self.r.random() < self.p[k]

    def expr(self, d, depth=0):
        r = self.r
        opts = []
        if d["slots"]:
            opts += [["s", r.randrange(len(d["slots"]))]] * 3
        opts.append(["p"])
        if d["ctx"]:
            opts += [["c", r.choice(d["ctx"])]] * 2
        opts.append(["k", r.randrange(4)])
        e = r.choice(opts)
        if depth < 1 and r.random() < 0.3:
            return ["+", e, self.expr(d, 1)]
        return e

    def sexpr(self, d):
        return ["s", self.r.randrange(len(d["slots"]))] if d["slots"] else ["p"]

    def cond(self, d):
        m = self.r.choice((2, 2, 3))
        return [self.sexpr(d) if self.r.random() < 0.8 else self.expr(d), m,
                self.r.randrange(m)]

    def action(self, d, in_async):
        r = self.r
        k = r.random()
        if in_async and k < 0.35:
            return ["sleep", r.choice((0, 1, 1, 3, 5, 8, 12, 20, 35))]
        if in_async and k < 0.45:
            return ["yield", r.randrange(1, 5)]
        if in_async and k < 0.475:
            return r.choice((["cancelled"], ["stubborn", r.choice((1, 5, 15))],
                             ["forever"]))
        if k < 0.55 and self.chance("hraise"):
            return ["raise"]
        if k < 0.65:
            return ["up", ["add", 1 + r.randrange(3)]]
        if d["slots"]:
            return ["set", r.randrange(len(d["slots"])), self.setop()]
        return ["up", ["add", 1]]

    def setop(self):
        r = self.r
        if self.chance("pool"):
            return ["pool", r.randrange(len(POOL))]
        k = r.random()
        if k < 0.55:
            return ["add", 1 + r.randrange(3)]
        if k < 0.75:
            return ["to", r.randrange(5)]
        if k < 0.85:
            return ["fsame"]
        if k < 0.92:
            return ["mul", 2]
        return ["same"]

    def handler(self, d):
        r = self.r
        is_async = self.chance("hasync")
        acts = [self.action(d, is_async) for _ in range(r.choice((1, 1, 2, 3)))]
        h = {"async": is_async, "acts": acts}
        if r.random() < 0.15:
            h["deco"] = [r.random() < 0.5, r.random() < 0.5]
            if r.random() < 0.3:
                h["throttle"] = r.choice((10, 50))
        elif r.random() < 0.06:
            h["target"] = 1
        return h

    def key(self):
        r = self.r
        if r.random() < self.p["weirdkeys"]:
            return r.choice(("a/b", "0", 1, "a:onClick", "", "~", "ключ"))
        return r.choice("abcdef")

    def el(self, d, i, depth, void=False):
        r = self.r
        self.elid += 1
        inp = self.chance("inputs") or void
        tag = r.choice(("input", "select", "textarea")) if inp else r.choice(
            ("div", "div", "span", "button", "p"))
        n = {"t": "el", "tag": tag, "id": self.elid, "attrs": {}, "on": {}, "ch": []}
        if r.random() < 0.6:
            n["attrs"]["data-x"] = self.expr(d)
        if tag in ("input", "textarea") and r.random() < 0.6:
            n["attrs"]["value"] = ["str", self.expr(d)]
        if r.random() < (0.9 if inp else 0.5):
            n["on"][r.choice(("onClick", "onClick", "onChange"))] = self.handler(d)
            if self.chance("twohandlers"):
                n["on"]["onInput"] = self.handler(d)
        if n["on"] and r.random() < 0.2:
            n["onif"] = self.cond(d)
        if not inp:
            n["ch"] = self.children(d, i, depth)
        if r.random() < 0.15:
            n["reuse"] = 1
        return n

    def turn(self, d, i, depth):
        """elements that become other elements at the same key"""
        r = self.r
        a, b = self.el(d, i, 3), self.el(d, i, 3)
        if a["on"] and r.random() < 0.6:
            b["on"] = {k: self.handler(d) for k in a["on"]}
        key = self.key()
        if r.random() < 0.7:
            a["key"] = b["key"] = key
        return {"t": "if", "c": self.cond(d), "a": a, "b": b}

    def children(self, d, i, depth):
        r = self.r
        k = r.choice((0, 1, 1, 2, 2, 3)) if depth < 3 else r.choice((0, 1))
        return [self.node(d, i, depth + 1) for _ in range(k)]

    def comp(self, d, i):
        return {"t": "comp", "def": self.r.randrange(i + 1, self.n),
                "prop": self.expr(d)}

    def node(self, d, i, depth):
        r = self.r
        k = r.random()
        if i + 1 < self.n and k < 0.38:
            n = self.comp(d, i)
        elif k < 0.48:
            return {"t": "txt", "e": ["r", self.sexpr(d)] if r.random() < 0.7
                    else self.expr(d)}
        elif k < 0.60 and self.chance("ifs"):
            a = self.node(d, i, depth + 1) if depth < 4 else {"t": "txt", "e": ["k", 1]}
            b = None if r.random() < 0.6 or depth >= 4 else self.node(d, i, depth + 1)
            if b is None and r.random() < self.p["turns"]:
                return self.turn(d, i, depth)
            return {"t": "if", "c": self.cond(d), "a": a, "b": b}
        elif k < 0.75 and self.chance("lists") and d["slots"]:
            keys = list("abcdef")[: r.randrange(2, 6)]
            orders = []
            for _ in range(r.randrange(2, 5)):
                o = [x for x in keys if r.random() < 0.75]
                r.shuffle(o)
                orders.append(o)
            if self.chance("dup"):
                o = r.choice(orders)
                if o:
                    o.append(r.choice(o))
            kinds = {}
            for x in keys:
                if i + 1 < self.n and r.random() < 0.7:
                    kinds[x] = self.comp(d, i)
                else:
                    kinds[x] = self.el(d, i, 3)
            n = {"t": "list", "s": r.randrange(len(d["slots"])), "orders": orders,
                 "kinds": kinds}
            self.elid += 1
            return {"t": "el", "tag": "ul", "id": self.elid, "attrs": {}, "on": {},
                    "ch": [n]}
        elif k < 0.85 and self.chance("ctx"):
            n = {"t": "ctx", "c": r.randrange(NCTX), "val": self.expr(d),
                 "ch": [self.node(d, i, depth + 1)
                        for _ in range(r.choice((1, 1, 2)))] if depth < 4 else []}
            if i + 1 < self.n and r.random() < 0.7:
                n["ch"].append(self.comp(d, i))
        else:
            n = self.el(d, i, depth)
        if r.random() < 0.15:
            n["key"] = self.key()
        return n

    def gdef(self, i):
        r, p = self.r, self.p
        d = {"slots": [], "ctx": [], "memo": [], "eff": [], "fail": None}
        for _ in range(r.choice((1, 1, 1, 2, 2, 3))):
            s = {"init": r.randrange(4),
                 "kind": "reducer" if self.chance("reducer") else "state"}
            if r.random() < 0.2:
                s["lazy"] = 1
            if r.random() < 0.2:
                s["prop"] = 1
            d["slots"].append(s)
        if self.chance("ctx"):
            d["ctx"] = sorted({r.randrange(NCTX) for _ in range(r.choice((1, 1, 2)))})
        for _ in range(2):
            if self.chance("memo"):
                d["memo"].append({
                    "kind": r.choice(("memo", "memo", "memo", "callback", "infer", "cbinfer")),
                    "deps": self.deps(d),
                    "fail": self.cond(d) if self.chance("err") and r.random() < .5
                    else None})
                if r.random() < 0.15:
                    d["memo"][-1]["same"] = 1
        for kind in ("eff", "aeff"):
            for _ in range(2):
                if self.chance(kind):
                    d["eff"].append(self.effect(d, kind))
        if self.chance("err"):
            where = r.choice((0, 1, 2, 3))
            if r.random() < 0.5:
                self.flags += 1
                d["fail"] = {"where": where, "flag": self.flags - 1,
                             "init": r.random() < 0.3}
            else:
                d["fail"] = {"where": where, "c": self.cond(d)}
            if r.random() < 0.2:
                d["fail"]["kind"] = r.choice(("cancel", "str"))
            if r.random() < 0.1:
                d["badrepr"] = 1
        d["tree"] = self.node(d, i, 1 if r.random() < 0.15 else 0)
        if d["tree"]["t"] == "txt" and r.random() < 0.8:
            d["tree"] = self.el(d, i, 0)
        if i == 0 and d["tree"]["t"] != "el":
            self.elid += 1
            d["tree"] = {"t": "el", "tag": "main", "id": self.elid, "attrs": {},
                         "on": {"onClick": self.handler(d)}, "ch": [d["tree"]]}
        return d

    def deps(self, d):
        r = self.r
        k = r.random()
        if k < 0.15:
            return None
        if k < 0.25:
            return []
        deps = [self.expr(d) for _ in range(r.choice((1, 1, 2)))]
        if r.random() < 0.2:
            deps.append(["opt", self.cond(d), self.expr(d)])
        return deps

    def effect(self, d, kind):
        r = self.r
        e = {"deps": self.deps(d), "cleanup": r.random() < 0.85, "acts": []}
        if self.chance("efset") and d["slots"]:
            e["acts"].append(["set", r.randrange(len(d["slots"])), ["max", r.randrange(6)]])
        if self.chance("efffail"):
            e["fail"] = r.randrange(1, 4)  # fails on the n-th run
        if e["cleanup"] and self.chance("cleanfail"):
            e["cfail"] = r.randrange(1, 3)
        if kind == "eff":
            e["kind"] = "sync"
        else:
            e["kind"] = r.choice(("async", "async", "shield"))
            e["dur"] = r.choice((0, 0, 1, 4, 9, 20, 45))
            e["yields"] = r.randrange(3)
            if self.chance("slowclean"):
                e["swallow"] = r.choice((0, 1, 5, 15))  # keeps running after a cancel
            if e["kind"] == "async" and r.random() < 0.08:
                e["forever"] = 1
            if r.random() < 0.1:
                e["failcancel"] = 1  # raises instead of CancelledError
            if self.chance("efset") and d["slots"]:
                e["post"] = [["set", r.randrange(len(d["slots"])),
                              ["max", r.randrange(6)]]]
        if r.random() < 0.1:
            e["same"] = 1
        elif r.random() < 0.15:
            e["infer"] = 1
        if ("fail" in e or "cfail" in e) and r.random() < 0.2:
            e["fkind"] = r.choice(("cancel", "str"))
        return e

    def wait(self):
        r = self.r
        k = r.random() * (10 + self.p["idlew"])
        if k < 4.5:
            return ["s", r.choice((0, 0, 1, 1, 2, 3, 4, 5, 6, 8, 10, 14, 20))]
        if k < 10:
            return ["t", r.choice((0, 1, 1, 2, 3, 5, 8, 10, 10, 11, 20, 25, 30, 33, 60))]
        return ["i"]

    def op(self):
        r, p = self.r, self.p
        k = r.choices(
            ("ev", "set", "burst", "stale", "zset", "fail", "bogus", "flood"),
            (p["evw"], p["setw"], p["burstw"], p["stalew"], p["zsetw"],
             p["failw"] if self.flags else 0, 0.2, p["floodw"]),
        )[0]
        w = self.wait()
        R = lambda: r.randrange(10**6)  # noqa: E731
        if k == "ev":
            o = ["ev", R(), self.seq()]
            if self.chance("dupev"):
                o.append(r.randrange(2, 4))
        elif k == "set":
            o = ["set", R(), R(), self.setop()]
        elif k == "burst":
            one = r.random() < 0.6
            x, y = R(), R()
            o = ["burst", [[x if one else R(), y if one else R(), self.setop()]
                           for _ in range(r.randrange(2, 6))]]
        elif k == "stale":
            o = ["stale", R(), self.seq()]
        elif k == "zset":
            o = ["zset", R(), R(), self.setop()]
        elif k == "flood":
            o = ["flood", R(), [r.choice((0, 0, 1, 1, 2, 5, 8))
                                for _ in range(r.randrange(3, 12))], r.random() < 0.3]
        elif k == "fail":
            o = ["fail", r.randrange(self.flags), r.random() < 0.6, R(),
                 r.random() < 0.7]
        else:
            o = ["bogus", self.seq()]
        return {"w": w, "o": o}

    def seq(self):
        if not self.chance("seqs"):
            return None
        r = self.r
        k = r.random()
        if k < 0.7:
            return ["next"]
        if k < 0.8:
            return ["back", r.randrange(1, 4)]
        if k < 0.9:
            return ["skip", r.randrange(1, 4)]
        return ["raw", r.choice((-1, -5, "3", 2.5, None))]

    def plan(self, prop):
        r, p = self.r, self.p
        self.n = r.randrange(2, p["maxdefs"] + 1)
        cfg = {
            "async": self.chance("asynchronous"),
            "debug": self.chance("debug"),
            "drive": "direct" if self.chance("direct") else "serve",
            "queue": r.choice((1, 2, 3)) if self.chance("smallq") else 1000,
            "send": [r.choice((0, 0, 1, 2, 5, 15, 40)) for _ in range(r.randrange(1, 5))]
            if self.chance("sendlat") else [0],
            "syield": r.random() < 0.5,
            "fastrecv": r.random() < 0.6,
            "c2s": [r.choice((0, 0, 1, 3, 10)) for _ in range(3)],
            "names": r.choice((0, 1, 2)),
            "scope": r.random() < 0.25,
        }
        defs = [self.gdef(i) for i in range(self.n)]
        ops = [self.op() for _ in range(r.randrange(*p["ops"]))]
        end = {"kind": r.choice(("cancel", "cancel", "recv", "send", "exit")),
               "early": self.chance("early_end"), "w": self.wait(),
               "post": r.randrange(3)}
        return {"world": "layout", "prop": prop, "cfg": cfg, "defs": defs, "ops": ops,
                "end": end, "loopseed": r.randrange(1 << 30)}


def gen(rng, prop):
    if prop == "C14":
        from .w_layout_leak import gen_leak

        return gen_leak(rng)
    if prop == "C07" and rng.random() < 0.02:
        from .w_layout_leak import gen_leak

        return gen_leak(rng, True)
    return Gen(rng, profile(prop)).plan(prop)


# --------------------------------------------------------------------------- reference


class Desc:
    """one appearance of a component in its parent's output"""

    __slots__ = ("defi", "prop", "up", "parent", "prno", "pos", "env", "inst",
                 "rendered", "passid", "scopes", "failing", "w", "badrepr",
                 "__weakref__")

    def __init__(self, defi, prop, up, parent, prno, pos, env, scopes):
        self.defi, self.prop, self.up, self.parent = defi, prop, up, parent
        self.prno, self.pos, self.env, self.scopes = prno, pos, env, scopes
        self.inst = self.passid = None
        self.rendered = self.failing = False
        self.w = None  # the session's world, if components are shared by several
        self.badrepr = False

    def __repr__(self):
        if self.badrepr:
            raise Boom("this has no representation")
        return f"<{self.defi}>"


class Inst:
    def __init__(self, world, desc):
        self.w = world
        self.id = len(world.insts)
        self.defi = desc.defi
        self.d = world.defs[desc.defi]
        self.desc = desc
        self.vals = None
        self.setters = [None] * len(self.d["slots"])
        self.last_vals = None
        self.rno = 0
        self.kids = {}
        self.kids_list = []
        self.death_time = None
        self.killed_by = None
        self.last_r_step = 0
        self.infer_cb = {}
        self.infer_now = None
        self.out = None
        self.out_err = None
        self.dead = None
        self.env = {}
        self.bound = {}
        self.els = {}
        self.last_r_time = 0.0
        self.memo = {}
        self.deplists = {}
        self.attrs_of = {}
        self.eff = [EffState() for _ in self.d["eff"]]
        self.self_renders = 0
        self.bursts = 0
        self.burst_step = None
        self.failed_last = False
        self.nslots_seen = 0
        self.frozen = False
        world.insts.append(self)


class EffState:
    def __init__(self):
        self.deps = None
        self.has_deps = False
        self.expected = []  # render numbers whose run has not started yet
        self.runs = []
        self.nruns = 0


class Run:
    __slots__ = ("no", "started", "ended", "cleanable", "cleanups", "cancelled", "failed",
                 "superseded", "rno")

    def __init__(self, no, rno):
        self.no = no
        self.rno = rno
        self.started = True
        self.ended = False
        self.cleanable = False
        self.cleanups = 0
        self.cancelled = False
        self.failed = False
        self.superseded = False


class Boom(Exception):
    pass


class BoomStr(Boom):
    """an error that cannot even be printed"""

    def __str__(self):
        raise Boom("this has no message")


class BoomCancel(asyncio.CancelledError):
    """e.g. the result of a task that was cancelled"""


class HarnessError(Exception):
    pass


class World:
    def __init__(self, plan, want_trace=False):
        self.plan = plan
        self.cfg = plan["cfg"]
        self.defs = plan["defs"]
        self.want_trace = want_trace
        self.trace = []
        self.h = hashlib.blake2b(digest_size=12)
        self.violations = {}
        self.insts = []
        self.root = None
        self.replica = {"tagName": ""}
        self.flags = {}
        for d in self.defs:
            f = d.get("fail")
            if f and "flag" in f:
                self.flags[f["flag"]] = f["init"]
        self.ended = False
        self.ending = False
        self.stats = {}
        self.passno = 0
        self.idle_fut = None
        self.events = []  # delivered events
        self.by_target = {}
        self.sendno = 0
        self.sends = 0
        self.shapes = set()
        self.ever_targets = {}  # target -> (inst, elid, ev)
        self.seqs = {}
        self.bind_hist = {}  # (inst id, elid, ev) -> list of [t_on, t_off]
        self.in_op = None
        self.pass_desc = None
        self.harness_errors = []
        self.shown_r = {}  # instance -> [(time, render no)] sent to the client
        self.unbound_by = {}  # handler -> render no that removed it
        self.scope = None
        self.mount_t = {}  # element -> step at which it was mounted
        self.mounted_at = {}  # (inst id, elid, render no) -> step
        self.elkeys = {}  # (inst id, elid) -> element

    # ---- bookkeeping ------------------------------------------------------
    def log(self, *ev):
        rec = (self.loop.steps, round(self.loop._vtime * 1000, 3), *ev)
        self.h.update(repr(rec).encode())
        if self.want_trace:
            self.trace.append(rec)

    def V(self, prop, kind, msg):
        key = (prop, kind)
        if key not in self.violations:
            self.violations[key] = msg
            self.log("VIOLATION", prop, kind, msg)

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    # ---- expression evaluation ---------------------------------------------
    def ev(self, e, inst, ctx):
        k = e[0]
        if k == "s":
            return num(inst.vals[e[1]]) if e[1] < inst.nslots_seen else 0
        if k == "p":
            return inst.desc.prop
        if k == "c":
            return ctx.get(e[1], 0)
        if k == "k":
            return e[1]
        if k == "+":
            return (self.ev(e[1], inst, ctx) + self.ev(e[2], inst, ctx)) % 97
        if k == "r":
            if e[1][0] == "s":
                return repr(inst.vals[e[1][1]])
            return repr(self.ev(e[1], inst, ctx))
        if k == "str":
            return str(self.ev(e[1], inst, ctx))
        raise HarnessError(e)

    def cd(self, c, inst, ctx):
        return self.ev(c[0], inst, ctx) % c[1] == c[2]

    # ---- state -------------------------------------------------------------
    def do_set(self, inst, slot, op, data=None):
        """call the real setter and fold the same operation into the mirror"""
        if slot >= inst.nslots_seen or inst.setters[slot] is None:
            return
        cur = inst.vals[slot]
        calls = []
        k = op[0]
        if k in ("add", "fsame", "mul", "max"):
            def f(old):
                calls.append(old)
                o = num(old)
                return (
                    (o + op[1]) % 60 if k == "add"
                    else old if k == "fsame"
                    else (o * op[1]) % 61 if k == "mul"
                    else max(o, op[1])
                )
            new = f(cur)
            calls.clear()
            arg = f
        elif k == "to":
            new = arg = op[1]
        elif k == "pool":
            new = arg = POOL[op[1]]()
        elif k == "same":
            new = arg = cur
        elif k == "data":
            new = arg = data
        else:
            raise HarnessError(op)
        effective = not eq(new, cur)
        inst.vals[slot] = new
        if effective:
            if inst.burst_step != (self.loop.steps, inst.rno):
                inst.burst_step = (self.loop.steps, inst.rno)
                inst.bursts += 1
            self.count("sets")
        else:
            self.count("equal_sets")
        self.log("set", inst.id, slot, op, repr(new))
        try:
            if inst.d["slots"][slot]["kind"] == "reducer":
                inst.setters[slot](("fold", arg))
            else:
                inst.setters[slot](arg)
        except Exception as e:  # noqa: BLE001
            p = "C07" if self.ended else "C03"
            self.V(p, "setter-raised", f"state setter raised {type(e).__name__}: {e}")
        if callable(arg):
            if len(calls) != 1:
                self.V("C03", "updater-calls",
                       f"updater function called {len(calls)} times for one set call")
            elif not eq(calls[0], cur) and not inst.frozen:
                self.V("C03", "updater-arg",
                       f"updater of instance {inst.id} slot {slot} received "
                       f"{calls[0]!r}, latest value is {cur!r}")

    @staticmethod
    def reducer(state, action):
        arg = action[1]
        return arg(state) if callable(arg) else arg

    # ---- the generic component ----------------------------------------------
    def make_components(self):
        self.comps = []
        for i in range(len(self.defs)):
            self.comps.append(self._mk(i))
        self.ctxs = [create_context(CTX_DEFAULT[i]) for i in range(NCTX)]

    def _mk(self, i):
        world = weakref.proxy(self)

        def C(desc):
            return (desc.w or world).render(desc)

        # components are told apart by their function, not by its name
        k = self.cfg.get("names", 0)
        C.__name__ = C.__qualname__ = f"C{i % k if k else i}"
        return component(C)

    @staticmethod
    def in_failing(desc):
        """below a duplicate-key error: rendered, but about to be discarded"""
        while desc.parent is not None:
            if desc.parent.rno != desc.prno:
                return False
            if desc.failing:
                return True
            desc = desc.parent.desc
        return False

    def find_kid(self, desc):
        """which live instance the reference expects at this appearance"""
        if desc.parent is None:
            return self.root
        return desc.inst

    def render(self, desc):
        self.count("renders")
        loop = self.loop
        ref = use_ref(None)
        inst = ref.current
        fresh = inst is None
        if fresh:
            inst = ref.current = Inst(self, desc)
        elif inst.setters and inst.nslots_seen and inst.refobj is not ref:
            self.V("C13", "ref-identity", f"use_ref object of instance {inst.id} changed")
        inst.refobj = ref
        parent = desc.parent
        # --- is this a legitimate render? ---
        current = True
        if self.ended:
            self.V("C07", "render-after-end", f"instance {inst.id} rendered after the session ended")
        if parent is not None:
            failing = self.in_failing(desc)
            if parent.rno != desc.prno:
                current = False
                self.V("C04", "stale-render",
                       f"instance {inst.id} (component {inst.defi}) rendered with the "
                       f"appearance of render {desc.prno} of its parent {parent.id}, "
                       f"which since rendered {parent.rno}")
            elif not failing and self.is_dead(parent):
                current = False
                self.V("C04", "zombie-render",
                       f"instance {inst.id} rendered although its parent {parent.id} "
                       "was unmounted")
        else:
            failing = False
        if inst.dead is not None and not failing and current:
            self.V("C04", "zombie-render",
                   f"instance {inst.id} rendered after it was unmounted")
        # --- identity (C02) ---
        if current:
            exp = self.find_kid(desc)
            if exp is not None and exp is not inst and not (failing):
                self.V("C02", "state-lost" if fresh else "state-swapped",
                       f"component {desc.defi} at {desc.pos} under instance "
                       f"{parent.id if parent else None}: expected instance {exp.id} to "
                       f"be kept, got {'a fresh one' if fresh else inst.id}")
            if exp is None and not fresh and not failing:
                self.V("C02", "state-kept",
                       f"component {desc.defi} at {desc.pos} under instance "
                       f"{parent.id if parent else None}: expected fresh state, got "
                       f"instance {inst.id}")
        self_render = (not fresh) and inst.desc is desc and desc.rendered
        if self_render:
            inst.self_renders += 1
            self.count("self_renders")
            if inst.self_renders > inst.bursts:
                self.V("C04", "spurious-render",
                       f"instance {inst.id} re-rendered by itself {inst.self_renders} "
                       f"times but its state changed in only {inst.bursts} steps")
            self.passno += 1
            desc.passid = self.passno
        elif parent is None:
            self.passno += 1
            desc.passid = self.passno
        else:
            desc.passid = parent.desc.passid
        old_desc = inst.desc
        inst.desc = desc
        desc.inst = inst
        desc.rendered = True
        if parent is None:
            self.root = inst
        inst.rno += 1
        inst.last_r_time = loop._vtime
        inst.last_r_step = loop.steps
        inst.env = desc.env
        if failing:
            self.kill(inst)
        elif current and parent is not None and desc.pos in parent.kids:
            parent.kids[desc.pos] = (desc.defi, inst)
        self.log("R", inst.id, inst.defi, inst.rno, "self" if self_render else "")
        try:
            out = self.hooks_and_output(inst, desc)
        except (Boom, BoomCancel) as e:
            self.count("render_errors")
            if type(e) is not Boom:
                self.count("render_errors_" + type(e).__name__)
            inst.out_err = "BoomStr" if type(e) is BoomStr else f"{type(e).__name__}: {e}"
            self.adopt(inst, None, {})
            self.bind(inst, {})
            raise
        except HarnessError:
            raise
        except Exception as e:
            for p in ("C12", self.hook):
                self.V(p, "hook-failed",
                       f"a hook of instance {inst.id} raised {type(e).__name__}: {e}")
            inst.out_err = f"{type(e).__name__}: {e}"
            self.adopt(inst, None, {})
            self.bind(inst, {})
            raise
        return out

    def kill(self, inst):
        if inst.dead is None:
            inst.dead = self.loop.steps
            inst.death_time = self.loop._vtime
            p = inst.desc.parent
            inst.killed_by = (p, p.rno) if p is not None else None
            self.count("unmounts")

    def bind(self, inst, bound, els=None):
        now = self.loop._vtime
        for b in bound:
            if b not in inst.bound:
                self.bind_hist.setdefault(b, []).append([now, None, inst.rno, None])
        for b in inst.bound:
            if b not in bound:
                self.bind_hist[b][-1][1] = now
                self.unbound_by[b] = inst.rno
        inst.bound = bound
        els = els or {}
        for k, elid in els.items():
            if k not in inst.els:
                self.mount_t[k] = self.loop.steps
            self.mounted_at[inst.id, elid, inst.rno] = self.mount_t[k]
        inst.els = els

    def is_dead(self, inst):
        while inst is not None:
            if inst.dead is not None:
                return True
            inst = inst.desc.parent
        return False

    def hooks_and_output(self, inst, desc):
        d = inst.d
        if inst.vals is None:
            inst.vals = []
        fail = d.get("fail")

        def boom(where):
            if fail and fail["where"] == where:
                on = (self.flags[fail["flag"]] if "flag" in fail
                      else self.cd(fail["c"], inst, {}))
                if on:
                    raise {None: Boom, "str": BoomStr, "cancel": BoomCancel}[
                        fail.get("kind")](f"boom in {inst.defi}")

        boom(0)
        self.hook = "C03"
        for i, s in enumerate(d["slots"]):
            init = s["init"]
            first = i >= inst.nslots_seen
            if s.get("prop"):
                init = desc.prop
            arg = (lambda v=init: v) if s.get("lazy") else init
            if s["kind"] == "reducer":
                val, setter = use_reducer(self.reducer, init)
            else:
                val, setter = use_state(arg)
            if first:
                inst.nslots_seen = i + 1
                inst.vals.append(init)
                if not eq(val, init):
                    self.V("C02", "initial-state",
                           f"fresh instance {inst.id} slot {i} starts with {val!r} "
                           f"instead of {init!r}")
                inst.vals[i] = val
            else:
                if not eq(val, inst.vals[i]):
                    self.V("C03", "stale-value",
                           f"instance {inst.id} slot {i} rendered with {val!r}, the "
                           f"folded value is {inst.vals[i]!r}")
                    inst.vals[i] = val
                if inst.setters[i] is not setter:
                    self.V("C13", "setter-identity",
                           f"setter of instance {inst.id} slot {i} changed identity")
            inst.setters[i] = setter
        boom(1)
        ctx = {}
        self.hook = "C11"
        for c in d["ctx"]:
            got = use_context(self.ctxs[c])
            want = desc.env.get(c, CTX_DEFAULT[c])
            if not eq(got, want):
                self.V("C11", "wrong-context",
                       f"instance {inst.id} read {got!r} from context {c}; the nearest "
                       f"provider's current value is {want!r}")
            ctx[c] = want
        self.hook = "C13"
        for j, m in enumerate(d["memo"]):
            self.do_memo(inst, j, m, ctx)
        boom(2)
        for j, e in enumerate(d["eff"]):
            self.hook = "C05" if e["kind"] == "sync" else "C06"
            self.do_effect(inst, j, e, ctx)
        boom(3)
        self.hook = "C01"
        inst.last_vals = list(inst.vals)
        inst.last_ctx = dict(ctx)
        return self.output(inst, desc, ctx)

    # ---- memo ---------------------------------------------------------------
    def deps_of(self, spec, inst, ctx):
        if spec is None:
            return None
        out = []
        for x in spec:
            if x[0] == "opt":  # dependencies whose number changes
                if not self.cd(x[1], inst, ctx):
                    continue
                x = x[2]
            out.append(self.ev(x, inst, ctx))
        return out

    def given(self, inst, kind, j, spec, deps):
        """The object that is passed as dependencies: some components keep one list of
        them which they modify"""
        if deps is None or not spec.get("same"):
            return deps
        same = inst.deplists.setdefault((kind, j), [])
        same[:] = deps
        return same

    def do_memo(self, inst, j, m, ctx):
        deps = self.deps_of(m["deps"], inst, ctx)
        st = inst.memo.get(j)
        calls = []
        failing = m["fail"] is not None and self.cd(m["fail"], inst, ctx)
        kind = m["kind"]
        if kind in ("infer", "cbinfer"):
            x = tuple(deps) if deps is not None else ()
            deps = [x]
        given = self.given(inst, "memo", j, m, deps)
        if kind == "cbinfer":
            val = use_callback(cb := _mk_callback(deps[0]))
            called = val is cb
        elif kind == "callback":
            def cb(x=tuple(deps or ())):
                return x
            # callbacks with equal code are told apart by identity only
            cb.__name__ = f"cb{self.loop.steps}"
            val = use_callback(cb, given)
            called = val is cb
        else:
            def compute():
                calls.append(1)
                if failing:
                    raise Boom(f"memo {j}")
                return ("memo", inst.id, j, inst.rno, list(deps or ()))
            if kind == "infer":
                # dependencies inferred from the closure: a constant and the values
                inst.infer_now = compute
                if j not in inst.infer_cb:
                    inst.infer_cb[j] = lambda x, i=weakref.ref(inst): i().infer_now()
                val = use_memo(_mk_infer(inst.infer_cb[j], deps[0]))
            elif inst.rno % 2 and kind == "memo":
                val = use_memo(dependencies=given)(compute)
            else:
                val = use_memo(compute, given)
            called = bool(calls)
            if len(calls) > 1:
                self.V("C13", "computed-twice", f"memo {j} computed {len(calls)} times in one render")
        if st is None:
            must = True
        elif deps is None or st[0] is None:
            must = True
        else:
            must = len(st[0]) != len(deps) or not all(eq(a, b) for a, b in zip(st[0], deps))
        if must and not called:
            self.V("C13", "stale-memo",
                   f"instance {inst.id} memo {j}: dependencies are {deps}, value held is "
                   f"from {st[0] if st else None} and was not recomputed")
        if not must:
            if called:
                self.V("C13", "needless-recompute",
                       f"instance {inst.id} memo {j} recomputed although the "
                       f"dependencies {deps} did not change")
            elif val is not st[1]:
                self.V("C13", "memo-identity",
                       f"instance {inst.id} memo {j} returned another object than before")
        inst.memo[j] = (deps, val)

    # ---- effects --------------------------------------------------------------
    def do_effect(self, inst, j, e, ctx):
        deps = self.deps_of(e["deps"], inst, ctx)
        infer = e.get("infer")
        if infer:
            deps = [tuple(deps or ())]
            go = inst.infer_cb.get(("eff", j))
            if go is None:
                run = self.sync_effect if e["kind"] == "sync" else self.async_effect
                go = inst.infer_cb["eff", j] = \
                    lambda x, rno, i=weakref.ref(inst): run(i(), j, e, rno)
        given = self.given(inst, "eff", j, e, deps)
        st = inst.eff[j]
        if not st.has_deps:
            must = True
        elif deps is None or st.deps is None:
            must = True
        else:
            must = len(st.deps) != len(deps) or any(
                not eq(a, b) for a, b in zip(st.deps, deps))
        st.has_deps = True
        st.deps = deps
        if must:
            st.expected.append((inst.rno, inst.desc))
            for r in st.runs:
                r.superseded = True
        rno = inst.rno
        if infer:
            self.count("inferred_dependencies")
            if e["kind"] == "sync":
                use_effect(_mk_effect(go, deps[0], rno))
            else:
                use_async_effect(_mk_aeffect(go, deps[0], rno), shield=e["kind"] == "shield")
        elif e["kind"] == "sync":
            def eff():
                return self.sync_effect(inst, j, e, rno)
            if rno % 3 == 1:
                use_effect(dependencies=given)(eff)
            else:
                use_effect(eff, given)
        else:
            async def aeff():
                return await self.async_effect(inst, j, e, rno)
            if rno % 3 == 1:
                use_async_effect(dependencies=given, shield=e["kind"] == "shield")(aeff)
            else:
                use_async_effect(aeff, given, shield=e["kind"] == "shield")

    def effect_started(self, inst, j, e, rno):
        P = "C05" if e["kind"] == "sync" else "C06"
        st = inst.eff[j]
        self.count("effect_runs")
        if self.ended:
            self.V("C07", "effect-after-end", f"effect {j} of instance {inst.id} started after the session ended")
        if self.removal_shown(inst):
            self.V(P, "starts-after-unmount",
                   f"effect {j} of instance {inst.id} started after the update without "
                   "its component was sent")
        # runs of renders that were overtaken before they could start are skipped only
        # when the component was unmounted (sync) or the run was replaced (async)
        idx = next((n for n, (r, _) in enumerate(st.expected) if r == rno), None)
        if idx is None:
            self.V("C05", "effect-not-due",
                   f"effect {j} of instance {inst.id} ran (render {rno}) although its "
                   "dependencies did not change or it already ran")
        else:
            if idx > 0 and e["kind"] == "sync":
                self.V("C05", "effect-order",
                       f"effect {j} of instance {inst.id}: run of render {rno} before "
                       f"the run of render {st.expected[0][0]}")
            desc = st.expected[idx][1]
            del st.expected[: idx + 1]
            if inst.rno == rno and inst.out_err is None and not self.subtree_done(inst, desc.passid):
                self.V("C05", "effect-before-output",
                       f"effect {j} of instance {inst.id} started before the render "
                       "that scheduled it was complete")
        for r in st.runs:
            if r.cleanable and r.cleanups == 0:
                self.V(P, "no-cleanup-before-rerun",
                       f"effect {j} of instance {inst.id} ran again before the clean-up "
                       f"of its previous run")
            if e["kind"] != "sync" and not r.ended:
                self.V("C06", "overlap",
                       f"async effect {j} of instance {inst.id}: run {st.nruns + 1} "
                       f"started while run {r.no} is still in flight")
        st.nruns += 1
        run = Run(st.nruns, rno)
        # a newer run is already due: this one may be stopped at any time
        run.superseded = bool(st.expected)
        st.runs = [r for r in st.runs if not r.ended or (r.cleanable and not r.cleanups)]
        st.runs.append(run)
        self.log("E+", inst.id, j, run.no, rno)
        return st, run

    def removal_shown(self, inst):
        """was an update sent that a component above rendered without this one?"""
        while inst is not None:
            if inst.dead is not None:
                if inst.killed_by is None:
                    return False
                p, rno = inst.killed_by
                return any(r >= rno for _, r in self.shown_r.get(p.id, ()))
            inst = inst.desc.parent
        return False

    def subtree_done(self, inst, passid):
        if inst.desc.passid != passid or inst.out_err is not None:
            return True
        for d in inst.kids_list:
            if not d.rendered:
                return False
            if d.inst is not None and d.passid == passid and not self.subtree_done(
                    d.inst, passid):
                return False
        return True

    def mk_cleanup(self, inst, j, e, st, run):
        P = "C05" if e["kind"] == "sync" else "C06"

        def cleanup():
            run.cleanups += 1
            self.count("cleanups")
            self.log("E-", inst.id, j, run.no)
            if self.ended:
                self.V("C07", "cleanup-after-end",
                       f"clean-up of effect {j} of instance {inst.id} ran only after "
                       "serving had ended")
            if run.cleanups > 1:
                self.V(P, "cleanup-twice",
                       f"clean-up of run {run.no} of effect {j} of instance {inst.id} "
                       f"ran {run.cleanups} times")
            elif not (run.superseded or self.ending or self.is_dead(inst)):
                self.V(P, "cleanup-early",
                       f"clean-up of the current run of effect {j} of mounted instance "
                       f"{inst.id} ran")
            if e.get("cfail") == run.no:
                raise self.failure(e)("cleanup")

        if not e["cleanup"]:
            return None
        run.cleanable = True
        return cleanup

    def failure(self, e):
        return {"cancel": BoomCancel, "str": BoomStr, None: Boom}[e.get("fkind")]

    def sync_effect(self, inst, j, e, rno):
        st, run = self.effect_started(inst, j, e, rno)
        run.ended = True
        if e.get("fail") == run.no:
            run.failed = True
            self.count("effect_failures")
            raise self.failure(e)("effect")
        for a in e["acts"]:
            self.do_set(inst, a[1], a[2])
        return self.mk_cleanup(inst, j, e, st, run)

    async def async_effect(self, inst, j, e, rno):
        st, run = self.effect_started(inst, j, e, rno)
        shield = e["kind"] == "shield"
        try:
            try:
                for a in e["acts"]:
                    self.do_set(inst, a[1], a[2])
                for _ in range(e["yields"]):
                    await asyncio.sleep(0)
                if e["dur"]:
                    await asyncio.sleep(e["dur"] / 1000)
                if e.get("forever"):
                    self.count("fault_stuck_effect")
                    await self.loop.create_future()
                if e.get("fail") == run.no:
                    run.failed = True
                    self.count("effect_failures")
                    raise self.failure(e)("effect")
                for a in e.get("post", ()):
                    self.do_set(inst, a[1], a[2])
            except asyncio.CancelledError as err:
                if isinstance(err, BoomCancel):
                    raise
                run.cancelled = True
                self.count("effect_cancels")
                self.log("Ex", inst.id, j, run.no)
                if shield:
                    self.V("C06", "shield-cancelled",
                           f"shielded effect {j} of instance {inst.id} was cancelled")
                elif not (run.superseded or self.ending or self.is_dead(inst)):
                    self.V("C06", "cancel-early",
                           f"current run of effect {j} of mounted instance {inst.id} "
                           "was cancelled")
                if "swallow" in e:
                    self.count("cancel_ignored")
                    t = e["swallow"] / 1000
                    end = self.loop.time() + t
                    while self.loop.time() < end:
                        try:
                            await asyncio.sleep(max(0.0005, end - self.loop.time()))
                        except asyncio.CancelledError:
                            pass
                    return self.mk_cleanup(inst, j, e, st, run)
                if e.get("failcancel"):
                    raise Boom("cancelled effect failed") from None
                raise
            return self.mk_cleanup(inst, j, e, st, run)
        finally:
            run.ended = True
            if self.ended:
                self.V("C07", "effect-outlives-session",
                       f"effect {j} of instance {inst.id} was still running after "
                       "serving ended")
            self.log("E.", inst.id, j, run.no)

    # ---- output ---------------------------------------------------------------
    def adopt(self, inst, out, kids):
        """the instance committed this output: unmount what vanished"""
        for pos, (k, kid) in inst.kids.items():
            new = kids.get(pos)
            if kid is not None and (new is None or new[1] is not kid):
                self.kill(kid)
        inst.kids = kids
        inst.kids_list = []
        inst.out = out

    def output(self, inst, desc, ctx):
        descs = []
        bound = {}
        els = {}
        up = self._up(inst)
        prev = inst.kids
        top = {"err": False}

        def build(n, pos, env, key, scopes):
            """returns (raw for reactpy, expected tree)"""
            t = n["t"]
            if t == "txt":
                v = self.ev(n["e"], inst, ctx)
                return v, str(v)
            if t == "comp":
                dd = Desc(n["def"], self.ev(n["prop"], inst, ctx), up, inst, inst.rno,
                          pos, env, scopes)
                dd.w = desc.w
                dd.badrepr = self.defs[n["def"]].get("badrepr")
                old = prev.get(pos)
                if old and old[0] == n["def"] and old[1] is not None:
                    if old[1].dead is None:
                        dd.inst = old[1]
                descs.append(dd)
                return self.comps[n["def"]](dd, key=key), dd
            if t == "ctx":
                c = n["c"]
                val = self.ev(n["val"], inst, ctx)
                scope = {"err": False}
                raws, exps, dup = kids(n["ch"], pos + (f"ctx{c}",), {**env, c: val},
                                       (*scopes, scope))
                scope["err"] = scope["err"] or dup
                return (self.ctxs[c](*raws, value=val, key=key),
                        {"ctx": c, "ch": exps, "scope": scope})
            if t == "el":
                attrs = {"data-e": f"{inst.id}:{n['id']}:{inst.rno}"}
                for a, e in n["attrs"].items():
                    attrs[a] = self.ev(e, inst, ctx)
                if key is not None:
                    attrs["key"] = key
                elkey = (inst.id, pos, n["tag"])
                reused = None
                if n.get("reuse"):
                    # the same attributes object as in the previous render
                    was = inst.attrs_of.get(elkey)
                    if was and elkey in inst.els and all(
                            eq(was[1].get(k), v) for k, v in attrs.items()
                            if k != "data-e") and len(was[1]) == len(attrs):
                        reused, attrs = was[0], dict(was[1])
                        self.count("attributes_reused")
                exp = {"tag": n["tag"], "attrs": dict(attrs), "on": {}, "ch": []}
                self.elkeys[inst.id, n["id"]] = elkey
                els[elkey] = (n["id"], scopes)
                if n["on"] and ("onif" not in n or self.cd(n["onif"], inst, ctx)):
                    for name, h in n["on"].items():
                        attrs[name] = self.mk_handler(inst, n["id"], name, h)
                        exp["on"][name] = _flags(h)
                        bound[(inst.id, n["id"], name)] = scopes
                raws, exp["ch"], dup = kids(n["ch"], pos + ("el",), env, scopes)
                if dup:
                    scopes[-1]["err"] = True
                raw = getattr(html, n["tag"])(attrs, *raws)
                if reused is not None:
                    raw["attributes"] = reused
                elif n.get("reuse"):
                    inst.attrs_of[elkey] = (raw["attributes"], dict(exp["attrs"]))
                return raw, exp
            raise HarnessError(t)

        def kids(chs, pos, env, scopes):
            flat = []
            for c in chs:
                c = self.resolve(c, inst, ctx)
                if isinstance(c, list):
                    flat.extend(c)
                else:
                    flat.append(c)
            raws, exps, seen, dup = [], [], set(), False
            for i, c in enumerate(flat):
                if c is None:
                    raws.append(None)
                    continue
                k = c.get("key") if c["t"] != "txt" else None
                ik = i if k is None else k
                if ik in seen:
                    dup = True
                seen.add(ik)
                raw, exp = build(c, pos + (ik,), env, k, scopes)
                raws.append(raw)
                exps.append(exp)
            return raws, exps, dup

        tree = self.resolve(inst.d["tree"], inst, ctx)
        if isinstance(tree, list):
            raise HarnessError("list at root")
        if tree is None:
            raw, exp = None, []
        else:
            k = tree.get("key") if tree["t"] != "txt" else None
            raw, exp = build(tree, (0 if k is None else k,), desc.env, k, (top,))
            exp = [exp]
        nodes = {}
        good = []
        for dd in descs:
            if any(sc["err"] for sc in dd.scopes):
                dd.failing = True
                dd.inst = None
            else:
                nodes[dd.pos] = (dd.defi, dd.inst)
                good.append(dd)
        inst.out_err = None
        if top["err"]:
            self.count("dup_errors")
            inst.out_err = "Duplicate keys"
            exp = None
        self.adopt(inst, exp, nodes)
        inst.kids_list = good
        self.bind(inst, {b: 1 for b, scs in bound.items()
                         if not any(sc["err"] for sc in scs)},
                  {k: elid for k, (elid, scs) in els.items()
                   if not any(sc["err"] for sc in scs)})
        return raw

    def resolve(self, n, inst, ctx):
        while n is not None and n["t"] == "if":
            n = n["a"] if self.cd(n["c"], inst, ctx) else n["b"]
        if n is not None and n["t"] == "list":
            o = n["orders"][num(inst.vals[n["s"]]) % len(n["orders"])]
            return [dict(n["kinds"][k], key=k) for k in o]
        return n

    def _up(self, inst):
        me = weakref.ref(inst)

        def up(op):
            i = me()
            if i is not None:
                self.do_set(i, 0, op)

        return up

    # ---- handlers --------------------------------------------------------------
    def mk_handler(self, inst, elid, name, h):
        rno = inst.rno
        me = (inst.id, elid, name)

        if h["async"]:
            async def handler(e):
                rec = self.h_start(inst, me, rno, e)
                try:
                    await self.run_acts(inst, h["acts"], e)
                finally:
                    self.h_end(rec)
        else:
            def handler(e):
                rec = self.h_start(inst, me, rno, e)
                try:
                    for a in h["acts"]:
                        self.act(inst, a, e)
                finally:
                    self.h_end(rec)
        if "deco" in h:
            return rp_event(handler, stop_propagation=h["deco"][0],
                            prevent_default=h["deco"][1], throttle=h.get("throttle"))
        if "target" in h:
            return EventHandler(
                to_event_handler_function(handler, positional_args=True),
                target=f"T{inst.id}.{elid}.{name}")
        return handler

    def act(self, inst, a, e):
        if a[0] == "set":
            self.do_set(inst, a[1], a[2])
        elif a[0] == "up":
            up = inst.desc.up
            if up is not None:
                up(a[1])
            else:
                self.do_set(inst, 0, a[1])
        elif a[0] == "raise":
            self.count("handler_failures")
            raise (BoomStr if e["uid"] % 5 == 4 else Boom)("handler")
        else:
            raise HarnessError(a)

    async def run_acts(self, inst, acts, e):
        told = False  # it was cancelled, and ignored that
        for a in acts:
            if a[0] == "sleep":
                await asyncio.sleep(a[1] / 1000)
            elif a[0] == "yield":
                for _ in range(a[1]):
                    await asyncio.sleep(0)
            elif a[0] == "cancelled":
                # waits for something that was cancelled
                self.count("fault_cancelled_wait")
                f = self.loop.create_future()
                f.cancel()
                await f
            elif a[0] == "forever":
                if told:
                    continue  # nobody could end a handler that ignores being cancelled forever
                # waits for something that never happens
                self.events[e["uid"]]["stuck"] = True
                self.count("fault_stuck_handler")
                await self.loop.create_future()
            elif a[0] == "stubborn":
                # goes on for a while after it is cancelled
                try:
                    await asyncio.sleep(a[1] / 1000)
                except asyncio.CancelledError:
                    self.count("cancel_ignored")
                    told = True
                    await asyncio.sleep(a[1] / 1000)
            else:
                self.act(inst, a, e)

    def h_start(self, inst, me, rno, e):
        self.count("handled")
        uid = e["uid"]
        ev = self.events[uid]
        self.log("H+", uid, me, rno)
        if self.ended:
            self.V("C07", "handler-after-end", f"handler {me} ran after the session ended")
        ev["handled"] += 1
        ev["h_step"] = self.loop.steps
        ev["h_time"] = self.loop._vtime
        ev["h_who"] = me
        if ev["handled"] > 1:
            self.V("C08", "handled-twice", f"event {uid} was handled {ev['handled']} times")
        if ev["who"] is None:
            self.V("C09", "bogus-handled", f"event {uid} for an unknown target ran handler {me}")
        elif ev["who"] != me:
            # by place: the element now at that place has the same target
            o = self.insts[ev["who"][0]]
            h = self.bind_hist[ev["who"]][-1]
            if (not self.is_dead(o) and h[1] is None and h[3] is not None
                    and h[3] <= ev["t"]):
                self.V("C08", "misdirected",
                       f"event {uid} for {ev['who']}, which is bound, ran the handler "
                       f"of {me}")
        if not e.get("payload") == ev["payload"]:
            self.V("C08", "payload", f"event {uid} arrived with data {e.get('payload')!r}")
        q = self.by_target[ev["target"]]
        if q["running"] is not None:
            self.V("C08", "overlap",
                   f"event {uid} handled while event {q['running']} of the same target "
                   "was still being handled")
        if uid < q["last"]:
            self.V("C08", "order",
                   f"event {uid} handled after the later event {q['last']} of its target")
        q["last"] = max(q["last"], uid)
        q["running"] = uid
        now = self.loop._vtime
        if (not self.ending and ev["who"] == me and ev["handled"] == 1
                and self.cfg["drive"] == "serve"):
            self.check_delay(ev, me, now)
        if not self.ending and ev["who"] is not None:
            if rno < self.shown_at(inst.id, ev["t"]):
                self.V("C08", "stale-handler",
                       f"event {uid} ran the handler of render {rno} of instance "
                       f"{inst.id}, although a later render was complete when it arrived")
            if self.removed_before(inst, me, ev["t"]):
                self.V("C09", "removed-handler-ran",
                       f"event {uid} ran handler {me}, which a render that was complete "
                       "when the event arrived had removed")
        if not self.ending:
            if rno != inst.rno and now - inst.last_r_time > STALE_WINDOW:
                self.V("C08", "stale-handler",
                       f"event {uid} ran the handler of render {rno} of instance "
                       f"{inst.id}, which since rendered {inst.rno}")
            if me not in inst.bound or self.is_dead(inst):
                gone = self.gone_since(inst, me)
                if gone is not None and ev["t"] - gone > STALE_WINDOW:
                    self.V("C09", "removed-handler-ran",
                           f"event {uid}, emitted after handler {me} was removed, ran it")
        return q

    def shown_at(self, inst_id, t):
        """the newest render of the instance that was complete before that moment"""
        got = 0
        for ts, r in self.shown_r.get(inst_id, ()):
            if ts < t:
                got = r
        return got

    def removed_before(self, inst, me, t):
        """its element or handler was gone with a render that was complete before t"""
        i = inst
        while i is not None:
            if i.killed_by is not None:
                p, r = i.killed_by
                if self.shown_at(p.id, t) >= r:
                    return True
            i = i.desc.parent
        r = self.unbound_by.get(me)
        return r is not None and me not in inst.bound and self.shown_at(inst.id, t) >= r

    def check_delay(self, ev, me, now):
        """its handler was bound and its element had nothing else to do: no delay"""
        hist = self.bind_hist[me]
        arr = ev["arr"]
        if hist[-1][1] is not None or hist[-1][3] is None or hist[-1][3] > arr:
            return
        for u in self.events[: ev["uid"]]:
            if u["target"] != ev["target"]:
                continue
            if u.get("end", 1e9) > arr and arr - u.get("arr", -9) < 3.0 + 2 * len(
                    self.by_target[ev["target"]]["evs"]):
                return
        self.count("delay_checks")
        if now - arr > DELAY:
            self.V("C08", "delayed",
                   f"event {ev['uid']} for {me}, whose element had no other event to "
                   f"handle, was handled {1000 * (now - arr):.0f} ms after it arrived")

    def gone_since(self, inst, me):
        i, t = inst, None
        while i is not None:
            if i.death_time is not None and (t is None or i.death_time < t):
                t = i.death_time
            i = i.desc.parent
        if t is not None:
            return t
        hist = self.bind_hist.get(me)
        return hist[-1][1] if hist else None

    def h_end(self, q):
        if q["running"] is not None:
            self.events[q["running"]]["end"] = self.loop._vtime
        q["running"] = None
        self.log("H-")

    # ---- client -----------------------------------------------------------------
    def snapshot(self, update):
        try:
            return json.loads(json.dumps(update))
        except (TypeError, ValueError) as e:
            self.V("C01", "not-json", f"layout update is not JSON: {e}")
            return None

    def apply(self, u):
        if u is None:
            return
        self.count("updates")
        if u.get("type") != "layout-update":
            self.V("C01", "update-type", f"unexpected message {u.get('type')!r}")
            return
        path, model = u["path"], u["model"]
        self.log("U", path)
        if path == "":
            self.replica = model
        else:
            try:
                parts = path.split("/")
                if parts[0] != "":
                    raise KeyError(path)
                cur = self.replica
                for i, p in enumerate(parts[1:], 1):
                    last = i == len(parts) - 1
                    if isinstance(cur, list):
                        k = int(p)
                        if not 0 <= k < len(cur):
                            raise KeyError(p)
                    else:
                        k = p
                        if k not in cur:
                            raise KeyError(p)
                    if last:
                        cur[k] = model
                    else:
                        cur = cur[k]
            except (KeyError, ValueError, TypeError, IndexError):
                self.V("C01", "bad-path",
                       f"layout update for {path!r}, which does not exist in the "
                       "client's view")
                return
        self.learn(model)
        self.shapes.add(hash(json.dumps(shape(self.replica))))
        self.check_acks(model)

    def learn(self, model):
        for n in walk(model):
            for name, h in (n.get("eventHandlers") or {}).items():
                who = _who(n, name)
                if who:
                    self.ever_targets[h["target"]] = who

    def bindings(self):
        out = []
        for n in walk(self.replica):
            for name, h in (n.get("eventHandlers") or {}).items():
                out.append((h["target"], _who(n, name), n.get("tagName")))
        return out

    # ---- events -----------------------------------------------------------------
    def emit(self, target, who, seqspec, tag=None):
        uid = len(self.events)
        payload = {"n": uid * 7 % 13, "s": f"x{uid}"}
        seq = None
        msg = {"type": "layout-event", "target": target,
               "data": [{"uid": uid, "payload": payload}]}
        if seqspec:
            el = who[:2] if who else ("?", target)
            cur = self.seqs.get(el, -1)
            if seqspec[0] == "next":
                seq = cur + 1
            elif seqspec[0] == "skip":
                seq = cur + 1 + seqspec[1]
            elif seqspec[0] == "back":
                seq = max(0, cur - seqspec[1])
            else:
                seq = seqspec[1]
            if isinstance(seq, int):
                self.seqs[el] = max(cur, seq)
            msg["seq"] = seq
        self.events.append({"uid": uid, "target": target, "who": who, "seq": seq,
                            "handled": 0, "payload": payload, "t": None, "step": None,
                            "h_step": None, "tag": tag})
        self.by_target.setdefault(target, {"last": -1, "running": None, "evs": []})
        self.count("events")
        self.log("ev", uid, target, seq)
        self.c2s_n += 1
        lat = self.cfg["c2s"][self.c2s_n % len(self.cfg["c2s"])]
        # the network keeps order
        self.c2s_last = max(self.c2s_last, round(self.loop._vtime + lat / 1000, 6))
        self.net.append((self.c2s_last, uid, msg))
        self.loop.call_at(self.c2s_last, self.arrive)

    def arrive(self):
        while self.net and self.net[0][0] <= self.loop._vtime + 1e-9:
            _, uid, msg = self.net.popleft()
            if not self.ending:
                self.events[uid]["arr"] = self.loop._vtime
                self.inbox.put_nowait((uid, msg))

    def delivered(self, uid):
        e = self.events[uid]
        e["t"] = self.loop._vtime
        e["step"] = self.loop.steps
        self.by_target[e["target"]]["evs"].append(uid)
        self.log("recv", uid)

    # ---- C10 ----------------------------------------------------------------------
    def check_acks(self, model):
        for n in walk(model):
            attrs = n.get("attributes") or {}
            if "_reactpy_ack_seq" not in attrs:
                continue
            ack = attrs["_reactpy_ack_seq"]
            if n.get("tagName") not in ("input", "select", "textarea"):
                self.V("C10", "ack-on-non-input", f"{n.get('tagName')} carries an acknowledgement")
                continue
            hs = n.get("eventHandlers") or {}
            who = None
            best = None
            for name, h in hs.items():
                who = _who(n, name)
                t0 = self.mounted_at.get(_mount_key(n), 0)
                for uid in self.by_target.get(h["target"], {"evs": ()})["evs"]:
                    e = self.events[uid]
                    s = e["seq"]
                    if isinstance(s, bool) or not isinstance(s, int) or s < 0:
                        continue
                    if e["h_step"] is not None and e["h_step"] < t0:
                        continue  # taken up before this element existed
                    if best is None or s > best:
                        best = s
            if best is None or ack > best:
                self.V("C10", "ack-too-high",
                       f"element {who and who[:2]} acknowledges {ack}, the highest number "
                       f"it can have received is {best}")

    # ---- session ------------------------------------------------------------------
    async def send(self, update):
        snap = self.snapshot(update)
        self.log("send", snap and snap.get("path"))
        self.note_shown(snap and snap.get("model"))
        if self.ended:
            self.V("C07", "send-after-end", "an update was sent after serving ended")
        if self.send_fail:
            self.count("fault_send_error")
            self.send_raised = True
            raise ConnectionError("gone")
        lat = self.cfg["send"][self.sends % len(self.cfg["send"])]
        self.sends += 1
        if self.cfg["syield"]:
            await asyncio.sleep(0)
        if lat:
            self.count("fault_slow_send")
            await asyncio.sleep(lat / 1000)
        if self.ending and self.plan["end"]["kind"] == "send":
            self.send_raised = True
            raise ConnectionError("gone")
        self.apply(snap)

    def note_shown(self, model):
        """the render that bound these handlers is complete: its update is out"""
        for n in walk(model):
            v = _mount_key(n)
            if v is None:
                continue
            sh = self.shown_r.setdefault(v[0], [])
            if not sh or sh[-1][1] < v[2]:
                sh.append((self.loop._vtime, v[2]))
            for name in n.get("eventHandlers") or ():
                hist = self.bind_hist.get((v[0], v[1], name))
                if hist and hist[-1][3] is None and v[2] >= hist[-1][2]:
                    hist[-1][3] = self.loop._vtime

    async def recv(self):
        if self.cfg["fastrecv"] and not self.inbox.empty():
            got = self.inbox.get_nowait()
        else:
            got = await self.inbox.get()
        if got is None:
            self.count("fault_recv_error")
            raise ConnectionError("closed")
        uid, msg = got
        self.delivered(uid)
        return msg

    async def direct(self):
        async with self.layout as layout:
            async def out():
                while True:
                    u = await layout.render()
                    await self.send(u)

            async def inc():
                while True:
                    uid, msg = await self.inbox.get()
                    self.delivered(uid)
                    await layout.deliver(msg)

            ts = [asyncio.create_task(out()), asyncio.create_task(inc())]
            for t in ts:
                t._sim_tag = "driver"
            stop = self.recv_fail
            try:
                await asyncio.wait([*ts, stop], return_when=asyncio.FIRST_COMPLETED)
            finally:
                for t in ts:
                    t.cancel()
                for t in ts:
                    try:
                        await t
                    except asyncio.CancelledError:
                        pass
                    except ConnectionError:
                        pass

    def root_component(self):
        return self.comps[0](Desc(0, 1, None, None, 0, (), {}, ()))

    async def session(self):
        try:
            self.layout = Layout(self.root_component())
            if self.cfg["drive"] == "serve" and self.cfg.get("scope"):
                with CancelScope() as self.scope:
                    await serve_layout(self.layout, self.send, self.recv)
            elif self.cfg["drive"] == "serve":
                await serve_layout(self.layout, self.send, self.recv)
            else:
                await self.direct()
        finally:
            self.serve_done()

    def serve_done(self):
        self.check_end()
        self.ended = True
        self.log("served")

    async def idle(self):
        self.idle_fut = self.loop.create_future()
        await self.idle_fut

    def on_idle(self):
        f = self.idle_fut
        if f is not None and not f.done():
            f.set_result(None)
            return True
        return False

    async def wait(self, w):
        if w[0] == "s":
            for _ in range(w[1]):
                await asyncio.sleep(0)
        elif w[0] == "t":
            await asyncio.sleep(w[1] / 1000)
        elif w[0] == "i":
            await self.idle()
            if not self.ending:
                self.check_idle("mid")

    def live(self):
        return [i for i in self.insts if not self.is_dead(i) and i.nslots_seen]

    def do_op(self, o):
        k = o[0]
        if k == "ev":
            b = self.bindings()
            if b:
                t, who, tag = b[o[1] % len(b)]
                for _ in range(o[3] if len(o) > 3 else 1):
                    if len(o) > 3:
                        self.count("fault_duplicate_event")
                    self.emit(t, who, o[2], tag)
        elif k == "set":
            live = self.live()
            if live:
                i = live[o[1] % len(live)]
                self.do_set(i, o[2] % len(i.d["slots"]), o[3])
        elif k == "burst":
            live = self.live()
            if live:
                for x, y, op in o[1]:
                    i = live[x % len(live)]
                    self.do_set(i, y % len(i.d["slots"]), op)
        elif k == "flood":
            b = self.bindings()
            if b:
                self.count("fault_flood")
                t = 0
                for n, gap in enumerate(o[2]):
                    x = b[(o[1] + (n if o[3] else 0)) % len(b)]
                    t += gap / 1000
                    self.loop.call_later(t, self.flood, x, o[3])
        elif k == "stale":
            ts = sorted(self.ever_targets)
            if ts:
                self.count("fault_stale_event")
                t = ts[o[1] % len(ts)]
                self.emit(t, self.ever_targets[t], o[2])
        elif k == "bogus":
            self.count("fault_unknown_target")
            self.emit(f"nowhere/{len(self.events)}:onClick", None, o[1])
        elif k == "zset":
            if self.insts:
                i = self.insts[o[1] % len(self.insts)]
                if i.nslots_seen:
                    if self.is_dead(i):
                        self.count("fault_set_after_unmount")
                        i.frozen = True
                    self.do_set(i, o[2] % len(i.d["slots"]), o[3])
        elif k == "fail":
            self.flags[o[1]] = o[2]
            self.count("fault_render_switch")
            if o[4]:
                live = self.live()
                if live:
                    i = live[o[3] % len(live)]
                    self.do_set(i, 0, ["add", 1])
        else:
            raise HarnessError(o)

    def flood(self, x, spread):
        if not self.ending and not self.ended:
            self.emit(x[0], x[1], ["next"] if self.plan["prop"] == "C10" else None, x[2])

    def start_session(self):
        self.task = asyncio.get_running_loop().create_task(self.session())
        self.task._sim_tag = self.tag

    tag = "session"

    def end_session(self, k):
        if k == "cancel" and self.scope is not None:
            self.count("end_scope")
            self.scope.cancel()
        elif k == "cancel":
            self.task.cancel()
        elif k in ("recv", "exit"):
            if not self.recv_fail.done():
                self.recv_fail.set_result(None)
                if self.cfg["drive"] == "serve":
                    self.inbox.put_nowait(None)
        elif k == "send":
            self.send_fail = True
            root = self.root
            if root is not None and root.nslots_seen:
                self.do_set(root, 0, ["add", 1])

    may_end_early = False

    async def driver(self):
        plan = self.plan
        self.start_session()
        for o in plan["ops"]:
            await self.wait(o["w"])
            if self.ended:
                break
            self.do_op(o["o"])
        end = plan["end"]
        if not end["early"]:
            await self.idle()
            if not self.ending and not self.ended:
                self.check_idle("end")
        else:
            self.count("early_end")
            if end["w"][0] != "i":
                await self.wait(end["w"])
        if self.ended and self.may_end_early:
            self.ending = True
            return
        if self.ended:
            self.V("C07", "ended-early", "serving ended although nothing ended it: "
                   + repr(self.task.exception() if not self.task.cancelled() else "cancelled"))
            return
        self.ending = True
        k = end["kind"]
        self.count("end_" + k)
        self.log("END", k)
        self.end_session(k)
        await self.idle()
        if not self.ended and k == "send" and not self.send_raised:
            # nothing was sent, so nothing failed: end it otherwise
            self.task.cancel()
            await self.idle()
        if not self.ended:
            self.V("C07", "never-ends", f"serving did not end after {k}")
            self.task.cancel()
            await self.idle()
            return
        # afterwards: setters are harmless
        n0 = self.loop.ntasks
        for i in self.insts:
            if i.nslots_seen:
                i.frozen = True
                self.do_set(i, 0, ["add", 1])
                self.count("set_after_end")
        if self.loop.ntasks != n0:
            self.V("C07", "task-after-end", "setting state after the session ended created a task")
        await self.idle()

    # ---- idle oracles ---------------------------------------------------------------
    def expected_view(self):
        if self.root is None:
            return []
        return self.expand_inst(self.root)

    def expand_inst(self, inst):
        if inst.out_err is not None:
            return [{"error": inst.out_err}]
        out = []
        for e in inst.out:
            out.extend(self.expand(e))
        return out

    def expand(self, e):
        if isinstance(e, str):
            return [e]
        if isinstance(e, Desc):
            if e.inst is None or not e.rendered:
                return [{"missing": e.pos}]
            return self.expand_inst(e.inst)
        if "ctx" in e:
            if e["scope"]["err"]:
                self.count("dup_errors")
                return [{"error": "Duplicate keys"}]
            return [x for c in e["ch"] for x in self.expand(c)]
        return [{"tag": e["tag"], "attrs": e["attrs"], "on": e["on"],
                 "ch": [x for c in e["ch"] for x in self.expand(c)]}]

    def check_idle(self, where):
        self.count("idle_checks")
        if self.ended or self.ending:
            return
        self.log("idle", where)
        if self.task.done():
            return
        exp = self.expected_view()
        got = flatten(self.replica)
        d = diff(exp, got, "", self.cfg["debug"])
        if d:
            if self.stats.get("render_errors") or self.stats.get("dup_errors"):
                self.V("C12", "view-differs",
                       f"after a failed render the client view differs: {d}")
            self.V("C01", "view-differs", f"client view differs from the current render: {d}")
        for i in self.insts:
            if self.is_dead(i):
                if i.dead is not None:
                    pass
                self.check_unmounted(i)
                continue
            if i.last_vals is not None and i.out_err is None:
                for s, (a, b) in enumerate(zip(i.last_vals, i.vals)):
                    if not eq(a, b):
                        self.V("C03", "lost-update",
                               f"idle, but instance {i.id} was last rendered with "
                               f"{a!r} in slot {s}; its value is {b!r}")
            for s in i.kids_list:
                if not s.rendered:
                    self.V("C03", "child-not-rendered",
                           f"idle, but component {s.defi} at {s.pos} of instance {i.id} "
                           "was not rendered")
            for j, st in enumerate(i.eff):
                e = i.d["eff"][j]
                P = "C05" if e["kind"] == "sync" else "C06"
                if st.expected:
                    newest = st.expected[-1]
                    if e["kind"] == "sync" or newest[0] > (st.runs[-1].rno if st.runs else 0):
                        self.V(P, "effect-missing",
                               f"effect {j} of instance {i.id} did not run after render "
                               f"{newest[0]} changed its dependencies")
                for r in st.runs[:-1]:
                    if r.cleanable and r.cleanups == 0:
                        self.V(P, "cleanup-missing",
                               f"run {r.no} of effect {j} of instance {i.id} was replaced "
                               "but not cleaned up")
        self.check_events()
        self.check_low_acks()

    def check_unmounted(self, i):
        for j, st in enumerate(i.eff):
            e = i.d["eff"][j]
            P = "C05" if e["kind"] == "sync" else "C06"
            for r in st.runs:
                if not r.ended:
                    self.V("C06", "runs-after-unmount",
                           f"effect {j} of unmounted instance {i.id} is still running")
                elif r.cleanable and r.cleanups == 0:
                    self.V(P, "cleanup-missing",
                           f"instance {i.id} was unmounted but run {r.no} of its effect "
                           f"{j} was not cleaned up")
                    if self.err_above(i):
                        self.V("C12", "cleanup-missing",
                               f"instance {i.id} below a failed component: effect {j} "
                               "was not cleaned up")

    def err_above(self, i):
        p = i.desc.parent
        while p is not None:
            if p.out_err is not None:
                return True
            p = p.desc.parent
        return False

    def check_events(self):
        now = self.loop._vtime
        for e in self.events:
            if e.get("checked") or e["t"] is None:
                continue
            e["checked"] = True
            if e["handled"]:
                self.count("ev_handled")
                continue
            self.count("ev_dropped")
            who = e["who"]
            if who is None:
                continue
            inst = self.insts[who[0]]
            hist = self.bind_hist.get(who) or []
            q = self.by_target[e["target"]]
            # taken up at once if nothing was queued before it
            alone = all(
                self.events[u].get("end", 1e9) < e["t"] or self.events[u]["t"] < e["t"] - 3.0
                for u in q["evs"] if u < e["uid"])
            if inst.dead is not None or self.is_dead(inst):
                continue
            if any(self.events[u].get("stuck") for u in q["evs"] if u < e["uid"]):
                continue
            on, off, _, shown = hist[-1] if hist else (0, 0, 0, None)
            if off is not None or shown is None:
                continue
            if shown <= e["t"]:
                self.V("C08", "lost-event",
                       f"event {e['uid']} for {who}, bound all the time, was never handled")
            elif alone and shown - e["t"] <= GRACE_MUST:
                self.V("C09", "grace",
                       f"event {e['uid']} was dropped although its handler {who} "
                       f"appeared {1000 * (shown - e['t']):.0f} ms after it arrived")

    def check_low_acks(self):
        """idle: inputs whose component rendered after an event was taken up"""
        for n in walk(self.replica):
            if n.get("tagName") not in ("input", "select", "textarea"):
                continue
            hs = n.get("eventHandlers") or {}
            ack = (n.get("attributes") or {}).get("_reactpy_ack_seq")
            need = None
            who = None
            for name, h in hs.items():
                who = _who(n, name)
                if who is None or who not in self.bind_hist:
                    continue
                inst = self.insts[who[0]]
                for uid in self.by_target.get(h["target"], {"evs": ()})["evs"]:
                    e = self.events[uid]
                    s = e["seq"]
                    if type(s) is not int or s < 0 or e["who"] != who:
                        continue
                    if e["h_step"] is None or e["h_step"] >= inst.last_r_step:
                        continue
                    if e["h_step"] < self.mount_t.get(self.elkeys.get(who[:2]), 0):
                        continue
                    if need is None or s > need:
                        need = s
            if need is not None and (ack is None or ack < need):
                self.V("C10", "ack-too-low",
                       f"element {who[:2]} acknowledges {ack} although event {need} was "
                       "taken up before its latest render")

    def check_end(self):
        """serving has just ended"""
        if not self.ending:
            return
        for i in self.insts:
            for j, st in enumerate(i.eff):
                for r in st.runs:
                    if not r.ended:
                        self.V("C07", "effect-running",
                               f"serving ended but effect {j} of instance {i.id} is running")
                    elif r.cleanable and r.cleanups == 0:
                        self.V("C07", "effect-not-cleaned",
                               f"serving ended but effect {j} (run {r.no}) of instance "
                               f"{i.id} was not cleaned up")
        for t in self.loop.live_tasks(self.tag):
            if t is self.task:
                continue
            self.V("C07", "task-leak", f"serving ended but a task is alive: {_tname(t)}")

    # ---- run ------------------------------------------------------------------------
    def setup(self, loop):
        self.loop = loop
        loop.idle_hooks.append(self.on_idle)
        self.inbox = asyncio.Queue()
        self.recv_fail = self.loop.create_future()
        self.send_fail = self.send_raised = False
        self.c2s_n = 0
        self.net = collections.deque()
        self.c2s_last = 0.0

    def run(self):
        plan = self.plan
        self.setup(new_loop(plan["loopseed"], self.cfg))
        self.make_components()
        drv = self.loop.create_task(self.driver())
        drv._sim_tag = "driver"
        try:
            self.loop.run_to_idle()
        except StepLimit:
            self.V("C04", "no-quiescence", f"not idle after {self.loop.steps} steps")
        else:
            if not drv.done():
                raise HarnessError("driver did not finish: " + str(drv))
            if drv.exception():
                raise drv.exception()
        if self.harness_errors:
            raise self.harness_errors[0]
        self.loop.dispose()
        asyncio.set_event_loop(None)
        self.finish()
        return self

    def finish(self):
        self.digest = self.h.hexdigest()
        self.sim_time = self.loop._vtime
        self.steps = self.loop.steps


def new_loop(seed, cfg, step_limit=60_000):
    boot.seed_run(seed)
    loop = SimLoop(random.Random(seed), step_limit=step_limit)
    config.REACTPY_ASYNC_RENDERING.current = cfg["async"]
    config.REACTPY_DEBUG.current = cfg["debug"]
    config.REACTPY_CHECK_VDOM_SPEC.current = False
    config.REACTPY_CHECK_JSON_ATTRS.current = False
    config.REACTPY_MAX_QUEUE_SIZE.current = cfg["queue"]
    asyncio.set_event_loop(loop)
    return loop


def _mk_infer(cb, x):
    def compute():
        return cb(x)

    return compute


def _mk_callback(x):
    def callback():
        return x

    return callback


# these close over `go` and `x` only, which are what their dependencies are inferred from
def _mk_effect(go, x, render):
    def effect(render=render):
        return go(x, render)

    return effect


def _mk_aeffect(go, x, render):
    async def effect(render=render):
        return await go(x, render)

    return effect


def _tname(t):
    c = t.get_coro()
    return getattr(c, "__qualname__", str(c))


def _flags(h):
    sp, pd = h.get("deco", [False, False])
    return [bool(pd), bool(sp), None, h.get("throttle") if "deco" in h else None]


def _who(n, name):
    v = (n.get("attributes") or {}).get("data-e")
    if not v:
        return None
    a, b, _ = v.split(":")
    return (int(a), int(b), name)


def _mount_key(n):
    v = (n.get("attributes") or {}).get("data-e")
    return tuple(map(int, v.split(":"))) if v else None


def walk(model):
    stack = [model]
    while stack:
        n = stack.pop()
        if isinstance(n, dict):
            yield n
            stack.extend(reversed(n.get("children") or []))


def shape(m):
    if not isinstance(m, dict):
        return 0
    return [m.get("tagName"), "error" in m, [shape(c) for c in m.get("children") or []]]


def flatten(model):
    if isinstance(model, str):
        return [model]
    if not isinstance(model, dict):
        return [{"bad": repr(model)}]
    if "error" in model:
        return [{"error": model["error"]}]
    ch = [x for c in model.get("children") or [] for x in flatten(c)]
    if model.get("tagName") == "":
        return ch
    attrs = {k: v for k, v in (model.get("attributes") or {}).items()
             if k != "_reactpy_ack_seq"}
    on = {
        k: [bool(h.get("preventDefault")), bool(h.get("stopPropagation")),
            h.get("debounce"), h.get("throttle")]
        for k, h in (model.get("eventHandlers") or {}).items()
    }
    return [{"tag": model.get("tagName"), "attrs": attrs, "on": on, "ch": ch}]


def diff(exp, got, path, debug):
    if len(exp) != len(got):
        return f"{path}: expected {len(exp)} nodes {brief(exp)}, client has {len(got)} {brief(got)}"
    for i, (a, b) in enumerate(zip(exp, got)):
        p = f"{path}/{i}"
        if isinstance(a, str) or isinstance(b, str):
            if a != b:
                return f"{p}: expected {brief([a])}, client has {brief([b])}"
            continue
        if "error" in a or "error" in b:
            if ("error" in a) != ("error" in b):
                return f"{p}: expected {brief([a])}, client has {brief([b])}"
            if debug and a["error"] not in b["error"]:
                return f"{p}: error message {b['error']!r}, expected {a['error']!r}"
            if not debug and b["error"]:
                return f"{p}: error message {b['error']!r} outside debug mode"
            continue
        if "missing" in a:
            return f"{p}: component {a['missing']} never rendered"
        for k in ("tag", "attrs", "on"):
            x, y = a.get(k), b.get(k)
            if k == "attrs" and x is not None:
                x = json.loads(json.dumps(x))
            if x != y:
                return f"{p}: {k} expected {x}, client has {y}"
        r = diff(a["ch"], b["ch"], p, debug)
        if r:
            return r
    return None


def brief(nodes):
    return json.dumps(
        [n if isinstance(n, str) else n.get("tag") or list(n)[:1] for n in nodes])[:120]


def run(plan, want_trace=False):
    if plan.get("kind") == "leak":
        from .w_layout_leak import run_leak

        return run_leak(plan, want_trace)
    return World(plan, want_trace).run()


# ------------------------------------------------------------------- judging a run

# violations of these kinds break the property as well, whatever oracle saw them
ALSO = {
    "C01": {("C12", "view-differs"), ("C03", "child-not-rendered"), ("C03", "lost-update")},
    "C02": {("C03", "stale-value"), ("C13", "ref-identity"), ("C13", "setter-identity"),
            ("C05", "cleanup-missing"), ("C06", "cleanup-missing"),
            ("C06", "runs-after-unmount")},
    "C04": set(),
    "C05": {("C12", "cleanup-missing"), ("C07", "effect-not-cleaned"), ("C07", "cleanup-after-end"),
            ("C07", "effect-after-end")},
    "C06": {("C05", "effect-not-due"), ("C07", "effect-running"), ("C07", "effect-not-cleaned"),
            ("C07", "effect-outlives-session")},
    "C07": {("C05", "cleanup-twice"), ("C06", "cleanup-twice"),
            ("C05", "cleanup-missing"), ("C06", "cleanup-missing")},
    "C09": {("C08", "lost-event")},
    "C11": {("C03", "child-not-rendered"), ("C01", "view-differs")},
    "C13": set(),
}
# an element of these means the session itself broke down
ALWAYS = {("C07", "ended-early"), ("C04", "no-quiescence")}


def _without_failures(plan):
    p = json.loads(json.dumps(plan))
    for d in p["defs"]:
        d["fail"] = None
        for m in d["memo"]:
            m["fail"] = None
        _drop_dup(d["tree"])
    return p


def _drop_dup(n):
    if isinstance(n, dict):
        if n.get("t") == "list":
            n["orders"] = [list(dict.fromkeys(o)) for o in n["orders"]]
        for v in n.values():
            _drop_dup(v)
    elif isinstance(n, list):
        for v in n:
            _drop_dup(v)


def judge(prop, plan, w):
    bad = [(k, m) for (p, k), m in w.violations.items() if p == prop]
    also = ALSO.get(prop, ())
    for (p, k), m in w.violations.items():
        if p != prop and ((p, k) in also or (p, k) in ALWAYS):
            bad.append((k, m))
    if prop == "C12" and not bad and w.violations and (
            w.stats.get("render_errors") or w.stats.get("dup_errors")):
        # a consequence of the failures? the same program without them tells
        other = World(_without_failures(plan)).run()
        for (p, k), m in w.violations.items():
            if p in ("C01", "C02", "C03", "C04", "C05", "C06") and \
                    (p, k) not in other.violations:
                bad.append((k, "with failing renders only: " + m))
    return bad


PROBES = {
    "C01": lambda s: s.get("updates", 0) >= 3,
    "C02": lambda s: s.get("renders", 0) >= 6 and s.get("updates", 0) >= 2,
    "C03": lambda s: s.get("sets", 0) >= 3,
    "C04": lambda s: s.get("sets", 0) >= 2 and s.get("self_renders", 0) >= 2,
    "C05": lambda s: s.get("effect_runs", 0) >= 2 and s.get("cleanups", 0) >= 1,
    "C06": lambda s: s.get("effect_runs", 0) >= 2,
    "C07": lambda s: s.get("renders", 0) >= 2 and s.get("effect_runs", 0) >= 1,
    "C08": lambda s: s.get("ev_handled", 0) >= 3,
    "C09": lambda s: s.get("ev_dropped", 0) >= 1,
    "C10": lambda s: s.get("handled", 0) >= 2,
    "C11": lambda s: s.get("updates", 0) >= 2,
    "C12": lambda s: s.get("render_errors", 0) + s.get("dup_errors", 0) >= 1,
    "C13": lambda s: s.get("renders", 0) >= 4,
    "C14": lambda s: s.get("renders", 0) >= 20,
}


def nontrivial(prop, w):
    return bool(PROBES[prop](w.stats))


# ------------------------------------------------------------------------- shrinking


def _lists(o, path=()):
    """paths of everything that may be dropped from a definition"""
    if isinstance(o, dict):
        for k, v in o.items():
            if k in ("ch", "acts", "eff", "memo", "ctx", "orders", "post") and \
                    isinstance(v, list):
                for i in range(len(v)):
                    yield (*path, k, i)
            if k in ("on", "attrs"):
                for x in v:
                    yield (*path, k, x)
            if k in ("key", "onif", "deco", "throttle", "target", "prop", "lazy", "fail", "cfail",
                     "badrepr", "same", "reuse", "forever",
                     "swallow", "failcancel", "post") and v not in (None,) and path:
                yield (*path, k)
            yield from _lists(v, (*path, k))
    elif isinstance(o, list):
        for i, v in enumerate(o):
            yield from _lists(v, (*path, i))


def _copy(p):
    return json.loads(json.dumps(p))


def shrink(plan):
    if plan.get("kind") == "leak":
        yield from shrink_leak(plan)
        return
    ops = plan["ops"]
    n = len(ops)
    size = n
    while size >= 1:
        for a in range(0, n, size):
            if n - len(ops[a:a + size]) >= 0:
                c = _copy(plan)
                del c["ops"][a:a + size]
                if len(c["ops"]) < n:
                    yield c
        size //= 2
    for k, v in (("send", [0]), ("c2s", [0]), ("queue", 1000), ("syield", False),
                 ("debug", False), ("async", False), ("drive", "direct")):
        if plan["cfg"][k] != v:
            c = _copy(plan)
            c["cfg"][k] = v
            yield c
    for path in _lists(plan["defs"]):
        c = _copy(plan)
        o = c["defs"]
        for x in path[:-1]:
            o = o[x]
        if path[-1] == "fail" and "tree" in o or path[-1] == "fail" and "deps" in o:
            o["fail"] = None
        elif path[-1] == "prop" and o.get("t") == "comp":
            continue
        else:
            del o[path[-1]]
        yield c
    for i, o in enumerate(ops):
        if o["w"] != ["s", 0]:
            c = _copy(plan)
            c["ops"][i]["w"] = ["s", 0]
            yield c
    if plan["end"]["early"]:
        c = _copy(plan)
        c["end"]["early"] = False
        yield c


def shrink_leak(plan):
    from .w_layout_leak import shrink as s

    yield from s(plan)
