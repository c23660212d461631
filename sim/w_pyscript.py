"""Components rendered inside the browser by PyScript: the real layout and layout handler on
a simulated page, with generated views, updates and user events."""
from __future__ import annotations

import asyncio
import atexit
import contextlib
import hashlib
import html.parser
import json
import logging
import os
import random
import shutil
import sys
import tempfile
import types

from sim import boot, pydom
from sim.loop import SimLoop

BROWSER = pydom.Browser()
boot.install()

from reactpy import component, config, event, use_effect, use_state  # noqa: E402
from reactpy.core.vdom import Vdom  # noqa: E402
from reactpy.executors.pyscript import utils as putils  # noqa: E402

MAIN = types.ModuleType("__main__")
TAGS = ["div", "p", "span", "ul", "li", "button", "input", "b"]
EVENTS = {"onClick": "click", "onInput": "input", "onMouseEnter": "mouseenter", "onKeyDown": "keydown"}
ATTRS = {
    "className": ["a", "b c", "d"], "title": ["x", "y & z", ""], "dataN": [1, 2.5, 0],
    "data-q": ["1", "2", False, True], "disabled": [True, False, None], "hidden": [True, False],
    "style": [{"color": "red"}, {"color": "blue", "fontSize": "2px"}, {"backgroundColor": "red"}],
    "htmlFor": ["i1", "i2"], "tabIndex": [1, 2], "aria-hidden": [True, False], "href": ["#a", "#b"],
}
# what a user's file may contain: (source of a value, its value is kept as written)
LITERALS = [
    '"#a"', "'a # b'", '"UUID"', '"return root()"', '"    def root(): ..."', '"x\\ty"',
    '"tab\there"', '"""one\n\n  # two\n\tthree  \n"""', "'''\n# a\n    b\n'''",
    'f"{1 + 1} # {2}"', '"a" "b"', '"""x"""', 'len("""\n\n""")', '(1,\n  # comment\n\n  2)',
    '"a\\\n  b"', '[x for x in (  # c\n  1, 2)]', "r'\\#'",
]
DIR = None


def scratch():
    global DIR
    if DIR is None:
        DIR = tempfile.mkdtemp(prefix="sim-pyscript-", dir=boot.fast_dir())
        atexit.register(shutil.rmtree, DIR, True)
    return DIR


def cleanup():
    """called before a forked child ends"""
    global DIR
    if DIR is not None:
        shutil.rmtree(DIR, True)
        DIR = None


def user_files(code, name):
    """the source files of a component, with comments, docstrings and such"""
    one = ['"""A module\n\nwith a docstring."""', "# it's a comment", "import asyncio  # noqa", "",
           "class Oops(Exception):", '    """Only a docstring."""', "", "",
           "def helper():", "    # first a comment", "    '''Doc\n    string # here\n    '''",
           "    return ''  # nothing", ""]
    values = [f"V{i} = {LITERALS[k]}" for i, k in enumerate(code["values"])]
    two = ["from sim.w_pyscript import root_of", ""]
    indent = "\t" if code["tabs"] else "    "
    root = [f"def {code['root']}():", *([indent + '"""The root # component"""'] if code["doc"] else []),
            f"{indent}assert helper() == '' and Oops.__name__ == 'Oops'", "",
            f"{indent}return root_of({name!r}, ["
            + ", ".join(f"V{i}" for i in range(len(values))) + "])  # the end"]
    if code["files"] == 1:
        return ["\n".join([*one, *two, *values, *root])]
    return ["\n".join([*one, *values]) + "\n\n", "\n".join([*two, *root])]


class Html(html.parser.HTMLParser):
    """the parts of a page that reactpy returns as text"""

    def __init__(self, text):
        super().__init__()
        self.root = self.at = pydom.Element("body")
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        e = pydom.Element(tag)
        for k, v in attrs:
            e.setAttribute(k, v or "")
        self.at.appendChild(e)
        if tag not in ("br", "input", "img"):
            self.at = e

    def handle_endtag(self, tag):
        while self.at is not self.root and self.at.localName != tag:
            self.at = self.at.parentNode
        if self.at is not self.root:
            self.at = self.at.parentNode

    def handle_data(self, data):
        self.at.appendChild(pydom.Text(data))


INITIAL = ["", "loading", "<b>wait</b> a <i>bit<br></i>", {"tagName": "p", "children": ["soon"]}]


# ------------------------------------------------------------------ plans
def gen_node(rng, ctx, depth, budget):
    r = rng.random()
    if depth > 0 and r < 0.22:
        return rng.choice(["text", "", "<b>&", "more", "é"])
    if depth > 0 and r < 0.28 and ctx["free"]:
        return {"comp": ctx["free"].pop()}
    if depth > 0 and r < 0.33:
        return {"frag": gen_children(rng, ctx, depth, budget)}
    n = {"t": rng.choice(TAGS), "a": {}, "h": {}, "c": []}
    if rng.random() < 0.25:
        # an id stays on one level: morphdom does not support that it moves to another
        ctx["hid"] += 1
        n["a"]["id"] = f"i{ctx['hid']}"
    for k in rng.sample(sorted(ATTRS), rng.choice([0, 0, 1, 1, 2])):
        n["a"][k] = rng.choice(ATTRS[k])
    for k in sorted(EVENTS):
        if rng.random() < (0.35 if k == "onClick" else 0.06):
            n["h"][k] = gen_handler(rng, ctx)
    if n["t"] != "input":
        n["c"] = gen_children(rng, ctx, depth + 1, budget)
    return n


def gen_handler(rng, ctx):
    ctx["hid"] += 1
    return {"id": ctx["hid"], "prevent": rng.random() < 0.2, "stop": rng.random() < 0.2,
            "set": rng.choice([None, None, None, rng.choice(ctx["comps"])]),
            "slow": rng.choice([0, 0, 0, 0.01]), "fail": rng.random() < 0.08}


def gen_children(rng, ctx, depth, budget):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4]) if depth < 4 else 0):
        if budget[0] <= 0:
            break
        budget[0] -= 1
        out.append(gen_node(rng, ctx, depth, budget))
    if len(out) > 1 and rng.random() < 0.5:
        for i, c in enumerate(out):
            if isinstance(c, dict):
                c["k"] = f"k{rng.randrange(100)}-{i}"
    return out


def walk(n):
    if isinstance(n, dict):
        yield n
        for c in n.get("c", n.get("frag", ())):
            yield from walk(c)


def mutate(rng, ctx, old):
    """another version of a view, similar to the last one"""
    n = json.loads(json.dumps(old))
    for x in walk(n):
        for h in x.get("h", {}).values():
            ctx["hid"] += 1
            h["id"] = ctx["hid"]  # every render makes new functions
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        els = [x for x in walk(n) if "t" in x]
        x = rng.choice(els)
        op = rng.randrange(7)
        lists = [y.get("c", y.get("frag")) for y in walk(n)
                 if y.get("c", y.get("frag")) is not None and y.get("t") != "input"]
        ch = rng.choice(lists) if lists else []
        if op == 0 and ch:
            c = ch.pop(rng.randrange(len(ch)))
            for y in walk(c):
                if "comp" in y:
                    ctx["free"].append(y["comp"])
        elif op == 1 and lists:
            ch.insert(rng.randint(0, len(ch)), gen_node(rng, ctx, 2, [4]))
        elif op == 2:
            rng.shuffle(ch)
        elif op == 3:
            k = rng.choice(sorted(ATTRS))
            if k in x["a"] and rng.random() < 0.5:
                del x["a"][k]
            else:
                x["a"][k] = rng.choice(ATTRS[k])
        elif op == 4:
            k = rng.choice(sorted(EVENTS))
            if k in x["h"]:
                del x["h"][k]
            else:
                x["h"][k] = gen_handler(rng, ctx)
        elif op == 5 and x is not n:
            x["t"] = rng.choice([t for t in TAGS if t != "input"]) if x["t"] != "input" else "input"
        elif op == 6 and ch:
            i = rng.randrange(len(ch))
            if isinstance(ch[i], str):
                ch[i] = rng.choice(["changed", "text", ""])
    return n


def unique(n, name):
    ids, keys = set(), None
    for x in walk(n):
        i = x.get("a", {}).get("id")
        if i is not None and not i.startswith("root-"):
            if not i.startswith(name):
                i = x["a"]["id"] = f"{name}-{i}"
            if i in ids:
                del x["a"]["id"]
            ids.add(i)
        keys = set()
        for c in x.get("c", x.get("frag", ())):
            if isinstance(c, dict) and "k" in c:
                if c["k"] in keys:
                    c["k"] = c["k"] + "'"
                keys.add(c["k"])


def gen(rng, prop):
    n_apps = rng.choice([1, 1, 2, 3])
    apps = []
    for a in range(n_apps):
        names = [f"a{a}c{i}" for i in range(rng.randint(1, 3))]
        comps = {}
        free = names[1:]
        ctx = {"hid": a * 10000, "comps": names, "free": None}
        for i, name in enumerate(names):
            ctx["free"] = [x for x in free]
            root = {"t": "div", "a": {"id": f"root-{name}"} if rng.random() < 0.3 else {}, "h": {},
                    "c": gen_children(rng, ctx, 1, [rng.choice([4, 10, 20])])}
            versions = [root]
            for _ in range(rng.randint(1, 5)):
                versions.append(mutate(rng, ctx, versions[-1]))
            if i and rng.random() < 0.3:
                versions[rng.randrange(len(versions))] = rng.choice(["only text", None])
            # a component is used in one place only
            used = set()
            for v in versions:
                mine = set()
                for x in walk(v):
                    if "comp" in x:
                        if x["comp"] in mine:
                            x.pop("comp")
                            x["frag"] = []
                        else:
                            mine.add(x["comp"])
                used |= mine
                unique(v, name)
                if i:
                    for x in walk(v):
                        x.get("a", {}).pop("id", None)
            free = [x for x in free if x not in used and x != (names[i + 1: i + 2] or [None])[0]]
            comps[name] = versions
        apps.append({"comps": comps, "names": names, "initial": rng.randrange(len(INITIAL)), "code": {
            "root": rng.choice(["root", "app", "my_root"]), "files": rng.choice([1, 2]),
            "values": [rng.randrange(len(LITERALS)) for _ in range(rng.choice([0, 1, 3]))],
            "tabs": rng.random() < 0.2, "doc": rng.random() < 0.5}})
    acts = []
    for _ in range(rng.randint(3, 14)):
        r = rng.random()
        a = rng.randrange(n_apps)
        gap = rng.choice([0, 0, 0, 0.001, 0.02, "settle", "settle"])
        if r < 0.5:
            acts.append({"do": "set", "app": a, "comp": rng.choice(apps[a]["names"]),
                         "by": rng.choice([1, 1, 1, 2, -1]), "gap": gap})
        elif r < 0.92 or n_apps == 1:
            acts.append({"do": "fire", "app": a, "at": rng.random(),
                         "ev": rng.choice(["click", "click", "click", "input", "keydown"]),
                         "burst": rng.choice([1, 1, 1, 2, 5]), "gap": gap})
        else:
            acts.append({"do": "remove", "app": a, "gap": gap})
    return {"seed": rng.getrandbits(32), "apps": apps, "acts": acts,
            "async": rng.random() < 0.5,
            "starts": [0] + [rng.choice([0, 0, 0.01, 0.05]) for _ in range(n_apps - 1)]}


def shrink(plan):
    def cp():
        return json.loads(json.dumps(plan))

    for i in range(len(plan["acts"])):
        p = cp()
        p["acts"].pop(i)
        yield p
    for a, app in enumerate(plan["apps"]):
        for name, vs in app["comps"].items():
            for j in range(len(vs)):
                if len(vs) > 1:
                    p = cp()
                    p["apps"][a]["comps"][name].pop(j)
                    yield p
            for j, v in enumerate(vs):
                for k, x in enumerate(walk(v)):
                    for key in ("c", "frag"):
                        for m in range(len(x.get(key, ()))):
                            p = cp()
                            list(walk(p["apps"][a]["comps"][name][j]))[k][key].pop(m)
                            yield p
                    for key in ("a", "h"):
                        for m in x.get(key, ()):
                            p = cp()
                            list(walk(p["apps"][a]["comps"][name][j]))[k][key].pop(m)
                            yield p


# ------------------------------------------------------------------ the run
class World:
    def __init__(self, plan, want_trace):
        self.plan = plan
        self.bad, self.trace, self.stats, self.shapes = [], [], {}, set()
        self.want_trace = want_trace
        self.hash = hashlib.sha1()
        self.calls = []  # handlers that were called
        self.mounted = {}
        self.version = {}
        self.setters = {}
        self.most = 0  # handlers in a view
        self.datas, self.advanced, self.last = [], {}, {}
        self.by_id = {h["id"]: h for app in plan["apps"] for vs in app["comps"].values()
                      for v in vs for x in walk(v) for h in x.get("h", {}).values()}

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def violate(self, kind, msg):
        self.bad.append((kind, msg))
        self.ev("BAD", kind, msg)

    def ev(self, *a):
        line = (self.loop.steps, round(self.loop.time(), 5), *a)
        self.hash.update(repr(line).encode())
        if self.want_trace:
            self.trace.append(line)

    # -- the application
    def spec(self, name):
        a = int(name[1: name.index("c")])
        vs = self.plan["apps"][a]["comps"][name]
        return vs[self.version.get(name, 0) % len(vs)]

    def make(self, name):
        w = self

        @component
        def Comp():
            n, set_n = use_state(lambda: w.version.get(name, 0))
            w.setters[name] = set_n

            def life():
                w.mounted[name] = w.mounted.get(name, 0) + 1

                def gone():
                    w.mounted[name] -= 1
                return gone

            use_effect(life, [])
            a = int(name[1: name.index("c")])
            vs = w.plan["apps"][a]["comps"][name]
            w.count("renders")
            return w.build(vs[n % len(vs)])

        return Comp

    def build(self, s):
        if s is None or isinstance(s, str):
            return s
        if "comp" in s:
            return self.comps[s["comp"]](key=s.get("k"))
        if "frag" in s:
            return Vdom("")(*([{"key": s["k"]}] if "k" in s else []),
                            *[self.build(c) for c in s["frag"]])
        attrs = dict(s["a"])
        if "k" in s:
            attrs["key"] = s["k"]
        for k, h in s["h"].items():
            attrs[k] = event(self.handler(h), prevent_default=h["prevent"],
                             stop_propagation=h["stop"])
        return Vdom(s["t"])(attrs, *[self.build(c) for c in s["c"]])

    def handler(self, h):
        w = self

        async def handle(*data):
            w.calls.append(h["id"])
            w.datas.append(data)
            w.ev("handler", h["id"], len(data))
            if h["slow"]:
                await asyncio.sleep(h["slow"])
            if h["fail"]:
                w.count("fault_handler_failed")
                raise RuntimeError("planned")
            if h["set"]:
                w.advance(h["set"], 1)

        return handle

    def advance(self, name, by):
        self.version[name] = self.version.get(name, 0) + by
        a = int(name[1: name.index("c")])
        self.advanced[a] = self.advanced.get(a, 0) + 1
        if name in self.setters:
            self.setters[name](self.version[name])

    # -- the page
    def start(self, a):
        self.ev("start", a)
        app = self.plan["apps"][a]
        paths = []
        for i, text in enumerate(user_files(app["code"], app["names"][0])):
            h = hashlib.sha1(text.encode()).hexdigest()[:12]  # noqa: S324
            paths.append(os.path.join(scratch(), f"{h}-{i}.py"))
            with open(paths[-1], "w", encoding="utf-8") as f:
                f.write(text)
        self.containers[a] = self.place(putils.pyscript_component_html(
            tuple(paths), INITIAL[app["initial"]], app["code"]["root"]), a)
        self.gone.discard(a)
        self.cleaned = True

    def place(self, text, a):
        """what a browser does with a component's HTML"""
        div = script = None
        for n in Html(text).root.childNodes:
            if n.nodeType == 1 and n.className == "pyscript":
                div = n
            elif n.nodeType == 1 and n.localName == "script":
                script = n.textContent
        self.doc.body.appendChild(div)
        try:
            exec(compile(script, f"<component {a}>", "exec"), MAIN.__dict__)  # noqa: S102
        except Exception as e:  # noqa: BLE001
            self.violate("code", f"the code of the page can't run: {type(e).__name__}: {e}")
        self.tasks[a] = MAIN.__dict__.get(f"task_{div.dataset.uuid}")
        return div

    def root_of(self, name, got):
        code = self.plan["apps"][int(name[1: name.index("c")])]["code"]
        for k, v in zip(code["values"], got):
            want = eval(LITERALS[k])  # noqa: S307
            self.count("literals")
            if v != want:
                self.violate("code", f"{LITERALS[k]!r} in a user's file became {v!r}")
        return self.comps[name]()

    def expected(self, s):
        """-> flat list of nodes: text or [tag, attributes, handlers, children]"""
        if s is None:
            return []
        if isinstance(s, str):
            return [s]
        if "comp" in s:
            return self.expected(self.spec(s["comp"]))
        if "frag" in s:
            return [x for c in s["frag"] for x in self.expected(c)]
        attrs = {}
        for k, v in s["a"].items():
            if k == "style":
                attrs[k] = {pydom.kebab(a): b for a, b in v.items()}
                continue
            dashed = k[4:5] == "-"
            if v is None or (v is False and not dashed):
                continue
            k = {"className": "class", "htmlFor": "for"}.get(k, k.lower())
            attrs[k] = True if v is True and not dashed else pydom.js_str(v)
        return [[s["t"], attrs, {EVENTS[k]: h for k, h in s["h"].items()},
                 [x for c in s["c"] for x in self.expected(c)]]]

    def actual(self, node):
        out = []
        for c in node.childNodes:
            if c.nodeType == 3:
                out.append(c.nodeValue)
            elif c.nodeType == 1:
                attrs = {k: v for k, v in c.attrs.items() if k != "key"}
                if c.style.props:
                    attrs["style"] = dict(c.style.props)
                out.append([c.localName, attrs, c, self.actual(c)])
        return out

    def same(self, want, got, path):
        want, got = merge(want), merge(got)
        if len(want) != len(got):
            return f"{path or 'the root'} has {len(got)} nodes instead of {len(want)}"
        for i, (a, b) in enumerate(zip(want, got)):
            p = f"{path}/{i}"
            if isinstance(a, str) or isinstance(b, str):
                if a != b:
                    return f"{p} is {short(b)} instead of {short(a)}"
                continue
            if a[0] != b[0]:
                return f"{p} is a {b[0]} instead of a {a[0]}"
            x = dict(b[1])
            for k, v in a[1].items():
                if v is True and k in x:
                    x[k] = True
            if x != a[1]:
                return f"{p} ({a[0]}) has attributes {x} instead of {a[1]}"
            r = self.same(a[3], b[3], p)
            if r:
                return r
        return None

    def pairs(self, want, got):
        for a, b in zip(merge(want), merge(got)):
            if not isinstance(a, str):
                yield a, b[2]
                yield from self.pairs(a[3], b[3])

    def check(self):
        handlers = 0
        views = {}
        for a, div in self.containers.items():
            if a in self.gone:
                continue
            want = self.expected(self.spec(self.plan["apps"][a]["names"][0]))
            r = self.same(want, self.actual(div), "")
            self.count("checks")
            if r:
                self.ev("want", want)
                self.ev("got", self.actual(div))
                self.violate("dom", f"the page differs from the view: {r}")
                return None
            views[a] = list(self.pairs(want, self.actual(div)))
            # what a user has typed, selected or focused stays
            sk, els = skeleton(want), [e for _, e in views[a]]
            old = self.last.get(a)
            if old and old[0] == sk and self.advanced.get(a, 0) <= 1:
                self.count("identity_checks")
                if any(x is not y for x, y in zip(old[1], els)):
                    self.violate("identity", "an update of attributes, text and handlers has "
                                 "replaced elements")
            self.last[a] = (sk, els)
            self.advanced[a] = 0
            handlers += sum(len(x[2]) for x, _ in views[a])
            self.shapes.add(hash_shape(want))
        self.most = max(self.most, handlers)
        if pydom.Proxy.live > 2 * self.most + 8 * len(self.containers) and not self.gone:
            self.violate("leak", f"{pydom.Proxy.live} listeners are kept, the views had at most "
                         f"{self.most}")
        return views

    def fire(self, act, views):
        """after everything has settled: what an event does is known"""
        els = views.get(act["app"])
        if not els:
            return
        spec, el = els[int(act["at"] * len(els))]
        by_el = {id(e): s for s, e in els}
        want, ev_prevent, n, stopped = [], False, el, False
        while n is not None and not stopped:
            s = by_el.get(id(n))
            if s is not None and act["ev"] in s[2]:
                h = s[2][act["ev"]]
                want.append(h["id"])
                ev_prevent |= h["prevent"]
                stopped = h["stop"]
            n = n.parentNode
        self.calls.clear()
        self.datas.clear()
        evs = []
        if act.get("burst", 1) > 1 and not any(self.sets(i) for i in want):
            self.count("bursts")
            want = want * act["burst"]
            for _ in range(act["burst"] - 1):
                self.in_loop(lambda: pydom.dispatch(el, act["ev"], self.on_error))
        self.in_loop(lambda: evs.append(pydom.dispatch(el, act["ev"], self.on_error)))
        self.ev("fire", act["ev"], len(want))
        self.count("events")
        self.settle()
        got = [c for c in self.calls]
        first = got[: len(want)]
        if sorted(first) != sorted(want) or len(got) != len(want):
            self.violate("handler", f"a {act['ev']} called the handlers {got} instead of {want}")
        elif any(len(d) != 1 or getattr(d[0], "type", None) != act["ev"]
                 or getattr(d[0], "target", None) is not el for d in self.datas):
            self.violate("data", f"a handler of a {act['ev']} was given {self.datas}")
        elif evs[0].defaultPrevented != ev_prevent:
            self.violate("default", f"the default of a {act['ev']} was "
                         f"{'' if evs[0].defaultPrevented else 'not '}prevented")
        if want:
            self.count("handled")

    def sets(self, i):
        return self.by_id[i]["set"]

    def on_error(self, e):
        self.violate("error", f"a listener failed: {type(e).__name__}: {e}")

    def settle(self):
        self.loop.run_to_idle()

    def act(self, act):
        a = act["app"]
        if act["do"] == "set":
            self.ev("set", act["comp"], act["by"])
            self.count("updates")
            self.advance(act["comp"], act["by"])
        elif act["do"] == "fire" and a in self.containers and a not in self.gone:
            els = [n for n in self.containers[a].walk() if n.nodeType == 1]
            if els:
                self.ev("fire", act["ev"])
                self.count("racing_events")
                pydom.dispatch(els[int(act["at"] * len(els))], act["ev"], self.on_error)
        elif act["do"] == "remove" and a in self.containers and a not in self.gone:
            self.ev("remove", a)
            self.count("fault_removed_from_page")
            self.containers[a].remove()
            self.gone.add(a)
            self.cleaned = False

    def in_loop(self, fn, *args):
        async def go():
            fn(*args)
        self.loop.create_task(go())

    def run(self):
        global CUR
        plan = self.plan
        CUR = self
        boot.seed_run(plan["seed"])
        self.rng = random.Random(plan["seed"])
        self.loop = SimLoop(self.rng)
        self.doc = BROWSER.page()
        self.containers, self.tasks, self.gone, self.cleaned = {}, {}, set(), True
        config.REACTPY_ASYNC_RENDERING.current = plan["async"]
        config.REACTPY_DEBUG.current = False
        self.comps = {n: self.make(n) for app in plan["apps"] for n in app["names"]}
        before = sys.modules["__main__"]
        MAIN.__dict__.clear()
        MAIN.__dict__.update(__name__="__main__", __builtins__=__builtins__)
        sys.modules["__main__"] = MAIN
        hook = sys.unraisablehook
        asyncio._set_running_loop(None)
        try:
            self.in_loop(lambda: exec(compile(  # noqa: S102
                putils.PYSCRIPT_LAYOUT_HANDLER, "<setup>", "exec"), MAIN.__dict__))
            self.settle()
            for a, at in enumerate(plan["starts"]):
                self.loop.call_later(at, self.in_loop, self.start, a)
            self.loop.call_later(0, lambda: None)
            self.loop.call_later(max(plan["starts"]) + 1e-6, self.loop.stop)
            with contextlib.suppress(Exception):
                self.loop.run_forever()
            settled = False
            for act in plan["acts"]:
                if act["gap"] == "settle":
                    self.settle()
                    views = self.check()
                    if self.bad:
                        break
                    if act["do"] == "fire":
                        self.fire(act, views)
                        continue
                elif act["gap"]:
                    self.loop.call_later(act["gap"], self.loop.stop)
                    self.loop.run_forever()
                else:
                    for _ in range(self.rng.choice([0, 0, 1, 2, 5])):
                        self.loop.call_soon(self.loop.stop)
                        self.loop.run_forever()
                self.in_loop(self.act, act)
            if not self.bad:
                self.settle()
                views = self.check()
                for k in range(6):
                    if self.bad or not views:
                        break
                    self.fire({"app": self.rng.choice(sorted(views)), "at": self.rng.random(),
                               "ev": "click"}, views)
                    views = self.check()
            if not self.bad and self.gone:
                self.end()
            for ctx in self.loop.errors:
                e = ctx.get("exception")
                self.violate("error", f"{ctx['message']}: {type(e).__name__}: {e}")
            bad = [r for r in boot.capture.records if r[0] >= logging.ERROR]
            if len(bad) > self.stats.get("fault_handler_failed", 0):
                self.violate("error", f"logged: {bad[0][2]}"[:200])
            for a, t in self.tasks.items():
                if t is not None and t.done() and not t.cancelled() and t.exception():
                    self.violate("error", f"the page's task failed: {t.exception()!r}"[:200])
        finally:
            for t in asyncio.all_tasks(self.loop):
                t.cancel()
            with contextlib.suppress(Exception):
                self.settle()
            sys.modules["__main__"] = before
            self.loop.dispose()
            sys.unraisablehook = hook
            self.setters.clear()
        self.digest = self.hash.hexdigest()
        self.sim_time = self.loop.time()
        self.steps = self.loop.steps
        return self

    def end(self):
        """when another component starts, those that are no longer on the page go away"""
        names = [n for a in sorted(self.gone) for n in self.plan["apps"][a]["names"]]
        left = [a for a in self.containers if a not in self.gone]
        again = min(self.gone)
        gone = sorted(self.gone - {again})
        # one of the removed comes back
        self.count("restarts")
        del left
        self.in_loop(self.start_other)
        self.settle()
        del again, gone
        still = [n for n in names if self.mounted.get(n)]
        self.count("cleanup_checks")
        if still:
            self.violate("kept", f"{len(still)} components whose element has left the page are "
                         "still mounted after another component was started")
        want = sum(len(x[2]) for a in self.containers if a not in self.gone for x, _ in self.pairs(
            self.expected(self.spec(self.plan["apps"][a]["names"][0])),
            self.actual(self.containers[a])))
        if not self.bad and pydom.Proxy.live > 2 * want + 8 * len(self.containers):
            self.violate("leak", f"{pydom.Proxy.live} listeners are kept, the views have {want}")

    def start_other(self):
        path = os.path.join(scratch(), "other.py")
        with open(path, "w", encoding="utf-8") as f:
            f.write("import reactpy\n\ndef root():\n    return reactpy.component(lambda: 'x')()\n")
        self.place(putils.pyscript_component_html((path,), "", "root"), 99)


CUR = None


def root_of(name, values):
    return CUR.root_of(name, values)


def merge(nodes):
    out = []
    for n in nodes:
        if isinstance(n, str):
            if n == "":
                continue
            if out and isinstance(out[-1], str):
                out[-1] += n
                continue
        out.append(n)
    return out


def short(x):
    return repr(x[:40]) if isinstance(x, str) else f"a {x[0]}"


def skeleton(want):
    return [0 if isinstance(n, str) else (n[0], n[1].get("id"), skeleton(n[3])) for n in want]


def hash_shape(want):
    def f(ns):
        return "".join("t" if isinstance(n, str) else f"({n[0]}{len(n[2])}{f(n[3])})" for n in ns)
    return hashlib.md5(f(want).encode()).hexdigest()[:12]  # noqa: S324


def run(plan, want_trace=False):
    return World(plan, want_trace).run()


def judge(prop, plan, w):
    return w.bad


def nontrivial(prop, w):
    return w.stats.get("renders", 0) >= 3 and w.stats.get("checks", 0) >= 1
