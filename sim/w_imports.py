"""Finding what a JavaScript module exports, over a network that fails.

A generated graph of modules - with URLs on several hosts, redirects, or files - is imported
from by a history of calls. Below `requests` everything is simulated: what each URL answers,
how long that takes and how it fails. The graph says which names each call has to find."""
from __future__ import annotations

import hashlib
import io
import json
import os
import random
import re
import shutil
import tempfile
from urllib.parse import urlsplit

from sim import boot

boot.install()

import requests  # noqa: E402
import urllib3  # noqa: E402
from requests.adapters import HTTPAdapter  # noqa: E402
from reactpy import config, reactjs  # noqa: E402

HOSTS = ["https://cdn.test", "http://other.test:8080", "https://esm.test"]
DIRS = ["", "/a", "/a/b", "/a/b/c", "/x@1.2", "/é%20b"]
NAMES = ["A", "Bt", "$x", "_y", "Card", "useIt", "b2", "Menu", "Row", "Col$", "Été", "z", "as_it", "from_x"]
BARE = ["react", "react/jsx-runtime", "data:text/javascript,export{Nope}", "@scope/pkg", "#x", "node:fs",
        "ftp://cdn.test/x.js", "http://", "https://.bad./x", "//"]
NETFAULTS = ["refused", "dns", "stall", "connect", "tls", "status", "cut", "gzip", "loop", "reset", "slowbody"]
FILEFAULTS = ["missing", "dir", "garbled"]


class Hang(BaseException):
    pass


# --------------------------------------------------------------------------- generation
def gen_stmts(r, pool, default):
    """statements of one module; returns them with the names they export"""
    out, own, local = [], set(), []

    def take():
        return pool.pop(r.randrange(len(pool))) if pool else None

    for _ in range(r.randint(0, 4)):
        form = r.choice(["decl", "decl", "destr", "func", "func", "list", "list", "staras", "local"])
        if form == "decl":
            ns = [n for n in (take() for _ in range(r.randint(1, 3))) if n]
            if ns:
                out.append(["decl", r.choice(["let", "var", "const"]), ns])
                own.update(ns)
        elif form == "destr":
            ns = [n for n in (take() for _ in range(r.randint(1, 2))) if n]
            if ns:
                out.append(["destr", ns])
                own.update(ns)
        elif form == "func":
            n = take()
            if n:
                out.append(["func", r.choice(["function ", "function* ", "async function ", "class ",
                                              "async function* ", "function *"]), n])
                own.add(n)
        elif form == "list":
            src = r.random() < 0.4
            items = []
            for _ in range(r.randint(1, 4)):
                n = take()
                if not n:
                    break
                if r.random() < 0.5:
                    items.append([n, n])
                    own.add(n)
                else:
                    alias = take() if r.random() < 0.85 or not default or "default" in own else "default"
                    if not alias:
                        break
                    items.append([n, alias])
                    own.add(alias)
                    local.append(n)
            if items:
                out.append(["list", items, r.choice(["./other.js", "react", "https://cdn.test/q.js"]) if src else None])
        elif form == "staras":
            n = take()
            if n:
                out.append(["staras", n, r.choice(["./other.js", "react", "/abs/x.js"])])
                own.add(n)
        else:
            n = take()
            if n:
                out.append(["local", r.choice(["function %s() {}", "const %s = 1;", "import { %s } from 'react';",
                                               "import %s from './x.js';", "let o = { %s: 1 };", "x.%s = export_;"]), n])
                local.append(n)
    if default and "default" not in own and r.random() < 0.6:
        n = take()
        out.insert(r.randrange(len(out) + 1), ["default", r.choice(["expr", "obj", "func", "class", "paren"]), n])
        own.add("default")
        if n:
            local.append(n)
    return out, sorted(own), local


def gen(rng, prop):
    r = rng
    n = r.randint(1, 7)
    mods, seen = {}, set()
    for i in range(n):
        kind = "file" if r.random() < 0.25 else "url"
        while True:
            if kind == "url":
                loc = r.choice(HOSTS) + r.choice(DIRS) + r.choice(["/", "/"]) + f"m{i}" + r.choice([".js", ".mjs", ""]) + \
                    r.choice(["", "", "", "?dev", "?deps=a/b@1/c.js&bundle"])
                if r.random() < 0.06:
                    loc = r.choice(HOSTS) + ("" if r.random() < 0.5 else "/")
            else:
                loc = r.choice(["", "d/", "d/e/"]) + f"m{i}.js"
            if loc.rstrip("/") not in seen:
                break
        seen.add(loc.rstrip("/"))
        pool = list(NAMES) if r.random() < 0.5 else [f"{x}{i}" for x in NAMES]
        stmts, own, local = gen_stmts(r, pool, True)
        mods[str(i)] = {"kind": kind, "loc": loc, "stmts": stmts, "own": own, "local": local, "refs": [],
                        "style": r.choice(["pretty", "pretty", "min", "asi", "multi"]), "alias": [],
                        "bom": False, "late": r.random() < 0.3}
        if kind == "url" and r.random() < 0.3:
            mods[str(i)]["alias"] = [[r.choice(HOSTS) + f"/r{i}-{k}" + r.choice(["", "/", "/latest.js"]),
                                      r.choice([301, 302, 303, 307, 308])] for k in range(r.randint(1, 3))]
    for i, m in mods.items():
        for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
            j = r.choice(sorted(mods))
            if m["kind"] == "url" and mods[j]["kind"] == "file":
                continue
            m["refs"].append(["mod", j, r.random() < 0.6, r.randrange(4)])
        if r.random() < 0.3:
            m["refs"].append(["bare", r.choice(BARE)])
        r.shuffle(m["refs"])
    faults = r.random() < 0.7
    ops = []
    for k in range(r.randint(2, 8)):
        root = r.choice(sorted(mods)) if k == 0 or r.random() < 0.5 else ops[-1]["root"]
        net = {}
        if faults and r.random() < 0.6:
            for i, m in mods.items():
                if r.random() < r.choice([0.15, 0.5]):
                    net[i] = r.choice(NETFAULTS if m["kind"] == "url" else FILEFAULTS)
        ops.append({"root": root, "depth": r.choice([5, 5, 5, 1, 2, 3]), "net": net,
                    "ask": r.randrange(1 << 30), "many": r.random() < 0.5, "alias": r.random() < 0.5,
                    "fallback": r.random() < 0.3, "children": r.random() < 0.8, "unmount": r.random() < 0.2,
                    "string": r.random() < 0.25, "miss": r.random() < 0.35, "dotted": r.random() < 0.15})
    if faults:
        for m in sorted({o["root"] for o in ops}):
            ops.append(dict(ops[-1], root=m, net={}, many=True, miss=False, last=True, depth=5, ask=r.randrange(1 << 30)))
    return {"seed": r.randrange(1 << 30), "mods": mods, "ops": ops}


# --------------------------------------------------------------------------- sources
def emit(m, refs, rng):
    st = m["style"]
    tight = st == "min"
    sp = "" if tight else " "
    end = "" if st == "asi" else ";"
    note = (lambda: rng.choice(["", "", "", " // also var, const", " /* x */"])) if st != "min" else lambda: ""
    q = rng.choice("'\"")

    def lst(items):
        if st == "multi":
            return "{\n  " + ",\n  ".join(a if a == b else f"{a} as {b}" for a, b in items) + rng.choice(["", ","]) + "\n}"
        return "{" + sp + ("," + sp).join(a if a == b else f"{a} as {b}" for a, b in items) + sp + "}"

    stmts = [list(s) for s in m["stmts"]]
    for ref in refs:
        stmts.insert(rng.randrange(len(stmts) + 1), ["star", ref])
    out = []
    for s in stmts:
        k = s[0]
        if k == "decl":
            init = lambda i: f"{sp}={sp}{rng.choice(['1', q + 'http' + q, 'f()', '(a)=>a' if tight else 'x => x'])}"  # noqa: E731
            txt = f"export {s[1]} " + ("," + sp).join(
                n + (init(i) if s[1] == "const" or rng.random() < 0.5 else "") for i, n in enumerate(s[2])) + end
        elif k == "destr":
            txt = f"export const {{ {', '.join(s[1])} }} = o" + end
        elif k == "func":
            txt = f"export {s[1]}{s[2]}" + ("{}" if "class" in s[1] else "(){}")
        elif k == "list":
            txt = f"export{sp}{lst(s[1])}" + (f"{sp}from{sp}{q}{s[2]}{q}" if s[2] else "") + end
        elif k == "staras":
            txt = f"export{sp}*{sp}as {s[1]} from{sp}{q}{s[2]}{q}" + end
        elif k == "star":
            txt = f"export{sp}*{sp}from{sp}{q}{s[1]}{q}" + end
        elif k == "default":
            n = s[2] or ""
            txt = {"expr": "export default 0" + end, "obj": f"export default{sp}{{a: 1}}" + end,
                   "func": f"export default function {n}(){{}}", "class": f"export default class {n}{{}}",
                   "paren": f"export default{sp}(x)" + end}[s[1]]
        else:
            txt = s[1] % s[2]
        if tight and k == "local":
            txt += "" if txt.endswith(("}", ";")) else ";"
        out.append(txt + note())
    text = ("" if tight else "\n").join(out)
    if not tight and rng.random() < 0.3:
        text = "// Été → the module\n" + text
    return text + rng.choice(["", "\n", "\n//# sourceMappingURL=x.js.map\n"])


def relative(base, target, how):
    """one way in which a module at `base` can refer to `target`"""
    b, t = urlsplit(base), urlsplit(target)
    rest = target[len(f"{t.scheme}://{t.netloc}"):]
    if how == 0 or b.netloc != t.netloc or b.scheme != t.scheme or not rest:
        if how == 3 and b.scheme == t.scheme and t.path:
            return "//" + t.netloc + rest
        return target
    if how == 1 or not b.path:
        return rest
    up = b.path.split("/")[1:-1]
    down = t.path.split("/")[1:-1]
    same = 0
    while same < min(len(up), len(down)) and up[same] == down[same]:
        same += 1
    if how == 3:
        same = 0
    n = len(up) - same
    return ("../" * n if n else "./") + "/".join([*down[same:], rest.rsplit("?", 1)[0].rsplit("/", 1)[-1] if "?" in rest
                                                else rest.rsplit("/", 1)[-1]]) + ("?" + t.query if t.query else "")


# --------------------------------------------------------------------------- the run
class World:
    def __init__(self, plan, want_trace):
        self.plan, self.want_trace = plan, want_trace
        self.bad, self.trace, self.stats, self.shapes = [], [], {}, set()
        self.digest = hashlib.sha256()
        self.now, self.steps = 0.0, 0
        self.mods = plan["mods"]

    sim_time = property(lambda self: self.now)

    def ev(self, *a):
        line = json.dumps(a, default=str)
        self.digest.update(line.encode())
        if self.want_trace:
            self.trace.append(f"{self.now:9.3f} {line}")

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def violate(self, kind, msg):
        self.ev("violation", kind, msg)
        if len(self.bad) < 5:
            self.bad.append((kind, msg))

    # the network
    def sites(self):
        self.at = {}
        for i, m in self.mods.items():
            if m["kind"] != "url":
                continue
            self.at[self.key(m["loc"])] = ("mod", i)
            hops = [u for u, _ in m["alias"]] + [m["loc"]]
            for (u, code), to in zip(m["alias"], hops[1:]):
                self.at[self.key(u)] = ("hop", i, code, to)

    @staticmethod
    def key(url):
        p = urlsplit(requests.utils.requote_uri(url))
        return (p.scheme, p.netloc, p.path or "/", p.query)

    def send(self, adapter, request, stream=False, timeout=None, **kw):
        self.steps += 1
        self.requests += 1
        self.count("requests")
        if self.requests > 5000:
            self.violate("endless", "one import sent more than 5000 requests")
            raise Hang
        url = request.url
        read = timeout[1] if isinstance(timeout, tuple) else timeout
        connect = timeout[0] if isinstance(timeout, tuple) else timeout
        what = self.at.get(self.key(url))
        fault = self.net.get(what[1]) if what else None
        self.now += self.rng.choice([0.001, 0.02, 0.3, 2.0])
        self.ev("request", url, fault, what and what[0])
        ex = requests.exceptions
        if what and what[0] == "hop" and fault != "loop":
            to = what[3]
            a, b = urlsplit(url), urlsplit(to)
            if a.netloc == b.netloc and a.scheme == b.scheme and self.rng.random() < 0.5 and b.path:
                to = to[len(f"{b.scheme}://{b.netloc}"):]
            self.count("redirects")
            return self.answer(adapter, request, what[2], {"location": requests.utils.requote_uri(to)}, b"moved")
        if fault:
            self.count("fault_" + fault)
            self.failing = True
        if fault in ("stall", "connect"):
            limit = connect if fault == "connect" else read
            if limit is None:
                self.violate("hang", f"the request for {url} has no time limit and is never answered")
                raise Hang
            self.now += limit
            raise (ex.ConnectTimeout if fault == "connect" else ex.ReadTimeout)("timed out", request=request)
        if fault in ("refused", "dns", "reset"):
            raise ex.ConnectionError({"refused": "Connection refused", "dns": "Name or service not known",
                                      "reset": "Connection aborted"}[fault], request=request)
        if fault == "tls":
            raise ex.SSLError("certificate verify failed", request=request)
        if fault == "loop":
            return self.answer(adapter, request, 302, {"location": url}, b"")
        if not what:
            self.count("unknown_urls")
            return self.answer(adapter, request, 404, {}, b"export const NotFound = 1; export default null;")
        body = self.text[what[1]].encode()
        if fault == "status":
            err = b"export const NotFound = 1; export default null;\n" + body
            return self.answer(adapter, request, self.rng.choice([400, 403, 404, 410, 429, 500, 502, 503]), {}, err)
        if fault == "cut":
            return self.answer(adapter, request, 200, {}, body[: len(body) // 2],
                               urllib3.exceptions.IncompleteRead(len(body) // 2, len(body)))
        if fault == "slowbody":
            if read is None:
                self.violate("hang", f"the request for {url} has no time limit and its answer stops")
                raise Hang
            self.now += read
            return self.answer(adapter, request, 200, {}, body[: len(body) // 2],
                               urllib3.exceptions.ReadTimeoutError(None, url, "Read timed out."))
        if fault == "gzip":
            return self.answer(adapter, request, 200, {"content-encoding": "gzip"}, b"no gzip at all")
        return self.answer(adapter, request, 200, {"content-type": self.rng.choice(
            ["text/javascript", "application/javascript", "application/javascript; charset=utf-8", "text/plain"])}, body)

    def answer(self, adapter, request, status, headers, body, error=None):
        raw = io.BytesIO(body)
        if error is not None:
            class Raw(io.BytesIO):
                def read(self, n=-1):
                    data = super().read(n)
                    if not data:
                        raise error
                    return data
            raw = Raw(body)
        res = urllib3.HTTPResponse(body=raw, headers=headers, status=status, reason="X", preload_content=False,
                                   request_url=request.url)
        return adapter.build_response(request, res)

    # the model
    def url_of(self, i, alias):
        m = self.mods[i]
        return m["alias"][0][0] if alias and m["alias"] else m["loc"]

    def exports(self, i, depth, root, memo=None):
        memo = {} if memo is None else memo
        if (i, depth, root) in memo:
            return memo[i, depth, root]
        m = self.mods[i]
        memo[i, depth, root] = set()
        if depth <= 0 or (self.net.get(i) and self.net[i] != "garbled"):
            return set()
        out = {n for n in m["own"] if root or n != "default"}
        for ref in m["refs"]:
            if ref[0] == "mod":
                out |= self.exports(ref[1], depth - 1, False, memo)
        memo[i, depth, root] = out
        return out

    def path(self, i):
        return os.path.join(self.root, self.mods[i]["loc"])

    def place(self, net):
        """write the files as they are during one call"""
        for i, m in self.mods.items():
            if m["kind"] != "file":
                continue
            p = self.path(i)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if os.path.isdir(p):
                os.rmdir(p)
            elif os.path.exists(p):
                os.unlink(p)
            fault = net.get(i)
            if fault:
                self.count("fault_" + fault)
            if fault == "missing":
                continue
            if fault == "dir":
                os.mkdir(p)
                continue
            with open(p, "wb") as f:
                if fault == "garbled":
                    f.write(b"/* \xff\xfe caf\xe9 */\n")
                f.write(self.text[i].encode())

    def run(self):
        boot.seed_run(self.plan["seed"])
        self.rng = random.Random(self.plan["seed"])
        self.root = tempfile.mkdtemp(prefix="imports-", dir=boot.fast_dir())
        self.cached = {}
        self.sites()
        self.text = {}
        for i, m in sorted(self.mods.items()):
            refs = []
            for ref in m["refs"]:
                if ref[0] == "bare":
                    refs.append(ref[1])
                    continue
                t = self.mods[ref[1]]
                if t["kind"] == "file":
                    p = os.path.relpath(t["loc"], os.path.dirname(m["loc"]) or ".").replace(os.sep, "/")
                    refs.append(p if p.startswith(".") else "./" + p)
                elif m["kind"] == "file":
                    refs.append(self.url_of(ref[1], ref[2]))
                else:
                    refs.append(relative(m["loc"], self.url_of(ref[1], ref[2]), ref[3]))
            self.text[i] = emit(m, refs, random.Random(f"{self.plan['seed']}{i}"))
            self.ev("module", i, m["loc"], m["alias"], self.text[i])
        old_send, old_dir = HTTPAdapter.send, config.REACTPY_WEB_MODULES_DIR.current
        saved = {k: os.environ.pop(k) for k in list(os.environ) if k.lower().endswith("_proxy")}
        config.REACTPY_WEB_MODULES_DIR.current = type(old_dir)(os.path.join(self.root, "served"))
        HTTPAdapter.send = lambda adapter, request, **kw: self.send(adapter, request, **kw)
        caches = [v for k, v in vars(reactjs).items() if k.endswith("_MODULE_CACHE") and isinstance(v, dict)]
        try:
            for c in caches:
                c.clear()
            for n, op in enumerate(self.plan["ops"]):
                self.call(n, op)
                if self.bad:
                    break
        except Hang:
            pass
        finally:
            HTTPAdapter.send = old_send
            config.REACTPY_WEB_MODULES_DIR.current = old_dir
            os.environ.update(saved)
            for c in caches:
                c.clear()
            shutil.rmtree(self.root, ignore_errors=True)
        return self

    def call(self, n, op):
        i, m = op["root"], self.mods[op["root"]]
        self.net, self.requests, self.failing = op["net"], 0, False
        string = op["string"] and m["kind"] == "url" and not any(
            r[0] == "mod" for r in m["refs"])
        rng = random.Random(op["ask"])
        self.place(op["net"])
        if string:
            self.net = {k: v for k, v in op["net"].items() if k != i}
        found = self.exports(i, op["depth"], True)
        every = set()
        net, self.net = self.net, {}
        every = self.exports(i, op["depth"], True)
        self.net = net
        names = sorted(found)
        ask = []
        if names:
            ask = names if op.get("last") else rng.sample(names, rng.randint(1, min(3, len(names)))) if op["many"] else [rng.choice(names)]
        if op["miss"] or not ask:
            others = {x for o in self.mods.values() for x in o["own"] + o["local"]} | {"NotFound", "Nope", "default", "q", "react"}
            others -= found
            if not ask or op["many"]:
                ask = ask + [rng.choice(sorted(others))]
            else:
                ask = [rng.choice(sorted(others))]
            rng.shuffle(ask)
        asked = [a + ".Sub" if op["dotted"] and a != "default" and k == 0 else a for k, a in enumerate(ask)]
        arg = asked if op["many"] or len(asked) > 1 else asked[0]
        fallback = f"loading {n}" if op["fallback"] else None
        common = dict(resolve_imports=True, resolve_imports_depth=op["depth"], unmount_before_update=op["unmount"],
                      allow_children=op["children"], fallback=fallback)
        alias = op["alias"]
        key = (i, string, bool(alias and m["alias"]), op["depth"], op["unmount"])
        t0 = self.now
        self.count("imports")
        self.ev("import", n, i, arg, sorted(found), op["net"])
        boot.capture.records.clear()
        error = None
        try:
            if string:
                got = reactjs.component_from_string(self.text[i], arg, **common)
            elif m["kind"] == "file":
                # relative, so that names made from the path do not depend on the scratch directory
                cwd = os.getcwd()
                os.chdir(self.root)
                try:
                    got = reactjs.component_from_file(m["loc"], arg, **common)
                finally:
                    os.chdir(cwd)
            else:
                got = reactjs.component_from_url(self.url_of(i, alias), arg, **common)
        except Hang:
            raise
        except Exception as e:  # noqa: BLE001
            error = e
        self.ev("result", n, type(error).__name__, str(error).replace(self.root, "") if error else "", self.requests)
        self.shapes.add(repr((self.requests, sorted(self.net.values()), type(error).__name__)))
        missing = [a for a in ask if a not in found]
        broken = m["kind"] == "file" and not string and op["net"].get(i) in ("missing", "dir")
        if isinstance(error, ValueError) and type(error) is ValueError:
            if not missing and not broken:
                self.violate("not-found", f"import {n}: {arg} of {m['loc']} not found ({error}); the module exports "
                             f"{sorted(found)}: {self.text[i]!r}"[:900])
        elif error is not None:
            if not (broken and isinstance(error, OSError)):
                self.violate("raised", f"import {n} of {arg} from {m['loc']}: {type(error).__name__}: {error}"
                             .replace(self.root, "")[:600])
        else:
            ghost = [a for a in missing if a not in every or not self.cached.get(key)]
            if ghost:
                self.violate("ghost", f"import {n}: {ghost} imported from {m['loc']}, which exports {sorted(found)}: "
                             f"{self.text[i]!r}"[:900])
            self.cached[key] = True
            self.look(n, asked, got, arg, op, m, string, fallback, i, alias)
        if self.failing and not any(lv >= 30 for lv, *_ in boot.capture.records):
            self.violate("silent", f"import {n}: a module could not be fetched and nothing was logged")
        if self.requests and self.now - t0 > self.requests * 40:
            self.violate("slow", f"import {n} took {self.now - t0:.0f} s for {self.requests} requests")
        if missing:
            self.count("missing_names")
        self.count("found_names", len(ask) - len(missing))

    def look(self, n, asked, got, arg, op, m, string, fallback, i, alias):
        if (not isinstance(got, list)) != isinstance(arg, str):
            self.violate("shape", f"import {n}: {arg!r} gave {type(got).__name__}")
            return
        got = got if isinstance(got, list) else [got]
        if len(got) != len(asked):
            self.violate("shape", f"import {n}: {len(asked)} names gave {len(got)} components")
            return
        for name, ctor in zip(asked, got):
            try:
                v = ctor({"title": "x"}, "child") if op["children"] else ctor({"title": "x"})
            except Exception as e:  # noqa: BLE001
                self.violate("component", f"import {n}: {name} cannot be used: {e}")
                continue
            src = v.get("importSource") or {}
            want = {"unmountBeforeUpdate": op["unmount"], "fallback": fallback}
            if not string and m["kind"] == "url":
                want.update(source=self.url_of(i, alias), sourceType="URL")
            else:
                want.update(sourceType="NAME")
            wrong = {k: (src.get(k), w) for k, w in want.items() if src.get(k) != w}
            if v.get("tagName") != name or wrong:
                self.violate("component", f"import {n}: {name} became {v.get('tagName')!r} with {wrong} (got, wanted)")


def run(plan, want_trace=False):
    w = World(plan, want_trace).run()
    w.digest = w.digest.hexdigest() if hasattr(w.digest, "hexdigest") else w.digest
    return w


def judge(prop, plan, w):
    return w.bad


def nontrivial(prop, w):
    return w.stats.get("requests", 0) >= 2 and w.stats.get("found_names", 0) >= 1


def shrink(plan):
    ops = plan["ops"]
    for k in range(len(ops)):
        if len(ops) > 1:
            yield dict(plan, ops=ops[:k] + ops[k + 1:])
    used = {o["root"] for o in ops} | {r[1] for m in plan["mods"].values() for r in m["refs"] if r[0] == "mod"}
    for i in sorted(plan["mods"]):
        if i not in used:
            yield dict(plan, mods={k: v for k, v in plan["mods"].items() if k != i})
    for i, m in plan["mods"].items():
        for k in range(len(m["refs"])):
            yield dict(plan, mods={**plan["mods"], i: dict(m, refs=m["refs"][:k] + m["refs"][k + 1:])})
        if m["alias"]:
            yield dict(plan, mods={**plan["mods"], i: dict(m, alias=m["alias"][1:])})
    for k, o in enumerate(ops):
        for i in o["net"]:
            yield dict(plan, ops=[*ops[:k], dict(o, net={a: b for a, b in o["net"].items() if a != i}), *ops[k + 1:]])
