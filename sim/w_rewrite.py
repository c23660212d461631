"""The commands that rewrite a user's sources, run by simulated processes on a simulated disk.

The sources are generated together with what they have to mean afterwards. Every file system
call is a point where the scheduler may switch to a reader or to a second run of the command,
where the call may fail, transfer a few bytes only, or where the process dies."""
from __future__ import annotations

import ast
import contextlib
import hashlib
import io
import json
import os
import random
import re
import shutil
import stat
import sys
import tempfile
import tokenize

from sim import boot, w_fs
from sim.threads import Sched

from reactpy._console import rewrite_keys as m_keys  # noqa: E402
from reactpy._console import rewrite_props as m_props  # noqa: E402

real_open = w_fs.real_open

# ------------------------------------------------------------------ generated sources
KEYS = ["on_click", "class_name", "font_size", "data-x", "camelCase", "title", "aria_label_text",
        "tab_index", "style", "style", "on_é_x"]
RAWS = ["1", "None", "'x'", '"é → ü"', "name", "f'{name}: {name!r:>4}'", "'''two\n  lines # no\n'''",
        "load(user_id=1)", "store({'user_id': 2})", "sorted(xs, key=len)", "max('abc', key=len)",
        "object()", "input('? ')", "(lambda user_id=3: user_id)", "{'user_id': {'a_b': 1}}",
        "dict(user_id=4)", "xs[1:2]", "not name", "{*xs}", "x.html_like({'a_b': 1})",
        "store('s', {'a_b': 1})", "'ü' * 3", "rb'a\\n\"'", "not_html.div({'a_b': 1})",
        "min('abc', 'd', key=len)", "pick(key='a_b')", "'a' 'é' 'b'", "-1", "(yield_ := 5)"]
KWS = ["extra_arg=1", "**more", "user_key=key", "on_call=lambda key=1: key", "**{'key_b': 2}"]
ELS = ["html.div", "html.button", "reactpy.html.span", "html.svg.path", "div", "span", "vdom"]


def gen_value(r, depth):
    if depth > 0 and r.random() < 0.3:
        return gen_expr(r, depth - 1)
    return ["raw", r.choice(RAWS)]


def gen_props(r, depth, style=False):
    form = r.choice(["dict", "dict", "call"])
    items, seen = [], set()
    for _ in range(r.randint(0 if not style else 1, 3)):
        k = r.choice(KEYS)
        if k in seen or (form == "call" and not k.isidentifier()):
            continue
        seen.add(k)
        if k == "style" and not style:
            v = gen_props(r, 0, True) if r.random() < 0.8 else \
                ["raw", r.choice(["make_style(font_size=1)", "{**base, 'font_size': 2}",
                                  "base", "dict(base, font_size=3)", "styles['a_b']"])]
        else:
            v = gen_value(r, depth)
        items.append([k, v])
    return ["props", form, items, r.random() < 0.15]


def gen_el(r, depth):
    fn = r.choice(ELS)
    x = r.random()
    props = gen_props(r, depth) if x < 0.7 else ["raw", "attrs"] if x < 0.75 else None
    kids = [gen_value(r, depth - 1) if r.random() < 0.5 else gen_expr(r, depth - 1)
            for _ in range(r.choice([0, 0, 1, 2]))]
    key = gen_value(r, 0) if r.random() < 0.35 else None
    kws = [[r.choice(KWS) for _ in range(r.choice([0, 0, 1, 2]))] for _ in range(2)] \
        if r.random() < 0.3 else [[], []]
    kws[1] = [k for k in kws[1] if k not in kws[0]]
    if r.random() < 0.1:
        kids.append(["raw", "*xs"])
    return ["el", fn, props, kids, key, r.random() < 0.3, kws]


def gen_expr(r, depth):
    x = r.random()
    if depth <= 0 or x < 0.55:
        return gen_el(r, max(depth, 0)) if depth >= 0 else ["raw", r.choice(RAWS)]
    d = depth - 1
    kind = r.choice(["list", "tuple", "cond", "compr", "gen", "fcall", "lambda", "and", "paren",
                     "dict", "sub", "kwcall"])
    n = {"list": 3, "tuple": 2, "cond": 3, "fcall": 2, "and": 2, "dict": 2, "kwcall": 2}.get(kind, 1)
    return [kind, [gen_expr(r, d) if r.random() < 0.6 else gen_value(r, d) for _ in range(n)]]


def gen_stmts(r, depth, n=None):
    out = []
    for _ in range(n or r.randint(1, 3)):
        kind = r.choice(["assign", "assign", "expr", "def", "def", "if", "for", "with", "class",
                         "semi", "def1", "cont", "doc", "comment", "plain", "fstr", "ret", "if1",
                         "try", "match", "mfstr", "deco", "async", "typed"])
        d = r.choice([0, 1, 1, 2])
        if depth <= 0 and kind in ("def", "if", "for", "with", "class", "try", "match", "deco", "async"):
            kind = "assign"
        exprs = [gen_expr(r, d) for _ in range(3 if kind == "if" else 2)]
        body = [gen_stmts(r, depth - 1) for _ in range(3 if kind in ("if", "try") else 1)] \
            if kind in ("def", "if", "for", "with", "class", "try", "match", "deco", "async") else []
        out.append([kind, exprs, body, r.getrandbits(16)])
    return out


class Layout:
    """how the original is written down; the expected program is written plainly"""

    def __init__(self, rng):
        self.r, self.n, self.flat = rng, 0, 0

    def brk(self, default=""):
        """white space inside of brackets"""
        if self.r is None or self.flat or self.r.random() < 0.8:
            return default
        if self.r.random() < 0.3:
            return default + self.note() + "\n" + " " * self.r.choice([0, 2, 4, 8, 9])
        return "\n" + " " * self.r.choice([0, 2, 4, 8, 9])

    def note(self):
        self.n += 1
        return f"  # note{self.n} é {self.r.choice(['', 'x(', '] # y', chr(39)])}"


def conv(k):
    if "_" not in k:
        return k
    a, *rest = k.split("_")
    return a + "".join(x.title() for x in rest)


def emit_props(p, cmd, lay, style=False, extra=None, own=True):
    _, form, items, star = p
    parts = []
    for k, v in items:
        if k == "style" and not style:
            v = emit_props(v, cmd, lay, True, own=own) if v[0] == "props" else emit(v, cmd, lay)
            if cmd == "props" and own:
                # the literal forms are dictionaries too
                v = {"{**base, 'font_size': 2}": "{**base, 'fontSize': 2}",
                     "dict(base, font_size=3)": "dict(base, fontSize=3)"}.get(v, v)
        else:
            v = emit(v, cmd, lay) if v[0] != "props" else emit_props(v, cmd, lay, style)
        if cmd == "props" and own and not (style and k == "style"):
            k = conv(k)
        parts.append((k, v))
    if form == "dict":
        out = [f"{lay.brk()}{k!r}:{lay.brk(' ')}{v}" for k, v in parts]
        if star:
            out.append("**more")
        if extra is not None:
            out.append(f"'key': {extra}")
        return "{" + ", ".join(out) + lay.brk() + "}"
    out = [f"{lay.brk()}{k}={v}" for k, v in parts]
    if star:
        out.append("**more")
    if extra is not None:
        out.append(f"key={extra}")
    return "dict(" + ", ".join(out) + ")"


def emit_el(e, cmd, lay):
    _, fn, props, kids, key, trailing, kws = e
    args = ["'tag'"] if fn == "vdom" else []
    k = emit(key, cmd, lay) if key is not None else None
    own = not fn.startswith("html.svg.")  # these are left alone
    move = own and cmd == "keys" and k is not None and (
        props[0] == "props" if props is not None else
        not kids or (kids[0][0] == "raw" and is_const(kids[0][1])))
    if props is not None and props[0] == "props":
        args.append(emit_props(props, cmd, lay, extra=k if move else None, own=own))
    elif props is not None:
        args.append(emit(props, cmd, lay))
    elif move:
        args.append("{'key': " + k + "}")
    elif kids and not (kids[0][0] == "raw" and is_const(kids[0][1])):
        # what stands at the place of the properties must not look like them
        args.append("None")
    args += [emit(c, cmd, lay) for c in kids]
    args += dict.fromkeys(kws[0])
    if k is not None and not move:
        args.append(f"key={k}")
    args += dict.fromkeys(kws[1])
    inner = f",{lay.brk(' ')}".join(args)
    return f"{fn}({lay.brk()}{inner}{',' if trailing and args else ''}{lay.brk()})"


CONST = {}


def is_const(text):
    if text not in CONST:
        n = ast.parse(f"f({text.strip()})", mode="eval").body.args[0]
        CONST[text] = isinstance(n, (ast.Constant, ast.JoinedStr))
    return CONST[text]


def emit(e, cmd, lay):
    kind = e[0]
    if kind == "raw":
        return e[1]
    if kind == "el":
        # None in front of the children is a constant: the key is moved before it
        if e[2] is None and e[3] and not (e[3][0][0] == "raw" and is_const(e[3][0][1])):
            e = [*e[:3], [["raw", "None"], *e[3]], *e[4:]]
        return emit_el(e, cmd, lay)
    if kind == "props":
        return emit_props(e, cmd, lay)
    x = [emit(c, cmd, lay) for c in e[1]]
    b = lay.brk
    if kind == "list":
        return f"[{b()}" + f",{b(' ')}".join(x) + f"{b()}]"
    if kind == "tuple":
        return f"({b()}{x[0]},{b(' ')}{x[1]}{b()})"
    if kind == "cond":
        return f"({b()}{x[0]}{b(' ')} if {x[1]}{b(' ')} else {x[2]})"
    if kind == "compr":
        return f"[{b()}{x[0]}{b(' ')} for name in xs if{b(' ')} name]"
    if kind == "gen":
        return f"list({b()}{x[0]}{b(' ')} for name in xs)"
    if kind == "fcall":
        return f"wrap({b()}{x[0]},{b(' ')}*[{x[1]}], a_b=1)"
    if kind == "kwcall":
        return f"wrap(a_b={x[0]},{b(' ')}c_d={b()}{x[1]})"
    if kind == "lambda":
        return f"(lambda a_b=1: {x[0]})"
    if kind == "and":
        return f"({x[0]}{b(' ')} and not {x[1]})"
    if kind == "dict":
        return "{" + f"{b()}'a_b': {x[0]},{b(' ')}'c_d':{b(' ')}{x[1]}" + "}"
    if kind == "sub":
        return f"items[{b()}{x[0]}].a_b"
    return f"({b()}{x[0]}{b()})"


def emit_stmts(stmts, cmd, lay, unit, depth=0):
    pad = unit * depth
    out = []

    def block(b):
        out.extend(emit_stmts(b, cmd, lay, unit, depth + 1))

    def note():
        if lay.r is not None and lay.r.random() < 0.15:
            return lay.note()
        return ""

    for kind, exprs, body, bits in stmts:
        flat = kind in ("fstr", "mfstr")
        lay.flat += flat
        x = [emit(e, cmd, lay) for e in exprs]
        p = [emit(e, None, lay) for e in exprs] if flat else x
        lay.flat -= flat
        if kind == "mfstr":
            x[1] = emit(exprs[1], cmd, lay)
        y = bits % 7
        add = lambda s: out.append(pad + s)  # noqa: E731
        if kind == "assign":
            add(f"é_{y} = {x[0]}" + note())
        elif kind == "typed":
            add(f"v_{y}: 'int' = {x[0]}" + note())
        elif kind == "expr":
            add(x[0] + note())
        elif kind == "ret":
            add(f"fn_{y} = lambda: {x[0]}" + note())
        elif kind == "semi":
            add(f"a = 'é'; b = {x[0]}; c = {x[1]}" + note())
        elif kind == "cont":
            add("total = 'ü' + \\\n" + pad + unit + x[0] + note())
        elif kind == "doc":
            add('"""A text, é,\n' + pad + "  that goes on. # not a comment\n" + pad + '"""')
        elif kind == "comment":
            if lay.r is not None:
                add(f"# about_this html.div({{'a_b': 1}}) {y}")
            add("pass")
        elif kind == "plain":
            add(f"x_{y} = store(user_id={y})" + note())
        elif kind == "fstr" and not re.search(r'["\\\n]', p[0]):
            add(f'f = f"a{{ {x[0]} }}b"' + note())
        elif kind == "mfstr" and not re.search(r"""["\\]|'''""", p[0]):
            add(f'm = f"""first\n line {{ {x[0]} }} é\n last"""' + (f"; k = {x[1]}" if y % 2 else "") + note())
        elif kind in ("fstr", "mfstr"):
            add(f"n = {x[0]}")
        elif kind == "def1":
            add(f"def f_{y}(a={x[0]}, *, b=1): return {x[1]}" + note())
        elif kind == "if1":
            add(f"if {x[0]}: t = {x[1]}" + note())
            if y % 2:
                add(f"else: t = {x[1]}" + note())
        elif kind in ("def", "deco", "async"):
            if kind == "deco":
                add(f"@component({x[1]})" + note())
            elif y % 2:
                add("@component")
            out.append(pad + f"{'async ' * (kind == 'async')}def g_{y}(a_b=1, c={x[0]}):" + note())
            if y % 3 == 0:
                out.append(pad + unit + '"""Does é.\n\n' + pad + unit + '  # all of it\n' + pad + unit + '"""')
            block(body[0])
            out.append(pad + unit + f"return {x[1]}" + note())
        elif kind == "class":
            add(f"class C_{y}(Base, a_b={x[0]}):" + note())
            block(body[0])
        elif kind == "if":
            add(f"if {x[0]}:" + note())
            block(body[0])
            add(f"elif {x[1]}:" + note())
            block(body[1])
            add("else:" + note())
            block(body[2])
        elif kind == "for":
            add(f"for a_b in {x[0]}:" + note())
            block(body[0])
            if y % 2:
                add("else:")
                out.append(pad + unit + x[1])
        elif kind == "with":
            add(f"with use({x[0]}) as a_b, use({x[1]}):" + note())
            block(body[0])
        elif kind == "try":
            add("try:" + note())
            block(body[0])
            add(f"except find({x[0]}) as a_b:" + note())
            block(body[1])
            add("finally:")
            block(body[2])
        elif kind == "match":
            add(f"match {x[0]}:" + note())
            out.append(pad + unit + f"case {{'a_b': 1}} if {x[1]}:" + note())
            out.extend(emit_stmts(body[0], cmd, lay, unit, depth + 2))
            out.append(pad + unit + "case _: pass")
    return out


def source(f, cmd, rng):
    lay = Layout(rng)
    lines = emit_stmts(f["stmts"], cmd, lay, f["unit"])
    return "\n".join(lines) + "\n"


def dump(text):
    return ast.dump(ast.parse(text))


# ------------------------------------------------------------------ plans
NAMES = ["a.py", "b.py", "pkg/c.py", "pkg/deep/d.py", "pkg/é.py"]


def gen_file(r, name):
    f = {"name": name, "seed": r.getrandbits(32), "kind": "py", "mode": r.choice([0o644, 0o600, 0o755]),
         "unit": r.choice(["    ", "    ", "  ", "\t"]), "stmts": gen_stmts(r, 2),
         "enc": r.choice(["utf-8"] * 6 + ["bom", "latin-1"]), "crlf": r.random() < 0.1,
         "nonl": r.random() < 0.1, "link": r.random() < 0.1}
    x = r.random()
    if x < 0.06:
        f["kind"] = "invalid"
    elif x < 0.1:
        f["kind"] = "binary"
    elif x < 0.2:
        f["kind"] = "other"  # not a Python file
    return f


def gen(rng, prop):
    cmd = rng.choice(["props", "props", "keys"])
    names = rng.sample(NAMES, rng.randint(1, 4))
    calm = rng.random() < 0.3
    procs = []
    for i in range(rng.choice([1, 1, 2])):
        p = {"start": rng.choice([0, 0, 0.01]), "crash": None, "errors": [], "stall": [],
             "args": rng.choice([["."], ["."], ["pkg", "a.py"], [".", "a.py"], ["b.py", "a.py"]])}
        if not calm:
            if rng.random() < 0.4:
                p["crash"] = rng.randint(1, 120)
            if rng.random() < 0.4:
                p["errors"] = [[rng.randint(1, 120), rng.choice(["ENOSPC", "EIO", "EMFILE"])]
                               for _ in range(rng.randint(1, 2))]
        procs.append(p)
    return {"seed": rng.getrandbits(32), "cmd": cmd, "files": [gen_file(rng, n) for n in names],
            "procs": procs, "readers": rng.choice([0, 1, 2]),
            "locale": rng.choice(["utf-8", "utf-8", "ascii", "latin-1", "cp1252"]),
            "odd": rng.choice([None] * 8 + ["dir", "dangling"]),
            "switch": rng.choice([0.1, 0.5, 1.0]), "threads": False, "jumps": [], "grain": 0}


def shrink(plan):
    def cp():
        return json.loads(json.dumps(plan))

    for k in ("files", "procs"):
        for i in range(len(plan[k])):
            if len(plan[k]) > 1:
                p = cp()
                p[k].pop(i)
                yield p
    for i, pr in enumerate(plan["procs"]):
        for k, v in (("crash", None), ("errors", []), ("start", 0), ("args", ["."])):
            if pr[k] != v:
                p = cp()
                p["procs"][i][k] = v
                yield p
    for k, v in (("readers", 0), ("locale", "utf-8"), ("odd", None)):
        if plan[k] != v:
            p = cp()
            p[k] = v
            yield p
    for i, f in enumerate(plan["files"]):
        for k, v in (("unit", "    "), ("enc", "utf-8"), ("crlf", False), ("nonl", False),
                     ("link", False), ("mode", 0o644)):
            if f[k] != v:
                p = cp()
                p["files"][i][k] = v
                yield p
        for path in stmt_paths(f["stmts"]):
            p = cp()
            at = p["files"][i]["stmts"]
            for j in path[:-1]:
                at = at[j]
            if len(at) > 1:
                at.pop(path[-1])
                yield p
        for path in expr_paths(f["stmts"]):
            for new in simpler(get(f["stmts"], path)):
                p = cp()
                at = p["files"][i]["stmts"]
                for j in path[:-1]:
                    at = at[j]
                at[path[-1]] = new
                yield p


def get(x, path):
    for j in path:
        x = x[j]
    return x


def stmt_paths(stmts, pre=()):
    for i, (_, _, body, _) in enumerate(stmts):
        yield (*pre, i)
        for j, b in enumerate(body):
            yield from stmt_paths(b, (*pre, i, 2, j))


def expr_paths(stmts):
    for path in stmt_paths(stmts):
        for k in range(len(get(stmts, path)[1])):
            yield from sub_paths(get(stmts, (*path, 1, k)), (*path, 1, k))


def sub_paths(e, pre):
    yield pre
    if e[0] == "el":
        if e[2] is not None:
            yield from sub_paths(e[2], (*pre, 2))
        for i in range(len(e[3])):
            yield from sub_paths(e[3][i], (*pre, 3, i))
        if e[4] is not None:
            yield from sub_paths(e[4], (*pre, 4))
    elif e[0] == "props":
        for i in range(len(e[2])):
            yield from sub_paths(e[2][i][1], (*pre, 2, i, 1))
    elif e[0] != "raw":
        for i in range(len(e[1])):
            yield from sub_paths(e[1][i], (*pre, 1, i))


def simpler(e):
    if e[0] == "raw":
        if e[1] != "1":
            yield ["raw", "1"]
        return
    if e[0] == "props":
        for i in range(len(e[2])):
            yield [e[0], e[1], e[2][:i] + e[2][i + 1:], e[3]]
        if e[3]:
            yield [*e[:3], False]
        return
    yield ["raw", "1"]
    if e[0] == "el":
        if e[3]:
            yield [*e[:3], e[3][1:], *e[4:]]
            if e[3][0] != ["raw", "*xs"]:
                yield e[3][0]
        if e[4] is not None:
            yield [*e[:4], None, *e[5:]]
        if e[5]:
            yield [*e[:5], False, e[6]]
        for i in (0, 1):
            if e[6][i]:
                yield [*e[:6], [*e[6][:i], e[6][i][1:], *e[6][i + 1:]]]
        if e[1] != "html.div":
            yield ["el", "html.div", *e[2:]]
        return
    yield from e[1]


# ------------------------------------------------------------------ the run
class World(w_fs.World):
    def file(self, f):
        """the bytes of a file and what it has to mean when it has been rewritten"""
        text = source(f, None, random.Random(f["seed"]))
        want = source(f, self.plan["cmd"], None)
        plain = source(f, None, None)
        if f["kind"] == "invalid":
            text += "def (:\n"
        if f["nonl"]:
            text = text[:-1]
        data, enc = text, "utf-8"
        if f["enc"] == "latin-1" and f["kind"] == "py":
            data, enc = "# -*- coding: latin-1 -*-\n" + text, "latin-1"
            if "→" in data:
                data = data.replace("→", "»")
                want, plain = want.replace("→", "»"), plain.replace("→", "»")
        raw = data.encode(enc)
        if f["enc"] == "bom":
            raw = b"\xef\xbb\xbf" + raw
        if f["crlf"]:
            raw = raw.replace(b"\n", b"\r\n")
        if f["kind"] == "binary":
            raw = b"x = '\xff\xfe'\n" + raw
        ok = f["kind"] == "py"
        if ok and dump(decode(raw)) != dump(plain):
            raise RuntimeError("the generator disagrees with itself")
        return {"raw": raw, "want": dump(want) if ok else None, "changes": ok and dump(want) != dump(plain),
                "notes": sorted(set(re.findall(r"# note\d+|# about_this", data)) -
                                set()) if ok else []}

    def path(self, name):
        return os.path.join(self.root, "tree", *name.split("/"))

    def run(self):
        plan = self.plan
        boot.seed_run(plan["seed"])
        self.root = tempfile.mkdtemp(prefix="verif-rw-", dir=boot.fast_dir())
        self.locale = plan["locale"]
        rng = random.Random(plan["seed"])
        self.sched = Sched(rng, plan["switch"], max_steps=60000, max_time=3000)
        self.seen_new, self.messy = {}, False
        try:
            os.makedirs(os.path.join(self.root, "tmp"))
            os.makedirs(os.path.join(self.root, "tree", "pkg"))
            os.makedirs(os.path.join(self.root, "elsewhere"))
            self.files = {}
            for f in plan["files"]:
                self.put(f)
            odd = self.path("pkg/odd.py")
            if plan["odd"] == "dir":
                os.makedirs(odd)
            elif plan["odd"]:
                os.symlink(os.path.join(self.root, "elsewhere", "nothing"), odd)
            if plan["locale"] != "utf-8":
                self.count("fault_locale")
            self.clean = all(f["kind"] not in ("invalid", "binary") for f in plan["files"])
            w_fs.CUR = self
            out = io.StringIO()
            with w_fs.Seam(), contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                for i, pr in enumerate(plan["procs"]):
                    self.spawn(f"p{i}", self.command(pr["args"], False), pr, pr["start"])
                for i in range(plan["readers"]):
                    self.spawn(f"r{i}", self.reader(i))
                self.sched.on_step = self.after
                self.sched.run()
                self.check_all("after the first runs")
                self.errors()
                if not self.sched.stuck:
                    self.again()
            if self.sched.stuck:
                self.violate("stuck", f"{self.sched.stuck} at {self.sched.now:.1f} s")
        finally:
            w_fs.CUR = None
            for buf in self.buffers:
                with contextlib.suppress(Exception):
                    if not buf.closed:
                        buf.detach()
            self.buffers.clear()
            shutil.rmtree(self.root, ignore_errors=True)
        self.digest = self.hash.hexdigest()
        self.sim_time = self.sched.now
        self.steps = self.sched.steps
        return self

    def put(self, f):
        d = self.file(f)
        name = f["name"] if f["kind"] != "other" else f["name"][:-3] + ".txt"
        path = at = self.path(name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if f["link"]:
            at = os.path.join(self.root, "elsewhere", f["name"].replace("/", "-"))
            os.symlink(at, path)
        with real_open(at, "wb") as o:
            o.write(d["raw"])
        os.chmod(at, f["mode"])
        self.files[name] = {**d, "path": path, "at": at, "mode": f["mode"], "link": f["link"]}

    def command(self, args, last):
        mod, name = (m_props, "rewrite_props") if self.plan["cmd"] == "props" else \
            (m_keys, "rewrite_keys")

        def body(t):
            paths = [self.path(a) if a != "." else os.path.join(self.root, "tree") for a in args]
            self.ev(t.name, "start", *args)
            # a command that is given a missing path refuses to start
            paths = [p for p in paths if os.path.lexists(p)]
            try:
                getattr(mod, name).main(args=paths, standalone_mode=False)
            except Exception as e:  # noqa: BLE001
                self.count("commands_failed")
                self.ev(t.name, "failed", type(e).__name__, str(e).replace(self.root, ""))
                t.failed = True
                if self.clean and not t.hurt:
                    self.violate("failed", f"the command failed: {type(e).__name__}: "
                                 f"{str(e).replace(self.root, '')[:200]}")
                return
            self.count("commands")
            self.ev(t.name, "done")
        return body

    def reader(self, i):
        def body(t):
            r = random.Random(self.plan["seed"] + i)
            for _ in range(8):
                name = r.choice(sorted(self.files))
                try:
                    with real_open(self.files[name]["path"], "rb") as f:
                        data = f.read()
                except FileNotFoundError:
                    self.violate("lost", f"a reader finds no {name}")
                    return
                self.count("reads")
                self.check(name, data, "a reader")
                for _ in range(r.choice([1, 3, 9])):
                    self.sched.point(True)
        return body

    def check(self, name, data, who):
        f = self.files[name]
        if data == f["raw"]:
            return False
        if data in self.seen_new.get(name, ()):
            return True
        if not f["changes"]:
            self.violate("touched", f"{who}: {name} needs no change and was changed: "
                         f"{diff(f['raw'], data)}")
            return True
        try:
            text = decode(data)
            got = dump(text)
        except (SyntaxError, UnicodeDecodeError, ValueError) as e:
            self.violate("partial", f"{who}: {name} has {len(data)} bytes that are no Python "
                         f"source ({e}); {diff(f['raw'], data)}")
            return True
        if got != f["want"]:
            self.violate("meaning", f"{who}: {name} means something else: {diff(f['raw'], data)}")
            return True
        for n in f["notes"]:
            if n not in text:
                self.violate("comment", f"{who}: the comment {n!r} of {name} is gone")
        enc = lambda b: tokenize.detect_encoding(io.BytesIO(b).readline)[0]  # noqa: E731
        if enc(data) != enc(f["raw"]):
            self.violate("encoding", f"{who}: the encoding of {name} was {enc(f['raw'])} and is {enc(data)}")
        self.seen_new.setdefault(name, set()).add(data)
        return True

    def check_all(self, who):
        new = {}
        for name, f in sorted(self.files.items()):
            try:
                with real_open(f["at"], "rb") as o:
                    data = o.read()
                st = os.lstat(f["path"])
                mode = stat.S_IMODE(os.stat(f["at"]).st_mode)
            except FileNotFoundError:
                self.violate("lost", f"{who}: {name} is gone")
                continue
            if stat.S_ISLNK(st.st_mode) != f["link"]:
                self.violate("link", f"{who}: {name} is no link any more")
            if mode != f["mode"]:
                self.violate("mode", f"{who}: the mode of {name} was {f['mode']:o} and is {mode:o}")
            new[name] = self.check(name, data, who)
        self.messy |= any(t.dead for t in self.sched.tasks)
        if not self.messy:
            known = {self.path("pkg/odd.py")} | {f["path"] for f in self.files.values()} | {f["at"] for f in self.files.values()}
            for d in ("tree", "elsewhere"):
                for at, _, names in os.walk(os.path.join(self.root, d)):
                    for n in names:
                        if os.path.join(at, n) not in known:
                            self.violate("rest", f"{who}: {n} was left behind")
        return new

    def again(self):
        """the faults are over: the command is run for every file, twice"""
        first = self.sched
        for k in range(2):
            before = {n: (os.stat(f["at"]).st_ino, os.stat(f["at"]).st_mtime_ns)
                      for n, f in self.files.items() if os.path.exists(f["at"])}
            s = Sched(random.Random(1), 0.0, max_steps=first.steps + 60000, max_time=first.now + 60)
            s.steps, s.now = self.sched.steps, self.sched.now
            self.sched = s
            t = self.spawn(f"again{k}", self.command(["."], True))
            s.run()
            self.hash_state(t)
            if s.stuck:
                return
            new = self.check_all(f"after run {k + 1} without faults")
            if self.bad or not self.clean:
                return
            for n, f in sorted(self.files.items()):
                if f["changes"] and not new[n] and n.endswith(".py"):
                    self.violate("unchanged", f"{n} was not rewritten by a run without faults")
                if k and before[n] != (os.stat(f["at"]).st_ino, os.stat(f["at"]).st_mtime_ns):
                    self.violate("again", f"{n} was written again though nothing was left to change")
        self.tasks = first.tasks

    def hash_state(self, t):
        self.count("completions")
        if t.error is not None:
            self.violate("failed", f"{type(t.error).__name__}: {t.error}")

    def errors(self):
        for t in self.sched.tasks:
            if t.error is not None:
                self.violate("failed", f"{t.name}: {type(t.error).__name__}: {t.error}")
        self.shapes.add(repr([(t.name[0], t.dead, t.calls // 10) for t in self.sched.tasks]))

    def after(self, t):
        if t.done and t.dead:
            for fd in t.fds:
                with contextlib.suppress(OSError):
                    w_fs.real["close"](fd)
            t.fds.clear()


def decode(raw):
    return raw.decode(tokenize.detect_encoding(io.BytesIO(raw).readline)[0]).replace("\r\n", "\n")


def diff(a, b):
    a, b = (x.decode("utf-8", "replace").splitlines() for x in (a, b))
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    j = 0
    while j < min(len(a), len(b)) - i and a[-1 - j] == b[-1 - j]:
        j += 1
    return f"line {i + 1}: {a[i:len(a) - j]!r} -> {b[i:len(b) - j]!r}"[:900]


def run(plan, want_trace=False):
    return World(plan, want_trace).run()


def judge(prop, plan, w):
    return w.bad


def nontrivial(prop, w):
    return w.stats.get("commands", 0) >= 2 and any(f["changes"] for f in w.files.values())
