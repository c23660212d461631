"""A page for Python code that runs in the browser: a small DOM, morphdom (a port of its
algorithm) and the parts of pyodide and pyscript that reactpy's PyScript executor uses."""
from __future__ import annotations

import re
import sys
import types

NODE_IDS = iter(range(1, 1 << 62))


def js_str(v):
    if v is True:
        return "true"
    if v is False:
        return "false"
    if v is None:
        return "undefined"
    if isinstance(v, float) and v.is_integer():
        return str(int(v))
    return str(v)


def kebab(k):
    return re.sub("[A-Z]", lambda m: "-" + m.group().lower(), k)


class JsError(Exception):
    pass


class Proxy:
    """a Python function that JavaScript may keep"""

    live = 0

    def __init__(self, fn):
        self.fn, self.alive = fn, True
        Proxy.live += 1

    def __call__(self, *a):
        if not self.alive:
            raise JsError("This borrowed proxy was automatically destroyed")
        return self.fn(*a)

    def destroy(self):
        if not self.alive:
            raise JsError("Object has already been destroyed")
        self.alive = False
        Proxy.live -= 1


class Style:
    def __init__(self):
        object.__setattr__(self, "props", {})

    def __setattr__(self, k, v):
        v = js_str(v) if v is not None else ""
        if v == "":
            self.props.pop(kebab(k), None)
        else:
            self.props[kebab(k)] = v

    def __getattr__(self, k):
        return self.props.get(kebab(k), "")

    def setProperty(self, k, v):
        self.__setattr__(k, v)

    def removeProperty(self, k):
        self.props.pop(kebab(k), None)

    __setitem__ = __setattr__

    def __getitem__(self, k):
        return self.__getattr__(k)

    @property
    def cssText(self):
        return "".join(f"{k}: {v};" for k, v in self.props.items())


class Dataset:
    def __init__(self, el):
        object.__setattr__(self, "_el", el)

    def __getattr__(self, k):
        return self._el.attrs.get("data-" + kebab(k))

    def __setattr__(self, k, v):
        self._el.setAttribute("data-" + kebab(k), v)


class Node:
    nodeType = 0
    nodeName = ""

    def __init__(self):
        self.parentNode = None
        self.childNodes = []
        self.js_id = next(NODE_IDS)

    @property
    def parentElement(self):
        p = self.parentNode
        return p if p is not None and p.nodeType == 1 else None

    @property
    def firstChild(self):
        return self.childNodes[0] if self.childNodes else None

    @property
    def lastChild(self):
        return self.childNodes[-1] if self.childNodes else None

    def _sibling(self, d):
        if self.parentNode is None:
            return None
        c = self.parentNode.childNodes
        i = next(i for i, n in enumerate(c) if n is self) + d
        return c[i] if 0 <= i < len(c) else None

    @property
    def nextSibling(self):
        return self._sibling(1)

    @property
    def previousSibling(self):
        return self._sibling(-1)

    @property
    def isConnected(self):
        n = self
        while n.parentNode is not None:
            n = n.parentNode
        return isinstance(n, Document)

    def contains(self, other):
        while other is not None:
            if other is self:
                return True
            other = other.parentNode
        return False

    def isSameNode(self, other):
        return self is other

    def hasChildNodes(self):
        return bool(self.childNodes)

    def remove(self):
        if self.parentNode is not None:
            self.parentNode.childNodes = [n for n in self.parentNode.childNodes if n is not self]
            self.parentNode = None

    def insertBefore(self, node, ref):
        if node.contains(self):
            raise JsError("The new child element contains the parent.")
        node.remove()
        i = len(self.childNodes) if ref is None else next(
            i for i, n in enumerate(self.childNodes) if n is ref)
        self.childNodes.insert(i, node)
        node.parentNode = self
        return node

    def appendChild(self, node):
        return self.insertBefore(node, None)

    def append(self, *nodes):
        for n in nodes:
            self.appendChild(n if isinstance(n, Node) else Text(js_str(n)))

    def removeChild(self, node):
        if node.parentNode is not self:
            raise JsError("The node to be removed is not a child of this node.")
        node.remove()
        return node

    def replaceChild(self, new, old):
        ref = old.nextSibling
        if ref is new:
            ref = new.nextSibling
        self.removeChild(old)
        self.insertBefore(new, ref)
        return old

    def replaceChildren(self, *nodes):
        for n in list(self.childNodes):
            n.remove()
        self.append(*nodes)

    def replaceWith(self, *nodes):
        p, ref = self.parentNode, self.nextSibling
        self.remove()
        for n in nodes:
            p.insertBefore(n, ref)

    @property
    def textContent(self):
        return "".join(n.textContent for n in self.childNodes)

    @textContent.setter
    def textContent(self, v):
        self.replaceChildren(*([Text(js_str(v))] if v else []))

    def walk(self):
        for c in list(self.childNodes):
            yield c
            yield from c.walk()


class Text(Node):
    nodeType, nodeName = 3, "#text"

    def __init__(self, data):
        super().__init__()
        self.nodeValue = js_str(data)

    @property
    def data(self):
        return self.nodeValue

    @data.setter
    def data(self, v):
        self.nodeValue = js_str(v)

    @property
    def textContent(self):
        return self.nodeValue

    @textContent.setter
    def textContent(self, v):
        self.nodeValue = js_str(v)

    def cloneNode(self, deep=False):
        return Text(self.nodeValue)


class Element(Node):
    nodeType = 1

    def __init__(self, tag):
        super().__init__()
        self.localName = tag.lower()
        self.tagName = self.nodeName = tag.upper()
        self.attrs = {}
        self.style = Style()
        self.listeners = []
        self.namespaceURI = "http://www.w3.org/1999/xhtml"
        self._value = None

    # attributes
    def setAttribute(self, k, v):
        k = js_str(k).lower()
        if not re.fullmatch(r"[^\s\"'>/=]+", k):
            raise JsError(f"'{k}' is not a valid attribute name.")
        if k == "style":
            self.style.props.clear()
            for part in js_str(v).split(";"):
                a, _, b = part.partition(":")
                if a.strip():
                    self.style.props[a.strip()] = b.strip()
        else:
            self.attrs[k] = js_str(v)

    def getAttribute(self, k):
        k = k.lower()
        if k == "style":
            return self.style.cssText or None
        return self.attrs.get(k)

    def hasAttribute(self, k):
        return self.getAttribute(k) is not None

    def removeAttribute(self, k):
        k = k.lower()
        if k == "style":
            self.style.props.clear()
        self.attrs.pop(k, None)

    def toggleAttribute(self, k, force=None):
        on = force if force is not None else not self.hasAttribute(k)
        self.setAttribute(k, "") if on else self.removeAttribute(k)
        return on

    def getAttributeNames(self):
        return [*self.attrs, *(["style"] if self.style.props else [])]

    @property
    def attributes(self):
        return [types.SimpleNamespace(name=k, value=self.getAttribute(k))
                for k in self.getAttributeNames()]

    @property
    def id(self):
        return self.attrs.get("id", "")

    @id.setter
    def id(self, v):
        self.setAttribute("id", v)

    @property
    def className(self):
        return self.attrs.get("class", "")

    @className.setter
    def className(self, v):
        self.setAttribute("class", v)

    @property
    def dataset(self):
        return Dataset(self)

    @property
    def value(self):
        return self._value if self._value is not None else self.attrs.get("value", "")

    @value.setter
    def value(self, v):
        self._value = js_str(v)

    def _bool(name):  # noqa: N805
        return property(lambda s: name in s.attrs,
                        lambda s, v: s.toggleAttribute(name, bool(v)))

    disabled = _bool("disabled")
    checked = _bool("checked")
    hidden = _bool("hidden")
    selected = _bool("selected")

    @property
    def children(self):
        return [c for c in self.childNodes if c.nodeType == 1]

    @property
    def childElementCount(self):
        return len(self.children)

    @property
    def firstElementChild(self):
        return next(iter(self.children), None)

    @property
    def nextElementSibling(self):
        n = self.nextSibling
        while n is not None and n.nodeType != 1:
            n = n.nextSibling
        return n

    def cloneNode(self, deep=False):
        e = Element(self.localName)
        e.attrs = dict(self.attrs)
        e.style.props.update(self.style.props)
        if deep:
            for c in self.childNodes:
                e.appendChild(c.cloneNode(True))
        return e

    # events
    def addEventListener(self, name, fn, *opts):
        if not isinstance(fn, Proxy):
            p = Proxy(fn)
            p.destroy()  # a function that is not kept by a proxy is gone after the call
            fn = p
        if (name, fn) not in self.listeners:
            self.listeners.append((name, fn))

    def removeEventListener(self, name, fn, *opts):
        self.listeners = [x for x in self.listeners if x != (name, fn)]

    # search
    def _match(self, sel):
        if sel.startswith("."):
            return sel[1:] in self.className.split()
        if sel.startswith("#"):
            return self.id == sel[1:]
        if sel.startswith("["):
            k, _, v = sel[1:-1].partition("=")
            return self.hasAttribute(k) and (not v or self.getAttribute(k) == v.strip("'\""))
        return sel == "*" or self.localName == sel.lower()

    matches = _match

    def querySelectorAll(self, sel):
        sels = [s.strip() for s in sel.split(",")]
        return [n for n in self.walk() if n.nodeType == 1 and any(n._match(s) for s in sels)]

    def querySelector(self, sel):
        return next(iter(self.querySelectorAll(sel)), None)

    def getElementsByTagName(self, tag):
        return self.querySelectorAll(tag)


class Document(Node):
    nodeType, nodeName = 9, "#document"

    def __init__(self):
        super().__init__()
        self.documentElement = self.appendChild(Element("html"))
        self.head = self.documentElement.appendChild(Element("head"))
        self.body = self.documentElement.appendChild(Element("body"))

    def createElement(self, tag, *a):
        if not re.fullmatch(r"[A-Za-z][^\s/>]*", tag):
            raise JsError(f"'{tag}' is not a valid name.")
        return Element(tag)

    def createElementNS(self, ns, tag):
        return Element(tag)

    def createTextNode(self, s):
        return Text(s)

    def getElementById(self, i):
        return next((n for n in self.walk() if n.nodeType == 1 and n.id == i), None)

    def querySelectorAll(self, sel):
        return self.documentElement.querySelectorAll(sel)

    def querySelector(self, sel):
        return self.documentElement.querySelector(sel)


class Event:
    def __init__(self, name, target):
        self.type, self.target, self.currentTarget = name, target, None
        self.defaultPrevented = False
        self.stopped = False
        self.bubbles = True

    def preventDefault(self):
        self.defaultPrevented = True

    def stopPropagation(self):
        self.stopped = True

    stopImmediatePropagation = stopPropagation


def dispatch(el, name, on_error):
    ev = Event(name, el)
    n = el
    while n is not None and n.nodeType == 1 and not ev.stopped:
        ev.currentTarget = n
        for k, fn in list(n.listeners):
            if k == name:
                try:
                    fn(ev)
                except Exception as e:  # noqa: BLE001
                    on_error(e)
        n = n.parentNode
    return ev


# ------------------------------------------------------------------ morphdom
def _opt(options, name):
    if options is None:
        return None
    return options.get(name) if isinstance(options, dict) else getattr(options, name, None)


def morphdom(from_node, to_node, options=None):
    get_key = _opt(options, "getNodeKey") or (
        lambda n: (n.attrs.get("id") or None) if n.nodeType == 1 else None)
    before_el = _opt(options, "onBeforeElUpdated") or (lambda a, b: True)
    before_children = _opt(options, "onBeforeElChildrenUpdated") or (lambda a, b: True)
    before_added = _opt(options, "onBeforeNodeAdded") or (lambda n: n)
    before_discard = _opt(options, "onBeforeNodeDiscarded") or (lambda n: True)
    added = _opt(options, "onNodeAdded") or (lambda n: None)
    discarded = _opt(options, "onNodeDiscarded") or (lambda n: None)
    updated = _opt(options, "onElUpdated") or (lambda n: None)
    children_only = bool(_opt(options, "childrenOnly"))
    lookup, removals = {}, []

    def names_equal(a, b):
        return a.nodeName == b.nodeName

    def index(node):
        for c in node.childNodes:
            if c.nodeType == 1:
                k = get_key(c)
                if k:
                    lookup[k] = c
                index(c)

    def remove_node(node, parent, skip_keyed):
        if before_discard(node) is False:
            return
        if parent is not None:
            parent.removeChild(node)
        discarded(node)
        walk_discarded(node, skip_keyed)

    def walk_discarded(node, skip_keyed):
        if node.nodeType == 1:
            for c in list(node.childNodes):
                k = get_key(c) if skip_keyed else None
                if k:
                    removals.append(k)
                else:
                    discarded(c)
                    walk_discarded(c, skip_keyed)

    def handle_added(el):
        added(el)
        c = el.firstChild
        while c is not None:
            nxt = c.nextSibling
            k = get_key(c)
            if k:
                unmatched = lookup.get(k)
                if unmatched is not None and names_equal(c, unmatched):
                    c.parentNode.replaceChild(unmatched, c)
                    morph_el(unmatched, c)
                else:
                    handle_added(c)
            else:
                handle_added(c)
            c = nxt

    def morph_attrs(a, b):
        for k in b.getAttributeNames():
            if a.getAttribute(k) != b.getAttribute(k):
                a.setAttribute(k, b.getAttribute(k))
        for k in a.getAttributeNames():
            if not b.hasAttribute(k):
                a.removeAttribute(k)

    def morph_el(a, b, only_children=False):
        k = get_key(b)
        if k:
            lookup.pop(k, None)
        if not only_children:
            r = before_el(a, b)
            if r is False:
                return
            morph_attrs(a, b)
            updated(a)
            if before_children(a, b) is False:
                return
        if a.nodeName != "TEXTAREA":
            morph_children(a, b)
        else:
            if a.value != b.value:
                a.value = b.value
            if a.firstChild is not None:
                a.firstChild.nodeValue = b.value
            elif b.firstChild is not None:
                a.appendChild(Text(b.textContent))

    def morph_children(a, b):
        to = b.firstChild
        cur = a.firstChild
        cur_key = None
        while to is not None:
            to_next = to.nextSibling
            to_key = get_key(to)
            matched = False
            while cur is not None:
                nxt = cur.nextSibling
                if to is cur:
                    to, cur = to_next, nxt
                    matched = True
                    break
                cur_key = get_key(cur)
                compatible = None
                if cur.nodeType == to.nodeType:
                    if cur.nodeType == 1:
                        if to_key:
                            if to_key != cur_key:
                                m = lookup.get(to_key)
                                if m is not None:
                                    if nxt is m:
                                        compatible = False
                                    else:
                                        a.insertBefore(m, cur)
                                        if cur_key:
                                            removals.append(cur_key)
                                        else:
                                            remove_node(cur, a, True)
                                        cur = m
                                        cur_key = get_key(cur)
                                else:
                                    compatible = False
                        elif cur_key:
                            compatible = False
                        compatible = compatible is not False and names_equal(cur, to)
                        if compatible:
                            morph_el(cur, to)
                    elif cur.nodeType in (3, 8):
                        compatible = True
                        if cur.nodeValue != to.nodeValue:
                            cur.nodeValue = to.nodeValue
                if compatible:
                    to, cur = to_next, nxt
                    matched = True
                    break
                if cur_key:
                    removals.append(cur_key)
                else:
                    remove_node(cur, a, True)
                cur = nxt
            if matched:
                continue
            m = lookup.get(to_key) if to_key else None
            if m is not None and names_equal(m, to):
                a.appendChild(m)
                morph_el(m, to)
            else:
                r = before_added(to)
                if r is not False:
                    if isinstance(r, Node):
                        to = r
                    a.appendChild(to)
                    handle_added(to)
            to = to_next
            cur = None
        while cur is not None:
            nxt = cur.nextSibling
            cur_key = get_key(cur)
            if cur_key:
                removals.append(cur_key)
            else:
                remove_node(cur, a, True)
            cur = nxt
        if a.nodeName == "INPUT":
            for k in ("checked", "disabled"):
                if getattr(a, k) != getattr(b, k):
                    setattr(a, k, getattr(b, k))
            if a.value != b.value:
                a.value = b.value
            if not b.hasAttribute("value"):
                a.removeAttribute("value")

    index(from_node)
    morphed = from_node
    if not children_only and not names_equal(from_node, to_node):
        morphed = Element(to_node.localName)
        for c in list(from_node.childNodes):
            morphed.appendChild(c)
    morph_el(morphed, to_node, children_only)
    for k in removals:
        el = lookup.get(k)
        if el is not None:
            remove_node(el, el.parentNode, False)
    if morphed is not from_node and from_node.parentNode is not None:
        from_node.parentNode.replaceChild(morphed, from_node)
    return morphed


# ------------------------------------------------------------------ pyodide and pyscript
class Browser:
    """installs the modules that exist only in the browser"""

    def __init__(self):
        js = types.ModuleType("js")
        js.document = None
        js.window = js
        js.console = types.SimpleNamespace(log=lambda *a: None, error=lambda *a: None,
                                           warn=lambda *a: None)
        self.js = js
        pyodide = types.ModuleType("pyodide")
        ffi = types.ModuleType("pyodide.ffi")
        wrappers = types.ModuleType("pyodide.ffi.wrappers")
        ffi.create_proxy = Proxy
        ffi.to_js = lambda x, **k: x
        ffi.JsProxy = Node
        ffi.wrappers, pyodide.ffi = wrappers, ffi
        self.registered = {}

        def add_event_listener(elt, event, listener):
            # as pyodide does it
            proxy = Proxy(listener)
            self.registered[(elt.js_id, event, listener)] = proxy
            elt.addEventListener(event, proxy)

        def remove_event_listener(elt, event, listener):
            proxy = self.registered.pop((elt.js_id, event, listener))
            elt.removeEventListener(event, proxy)
            proxy.destroy()

        wrappers.add_event_listener = add_event_listener
        wrappers.remove_event_listener = remove_event_listener
        wrappers.EVENT_LISTENERS = self.registered
        pyscript = types.ModuleType("pyscript")
        mods = types.ModuleType("pyscript.js_modules")
        mods.morphdom = types.SimpleNamespace(default=morphdom)
        pyscript.js_modules, pyscript.ffi = mods, ffi
        pyscript.document = None
        for m in (js, pyodide, ffi, wrappers, pyscript, mods):
            sys.modules[m.__name__] = m

    def page(self):
        self.js.document = Document()
        sys.modules["pyscript"].document = self.js.document
        self.registered.clear()
        Proxy.live = 0
        return self.js.document
