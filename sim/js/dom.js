"use strict";
// A small DOM: trees, attributes, events with bubbling, form fields with a user side and a
// program side, custom elements. Everything internal is behind symbols, so that the client's
// conversion of events to JSON sees what a browser would show it (in miniature).
const S = (n) => Symbol(n);
const kids = S("kids"), parent = S("parent"), doc = S("doc"), L = S("l"), own = S("own"), val = S("value"), dirty = S("dirty"),
  listeners = S("listeners"), styles = S("style"), root = S("root"), setStyle = S("setStyle"), connected = S("connected");

const ran = Symbol("ran");
function makeDom(hooks) {
  class EventTarget {
    addEventListener(type, f, capture = false) {
      const l = this[L] || Object.defineProperty(this, L, { value: [], enumerable: false })[L];
      capture = !!(typeof capture === "object" ? capture?.capture : capture);
      if (f && !l.some((x) => x.type === type && x.f === f && x.capture === capture)) l.push({ type, f, capture });
    }
    removeEventListener(type, f, capture = false) {
      capture = !!(typeof capture === "object" ? capture?.capture : capture);
      const l = this[L];
      if (!l) return;
      const i = l.findIndex((x) => x.type === type && x.f === f && x.capture === capture);
      if (i >= 0) l.splice(i, 1);
    }
    dispatchEvent(e) {
      const path = [];
      for (let n = this; n; n = n[parent]) path.push(n);
      e.target = this;
      const call = (n, phase) => {
        for (const x of [...(n[L] || [])]) {
          if (x.type !== e.type || (phase === "capture") !== x.capture) continue;
          if (e[own].immediate) return;
          e.currentTarget = n;
          try { x.f.call(n, e); } catch (err) { hooks.error(err); }
        }
      };
      for (const n of [...path].reverse()) { if (!e[own].stop) call(n, "capture"); }
      for (const n of path) { if (!e[own].stop) call(n, "bubble"); if (!e.bubbles) break; }
      e.currentTarget = null;
      return !e.defaultPrevented;
    }
  }
  class Event {
    constructor(type, init = {}) {
      Object.defineProperty(this, own, { value: { stop: false, immediate: false, prevented: false } });
      this.type = type;
      this.target = null;
      this.currentTarget = null;
      this.bubbles = init.bubbles ?? false;
      this.cancelable = init.cancelable ?? true;
      for (const k in init) this[k] = init[k];
    }
    get defaultPrevented() { return this[own].prevented; }
    preventDefault() { if (this.cancelable) { this[own].prevented = true; if (this[own].onPrevent) this[own].onPrevent(); } }
    stopPropagation() { this[own].stop = true; }
    stopImmediatePropagation() { this[own].stop = this[own].immediate = true; }
  }
  class MessageEvent extends Event {}
  class CloseEvent extends Event {}

  class Node extends EventTarget {
    constructor() {
      super();
      Object.defineProperty(this, kids, { value: [], writable: true });
      Object.defineProperty(this, parent, { value: null, writable: true });
      Object.defineProperty(this, listeners, { value: undefined, writable: true });
      Object.defineProperty(this, root, { value: undefined, writable: true });
    }
    get parentNode() { return this[parent]; }
    get parentElement() { return this[parent] instanceof Element ? this[parent] : null; }
    get childNodes() { return [...this[kids]]; }
    get firstChild() { return this[kids][0] || null; }
    get lastChild() { return this[kids][this[kids].length - 1] || null; }
    get nextSibling() { const p = this[parent]; return p ? p[kids][p[kids].indexOf(this) + 1] || null : null; }
    get previousSibling() { const p = this[parent]; return p ? p[kids][p[kids].indexOf(this) - 1] || null : null; }
    get isConnected() { let n = this; while (n[parent]) n = n[parent]; return n === document; }
    get ownerDocument() { return document; }
    contains(n) { for (; n; n = n[parent]) if (n === this) return true; return false; }
    insertBefore(n, ref) {
      if (ref != null && ref[parent] !== this) throw new Error("NotFoundError: insertBefore");
      if (n.contains(this)) throw new Error("HierarchyRequestError");
      const was = n.isConnected;
      if (n[parent]) n[parent][kids].splice(n[parent][kids].indexOf(n), 1);
      n[parent] = this;
      if (ref == null) this[kids].push(n); else this[kids].splice(this[kids].indexOf(ref), 0, n);
      if (was) walk(n, "disconnectedCallback");
      if (this.isConnected) { walk(n, "connectedCallback"); if (n[own] && n[own].tag === "script" && !n[ran]) { n[ran] = true; if (hooks.script) hooks.script(n); } }
      return n;
    }
    appendChild(n) { return this.insertBefore(n, null); }
    removeChild(n) {
      if (n[parent] !== this) throw new Error("NotFoundError: removeChild");
      const was = n.isConnected;
      this[kids].splice(this[kids].indexOf(n), 1);
      n[parent] = null;
      if (was) walk(n, "disconnectedCallback");
      return n;
    }
    remove() { if (this[parent]) this[parent].removeChild(this); }
    replaceChild(n, o) { this.insertBefore(n, o); return this.removeChild(o); }
    get textContent() { return this[kids].map((k) => k.textContent).join(""); }
    set textContent(v) { for (const k of [...this[kids]]) this.removeChild(k); if (v !== "") this.appendChild(new Text(v)); }
  }
  // the reactions of custom elements are those of the tree at the moment of the change
  function walk(n, cb) {
    const all = [];
    (function collect(x) { if (typeof x[cb] === "function") all.push(x); for (const k of x[kids]) collect(k); })(n);
    for (const x of all) { try { x[cb](); } catch (e) { hooks.error(e); } }
  }
  class Text extends Node {
    constructor(data = "") { super(); this.data = String(data); }
    get nodeType() { return 3; }
    get nodeName() { return "#text"; }
    get textContent() { return this.data; }
    set textContent(v) { this.data = String(v); }
    get nodeValue() { return this.data; }
    set nodeValue(v) { this.data = String(v); }
  }
  class CSSStyleDeclaration {}
  class Element extends Node {
    constructor(tag) {
      super();
      Object.defineProperty(this, own, { value: { tag: (tag || "").toLowerCase(), attrs: new Map() } });
      Object.defineProperty(this, styles, { value: new CSSStyleDeclaration() });
    }
    get nodeType() { return 1; }
    get tagName() { return this[own].tag.toUpperCase(); }
    get nodeName() { return this.tagName; }
    get localName() { return this[own].tag; }
    get children() { return this[kids].filter((k) => k instanceof Element); }
    get style() { return this[styles]; }
    [setStyle](o) { for (const k of Object.keys(this[styles])) if (!(k in o)) delete this[styles][k]; Object.assign(this[styles], o); }
    get id() { return this.getAttribute("id") || ""; }
    get className() { return this.getAttribute("class") || ""; }
    getAttribute(n) { const v = this[own].attrs.get(n); return v === undefined ? null : v; }
    hasAttribute(n) { return this[own].attrs.has(n); }
    setAttribute(n, v) { this[own].attrs.set(n, String(v)); if (n === "value" && !this[dirty]) this[val] = String(v); }
    removeAttribute(n) { this[own].attrs.delete(n); }
    getAttributeNames() { return [...this[own].attrs.keys()]; }
    get attributes() { return [...this[own].attrs].map(([name, value]) => ({ name, value })); }
    set innerHTML(v) { this.textContent = String(v); }
    get innerHTML() { return this.textContent; }
    focus() {}
    blur() {}
    matches() { return false; }
  }
  for (const t of ["click", "dblclick", "input", "change", "keydown", "keyup", "keypress", "submit", "focus", "blur", "focusin", "focusout", "mousedown", "mouseup", "mouseenter", "mouseleave", "pointerdown", "select", "scroll"])
    Object.defineProperty(Element.prototype, "on" + t, { value: null, writable: true, configurable: true });
  class HTMLElement extends Element {}
  // (for ... of works on forms and selects: they are lists of what they contain)
  class HTMLFormElement extends HTMLElement { get length() { return this.elements.length; } [Symbol.iterator]() { return this.elements[Symbol.iterator](); } get elements() { const o = []; const rec = (n) => { for (const k of n[kids]) { if (k[own] && /^(input|select|textarea|button)$/.test(k[own].tag)) o.push(k); rec(k); } }; rec(this); return o; } }
  class Field extends HTMLElement {
    constructor(tag) {
      super(tag);
      for (const k of [val, dirty]) Object.defineProperty(this, k, { value: k === val ? "" : false, writable: true });
    }
  }
  class HTMLInputElement extends Field {
    get type() { return this.getAttribute("type") || (this[own].tag === "textarea" ? "textarea" : "text"); }
    get checked() { return !!this[own].checked; }
    set checked(v) { this[own].checked = !!v; }
  }
  class HTMLTextAreaElement extends Field { get type() { return "textarea"; } }
  Object.defineProperty(Field.prototype, "value", {
    enumerable: true, configurable: true,
    get() { return this[val]; },
    set(v) { v = v === null ? "" : String(v); this[dirty] = true; const before = this[val]; this[val] = v; hooks.programWrite(this, before, v); },
  });
  Object.defineProperty(HTMLInputElement.prototype, "checked", { enumerable: true });
  class HTMLSelectElement extends HTMLElement {
    constructor(tag) { super(tag); Object.defineProperty(this, val, { value: undefined, writable: true }); }
    get type() { return "select-one"; }
    get length() { return this.options.length; }
    [Symbol.iterator]() { return this.options[Symbol.iterator](); }
    get options() { const o = []; const rec = (n) => { for (const k of n[kids]) { if (k[own] && k[own].tag === "option") o.push(k); else rec(k); } }; rec(this); return o; }
  }
  for (const C of [HTMLSelectElement, HTMLFormElement]) Object.defineProperty(C.prototype, "length", { enumerable: true });
  for (const C of [Field, HTMLSelectElement]) Object.defineProperty(C.prototype, "name", { enumerable: true, configurable: true, get() { return this.getAttribute("name") || ""; } });
  const optValue = (o) => (o.hasAttribute("value") ? o.getAttribute("value") : o.textContent);
  Object.defineProperty(HTMLSelectElement.prototype, "value", {
    enumerable: true, configurable: true,
    get() {
      const os = this.options;
      const chosen = this[val] && os.includes(this[val]) ? this[val] : this[val] === null ? null : os[0];
      return chosen ? optValue(chosen) : "";
    },
    set(v) {
      const before = this.value;
      this[val] = this.options.find((o) => optValue(o) === String(v)) || null;
      hooks.programWrite(this, before, String(v));
    },
  });
  class HTMLOptionElement extends HTMLElement {}
  Object.defineProperty(HTMLOptionElement.prototype, "value", { enumerable: true, configurable: true, get() { return optValue(this); }, set(v) { this.setAttribute("value", v); } });

  const registry = new Map();
  const customElements = {
    define(n, c) { if (registry.has(n)) throw new Error("NotSupportedError: already defined"); registry.set(n, c); },
    get: (n) => registry.get(n),
  };
  class Document extends Node {
    constructor() { super(); }
    get nodeType() { return 9; }
    createElement(tag) {
      const C = registry.get(tag);
      if (C) { const e = new C(tag); e[own].tag = tag; return e; }
      const K = { input: HTMLInputElement, textarea: HTMLTextAreaElement, select: HTMLSelectElement, option: HTMLOptionElement, form: HTMLFormElement }[tag] || HTMLElement;
      return new K(tag);
    }
    createElementNS(_, tag) { return this.createElement(tag); }
    createTextNode(d) { return new Text(d); }
    getElementById(id) { let f = null; const rec = (n) => { for (const k of n[kids]) { if (k[own] && k.id === id && !f) f = k; rec(k); } }; rec(this); return f; }
    get hidden() { return hooks.hidden(); }
    get visibilityState() { return hooks.hidden() ? "hidden" : "visible"; }
  }
  const document = new Document();
  document.__listeners = listeners; document.__style = setStyle; document.__root = root;
  const html = document.appendChild(document.createElement("html"));
  document.head = html.appendChild(document.createElement("head"));
  document.body = html.appendChild(document.createElement("body"));
  document.documentElement = html;
  class Window extends EventTarget {}
  class CSSStyleSheet {}
  return {
    EventTarget, Event, MessageEvent, CloseEvent, Node, Text, Element, HTMLElement, HTMLFormElement, HTMLInputElement, HTMLSelectElement,
    HTMLTextAreaElement, CSSStyleDeclaration, CSSStyleSheet, Document, Window, document, customElements,
    // the user's side of a field
    userSet(el, v) {
      if (el instanceof HTMLSelectElement) el[val] = el.options.find((o) => optValue(o) === v) || el[val];
      else { el[dirty] = true; el[val] = v; }
    },
    attrsOf: (el) => Object.fromEntries([...el[own].attrs].sort(([a], [b]) => (a < b ? -1 : 1))),
    styleOf: (el) => ({ ...el[styles] }),
    kidsOf: (n) => n[kids],
    listenerCount(n) { let c = (n[L] || []).length; for (const k of n[kids]) c += this.listenerCount(k); return c; },
    onPrevent(e, f) { e[own].onPrevent = f; },
  };
}
module.exports = { makeDom };
