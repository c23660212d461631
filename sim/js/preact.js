// A small re-implementation of Preact 10 (core, hooks and the parts of compat that matter for
// the client): same matching of children, same batching in a microtask, effects after paint or
// before the component's next render, state updates that change nothing are skipped, uncontrolled
// DOM listeners through one proxy, onChange of text fields mapped to the input event.
export const Fragment = (props) => props.children;
export const options = {};
let vnodeId = 0;
const EMPTY = [];

function mk(type, props, key, ref) {
  return { type, props, key, ref, _id: ++vnodeId, _c: null, _dom: null, _children: null, _parent: null, _depth: 0, constructor: undefined };
}
export function createElement(type, props, ...children) {
  const p = {};
  let key, ref;
  for (const i in props) {
    if (i === "key") key = props[i];
    else if (i === "ref" && typeof type !== "function") ref = props[i];
    else p[i] = props[i];
  }
  if (children.length) p.children = children.length === 1 ? children[0] : children;
  if (typeof type === "function" && type.defaultProps)
    for (const i in type.defaultProps) if (p[i] === undefined) p[i] = type.defaultProps[i];
  return mk(type, compatProps(type, p), key, ref);
}
export const h = createElement;
export function jsx(type, props, key) {
  const p = { ...props };
  let ref;
  if ("ref" in p && typeof type !== "function") { ref = p.ref; delete p.ref; }
  return mk(type, compatProps(type, p), key, ref);
}
export const jsxs = jsx, jsxDEV = jsx;
export function cloneElement(v, props, ...children) {
  return createElement(v.type, { ...v.props, key: v.key, ref: v.ref, ...props }, ...(children.length ? children : [].concat(v.props.children ?? [])));
}
export const isValidElement = (v) => v != null && v.constructor === undefined;
export const createRef = () => ({ current: null });
export function toChildArray(c, out = []) {
  if (c == null || typeof c === "boolean") return out;
  if (Array.isArray(c)) c.forEach((x) => toChildArray(x, out)); else out.push(c);
  return out;
}

function compatProps(type, props) {
  if (typeof type !== "string") return props;
  const out = {};
  for (let i in props) {
    const v = props[i];
    const low = i.toLowerCase();
    if (i === "value" && "defaultValue" in props && v == null) continue;
    if (i === "defaultValue" && "value" in props && props.value == null) i = "value";
    else if (low === "ondoubleclick") i = "ondblclick";
    else if (low === "onchange" && (type === "input" || type === "textarea") && !/^(fil|che|rad)/.test(props.type || "")) {
      i = "oninput";
      if (out[i]) i = "oninputCapture";
    } else if (low === "oninput" && (type === "input" || type === "textarea")) {
      i = "oninput";
      if (out[i]) i = "oninputCapture";
    } else if (low === "onfocus") i = "onfocusin";
    else if (low === "onblur") i = "onfocusout";
    out[i] = v;
  }
  return out;
}

// ---------------------------------------------------------------- reconciler
function coerce(child, depth) {
  if (child == null || typeof child === "boolean" || typeof child === "function") return null;
  if (typeof child === "string" || typeof child === "number" || typeof child === "bigint")
    return mk(null, String(child), null, null);
  if (Array.isArray(child)) return mk(Fragment, { children: child }, null, null);
  if (child.constructor !== undefined) return null;
  if (child._depth > 0) { const v = mk(child.type, child.props, child.key, child.ref); v._id = child._id; return v; }
  return child;
}
function flatDoms(v, out = []) {
  if (!v) return out;
  if (typeof v.type === "function") { for (const c of v._children || EMPTY) flatDoms(c, out); }
  else if (v._dom) out.push(v._dom);
  return out;
}
function findMatch(v, old, skewed, remaining, matched) {
  const at = old[skewed];
  const same = (o) => o && !matched.has(o) && (v.key ?? null) === (o.key ?? null) && v.type === o.type;
  if ((at === null && v.key == null) || same(at)) return skewed;
  if (remaining > (at != null && !matched.has(at) ? 1 : 0)) {
    let x = skewed - 1, y = skewed + 1;
    while (x >= 0 || y < old.length) {
      if (x >= 0) { if (same(old[x])) return x; x--; }
      if (y < old.length) { if (same(old[y])) return y; y++; }
    }
  }
  return -1;
}
function diffChildren(parentDom, results, parent, oldChildren, commit) {
  const matched = new Set();
  const kids = results.map((r) => coerce(r, parent._depth));
  let skew = 0, remaining = oldChildren.length;
  const pairs = [];
  kids.forEach((v, i) => {
    if (!v) { pairs.push(null); return; }
    v._parent = parent;
    v._depth = parent._depth + 1;
    const skewed = i + skew;
    const m = findMatch(v, oldChildren, skewed, remaining, matched);
    let old = null;
    if (m !== -1) {
      old = oldChildren[m];
      remaining--;
      if (old) matched.add(old);
    }
    if (old == null) { if (m === -1) { if (kids.length > oldChildren.length) skew--; else if (kids.length < oldChildren.length) skew++; } }
    else if (m !== skewed) {
      if (m === skewed - 1) skew--;
      else if (m === skewed + 1) skew++;
      else { if (m > skewed) skew--; else skew++; }
    }
    pairs.push(old);
  });
  for (const o of oldChildren) if (o && !matched.has(o)) unmount(o, false, commit);
  kids.forEach((v, i) => {
    if (!v) return;
    const old = pairs[i];
    diff(parentDom, v, old, commit);
    const oldRef = old && old.ref;
    if (v.ref && v.ref !== oldRef) { if (oldRef) applyRef(oldRef, null); commit.refs.push([v.ref, v._c || v._dom]); }
    else if (!v.ref && oldRef) applyRef(oldRef, null);
  });
  parent._children = kids;
}
function place(parentDom, parent, oldRange) {
  // put the DOM nodes of the subtree in order, after what precedes them
  const doms = [];
  for (const c of parent._children || EMPTY) flatDoms(c, doms);
  let next = oldRange;
  for (let i = doms.length - 1; i >= 0; i--) {
    const d = doms[i];
    if (d.parentNode !== parentDom || d.nextSibling !== next) parentDom.insertBefore(d, next);
    next = d;
  }
}
function applyRef(ref, v) { if (typeof ref === "function") ref(v); else if (ref) ref.current = v; }

function diff(parentDom, v, old, commit) {
  if (old && old._id === v._id) {
    v._children = old._children; v._dom = old._dom; v._c = old._c;
    if (v._c) v._c._vnode = v;
    (v._children || EMPTY).forEach((c) => { if (c) c._parent = v; });
    if (!(v._c && v._c._dirty)) return;
  }
  if (typeof v.type === "function") return diffComponent(parentDom, v, old, commit);
  if (v.type === null) {
    if (old) { v._dom = old._dom; if (old.props !== v.props) v._dom.data = v.props; }
    else v._dom = document.createTextNode(v.props);
    return;
  }
  const dom = (v._dom = old ? old._dom : document.createElement(v.type));
  const op = old ? old.props : {}, np = v.props;
  for (const i in op) if (!(i in np) && i !== "children" && i !== "key" && i !== "value" && i !== "checked") setProperty(dom, i, null, op[i]);
  for (const i in op) if (!(i in np) && (i === "value" || i === "checked")) setProperty(dom, i, null, op[i]);
  for (const i in np) {
    if (i === "children" || i === "key" || i === "value" || i === "checked" || typeof np[i] === "function" && !i.startsWith("on")) continue;
    if (np[i] !== op[i]) setProperty(dom, i, np[i], op[i]);
  }
  diffChildren(dom, toArr(np.children), v, (old && old._children) || EMPTY, commit);
  place(dom, v, null);
  if ("value" in np && np.value !== undefined && (np.value !== dom.value || (v.type === "option" && np.value !== op.value))) setProperty(dom, "value", np.value, op.value);
  if ("checked" in np && np.checked !== undefined && np.checked !== dom.checked) setProperty(dom, "checked", np.checked, op.checked);
}
const toArr = (c) => (Array.isArray(c) ? c : c === undefined ? [] : [c]);

function setProperty(dom, name, value, oldValue) {
  if (name[0] === "o" && name[1] === "n") {
    const useCapture = name !== (name = name.replace(/(PointerCapture)$|Capture$/i, "$1"));
    const low = name.toLowerCase();
    name = low in dom || name === "onFocusOut" || name === "onFocusIn" ? low.slice(2) : name.slice(2);
    const l = dom[document.__listeners] || (dom[document.__listeners] = {});
    l[name + useCapture] = value;
    if (value) { if (!oldValue) dom.addEventListener(name, useCapture ? eventProxyCapture : eventProxy, useCapture); }
    else dom.removeEventListener(name, useCapture ? eventProxyCapture : eventProxy, useCapture);
    return;
  }
  if (name === "style" && (typeof value === "object" || typeof oldValue === "object")) {
    dom[document.__style](value || {});
    return;
  }
  if (name === "dangerouslySetInnerHTML") { dom.innerHTML = value ? value.__html : ""; return; }
  if (["value", "checked", "disabled"].includes(name) && name in dom) { dom[name] = value == null ? "" : value; if (name !== "disabled") return; }
  if (typeof value === "function") return;
  if (name === "className") name = "class";
  if (name === "htmlFor") name = "for";
  if (value != null && (value !== false || name[4] === "-")) dom.setAttribute(name, value === true && name[4] !== "-" ? "" : value);
  else dom.removeAttribute(name);
}
function eventProxy(e) { const f = this[document.__listeners]?.[e.type + false]; if (f) return f.call(this, e); }
function eventProxyCapture(e) { const f = this[document.__listeners]?.[e.type + true]; if (f) return f.call(this, e); }

function unmount(v, skipRemove, commit) {
  if (v.ref) applyRef(v.ref, null);
  const c = v._c;
  if (c) {
    c._unmounted = true;
    c._parentDom = null;
    for (const hk of c._hooks) { if (hk._cleanup) { const f = hk._cleanup; hk._cleanup = undefined; guard(f); } }
    for (const ctx of c._subs) ctx.delete(c);
    if (c._contextSubs) c._contextSubs.clear();
  }
  const remove = !skipRemove && v._dom && typeof v.type !== "function";
  for (const k of v._children || EMPTY) if (k) unmount(k, skipRemove || remove, commit);
  if (remove && v._dom.parentNode) v._dom.parentNode.removeChild(v._dom);
}
function guard(f) { try { f(); } catch (e) { setTimeout(() => { throw e; }); } }

export class Component {
  constructor(props) { this.props = props; }
  setState(s) { this.state = { ...this.state, ...(typeof s === "function" ? s(this.state, this.props) : s) }; if (this._host) enqueue(this._host); }
  forceUpdate() { if (this._host) enqueue(this._host); }
  render() { return this.props.children; }
}

let current = null, hookIndex = 0;
function diffComponent(parentDom, v, old, commit) {
  let c = old && old._c;
  let fresh = false;
  if (!c) {
    fresh = true;
    c = { _hooks: [], _pending: [], _layout: [], _dirty: true, _subs: new Set(), _unmounted: false, _inst: null };
  }
  v._c = c;
  c._vnode = v;
  c._parentDom = parentDom;
  // nothing but state may have changed
  let update = fresh || c._force || !old || old.props !== v.props || old._id !== v._id;
  for (const hk of c._hooks) if (hk._next) {
    const before = hk._value[0];
    hk._value = hk._next; hk._next = undefined;
    if (before !== hk._value[0]) update = true;
  }
  c._force = false;
  c._dirty = false;
  if (!update && v.type._memo) update = false;
  if (!update) {
    v._children = old._children;
    (v._children || EMPTY).forEach((k) => { if (k) k._parent = v; });
    return;
  }
  if (v.type._memo && !fresh && old !== v && old.props !== v.props && shallow(old.props, v.props) && !c._stateChanged) {
    v._children = old._children;
    (v._children || EMPTY).forEach((k) => { if (k) k._parent = v; });
    return;
  }
  c._stateChanged = false;
  let out, count = 0;
  do {
    c._again = false;
    const pend = c._pending; c._pending = [];
    if (count === 0) { pend.forEach(cleanup); pend.forEach(runEffect); }
    current = c; hookIndex = 0;
    c._rendering = true;
    if (v.type.prototype && v.type.prototype.render) {
      if (!c._inst) { c._inst = new v.type(v.props); c._inst._host = c; }
      c._inst.props = v.props;
      out = c._inst.render(v.props, c._inst.state);
    } else out = v.type(v.props);
    c._rendering = false;
    current = null;
    for (const hk of c._hooks) if (hk._next) { hk._value = hk._next; hk._next = undefined; }
  } while (c._again && ++count < 25);
  for (const hk of c._hooks) { if (hk._pendingArgs !== undefined) { hk._args = hk._pendingArgs; hk._pendingArgs = undefined; } }
  if (out != null && out.type === Fragment && out.key == null) out = out.props.children;
  diffChildren(parentDom, Array.isArray(out) ? out : [out], v, (old && old._children) || EMPTY, commit);
  commit.comps.push(c);
  if (c._pending.length) afterPaint(c);
}
function shallow(a, b) {
  for (const i in a) if (!(i in b)) return false;
  for (const i in b) if (a[i] !== b[i]) return false;
  return true;
}
function finish(commit) {
  for (const [r, x] of commit.refs) applyRef(r, x);
  for (const c of commit.comps) {
    const l = c._layout; c._layout = [];
    l.forEach(cleanup); l.forEach(runEffect);
  }
}
function cleanup(hk) { const f = hk._cleanup; if (typeof f === "function") { hk._cleanup = undefined; guard(f); } }
function runEffect(hk) { guard(() => { hk._cleanup = hk._cb(); }); }

let queue = [], scheduled = false;
function enqueue(c) {
  if (!c._dirty) { c._dirty = true; queue.push(c); }
  if (!scheduled) { scheduled = true; (options.debounceRendering || ((f) => Promise.resolve().then(f)))(process); }
}
function process() {
  scheduled = false;
  try {
    let n = 0;
    while (queue.length) {
      if (++n > 10000) throw new Error("too many renders");
      queue.sort((a, b) => a._vnode._depth - b._vnode._depth);
      const c = queue.shift();
      if (c._dirty && !c._unmounted) rerender(c);
    }
  } finally { queue.forEach((c) => { c._dirty = false; }); queue = []; }
}
function rerender(c) {
  const old = c._vnode, v = mk(old.type, old.props, old.key, old.ref);
  v._id = old._id; v._depth = old._depth; v._parent = old._parent;
  const commit = { refs: [], comps: [] };
  const parentDom = c._parentDom;
  v._children = null;
  v._c = c;
  diffComponent(parentDom, v, old, commit);
  if (old._parent && old._parent._children) {
    const i = old._parent._children.indexOf(old);
    if (i >= 0) old._parent._children[i] = v;
  }
  // the host element's whole child list is put in order
  let host = v._parent;
  while (host && typeof host.type === "function") host = host._parent;
  place(parentDom, host, null);
  finish(commit);
}
export function render(vnode, parent) {
  const root = mk(Fragment, { children: vnode }, null, null);
  const old = parent[document.__root];
  const top = { type: "#root", _depth: 0, _children: old ? old._children : EMPTY, _dom: parent, props: {} };
  const commit = { refs: [], comps: [] };
  diffChildren(parent, vnode == null ? [] : [createElement(Fragment, null, vnode)], top, top._children, commit);
  place(parent, top, null);
  parent[document.__root] = top;
  finish(commit);
}
export const hydrate = render;
export const unmountComponentAtNode = (n) => { if (!n[document.__root]) return false; render(null, n); return true; };

// ---------------------------------------------------------------- hooks
let painting = [];
function afterPaint(c) {
  painting.push(c);
  if (painting.length === 1) {
    let raf, timeout;
    const done = () => { clearTimeout(timeout); cancelAnimationFrame(raf); setTimeout(flushEffects); };
    timeout = setTimeout(done, 35);
    raf = requestAnimationFrame(done);
  }
}
function flushEffects() {
  let c;
  while ((c = painting.shift())) {
    if (c._unmounted) continue;
    const p = c._pending; c._pending = [];
    p.forEach(cleanup); p.forEach(runEffect);
  }
}
function hook() {
  if (!current) throw new Error("Hook can only be invoked from render methods.");
  const i = hookIndex++;
  if (i >= current._hooks.length) current._hooks.push({});
  return current._hooks[i];
}
const changed = (a, b) => !a || a.length !== b.length || b.some((x, i) => x !== a[i] && !(x !== x && a[i] !== a[i]));
const invokeOrReturn = (a, f) => (typeof f === "function" ? f(a) : f);
export function useReducer(reducer, init, initF) {
  const hk = hook();
  hk._reducer = reducer;
  if (!hk._c) {
    const c = (hk._c = current);
    hk._value = [initF ? initF(init) : invokeOrReturn(undefined, init), (action) => {
      const cur = hk._next ? hk._next[0] : hk._value[0];
      const next = hk._reducer(cur, action);
      if (cur !== next) {
        hk._next = [next, hk._value[1]];
        if (c._unmounted) return;
        c._stateChanged = true;
        if (c._rendering) c._again = true; else enqueue(c);
      }
    }];
  }
  return hk._value;
}
export const useState = (init) => useReducer((a, b) => invokeOrReturn(a, b), init);
export function useEffect(cb, args) {
  const hk = hook();
  if (args === undefined || changed(hk._args, args)) { hk._cb = cb; hk._pendingArgs = args; current._pending.push(hk); }
}
export function useLayoutEffect(cb, args) {
  const hk = hook();
  if (args === undefined || changed(hk._args, args)) { hk._cb = cb; hk._pendingArgs = args; current._layout.push(hk); }
}
export const useInsertionEffect = useLayoutEffect;
export const useRef = (v) => useMemo(() => ({ current: v }), []);
export function useMemo(f, args) {
  const hk = hook();
  if (args === undefined || changed(hk._args, args)) { hk._value = f(); hk._args = args; }
  return hk._value;
}
export const useCallback = (f, args) => useMemo(() => f, args);
export function useImperativeHandle(ref, create, args) {
  useLayoutEffect(() => { applyRef(ref, create()); return () => applyRef(ref, null); }, args == null ? args : args.concat(ref));
}
export const useDebugValue = () => {};
let ids = 0;
export const useId = () => useRef(null).current ?? (useRef(`P${ids++}`).current);
export function useContext(ctx) {
  const c = current;
  hook();
  for (let p = c._vnode._parent; p; p = p._parent) {
    if (p._c && p._c._context === ctx) {
      p._c._contextSubs.add(c);
      c._subs.add(p._c._contextSubs);
      return p._c._contextValue;
    }
  }
  return ctx._default;
}
export function createContext(def) {
  const ctx = { _default: def };
  ctx.Provider = function Provider(props) {
    const c = current;
    if (!c._contextSubs) { c._contextSubs = new Set(); c._context = ctx; }
    else if (c._contextValue !== props.value) for (const s of c._contextSubs) { s._force = true; s._stateChanged = true; if (!s._dirty) enqueue(s); }
    c._contextValue = props.value;
    return props.children;
  };
  ctx.Consumer = (props) => props.children(useContext(ctx));
  return ctx;
}
export function memo(type) {
  function Memo(props) { return createElement(type, props); }
  Memo._memo = true;
  return Memo;
}
export function forwardRef(f) { return (props) => f(props, props.ref ?? null); }
export const Children = { map: (c, f) => toChildArray(c).map(f), forEach: (c, f) => toChildArray(c).forEach(f), toArray: toChildArray, count: (c) => toChildArray(c).length };
export const startTransition = (f) => f();
export const flushSync = (f, a) => { const r = f(a); process(); return r; };
export const createPortal = (c) => c;
export const createRoot = (node) => ({ render: (v) => render(v, node), unmount: () => render(null, node) });
export const StrictMode = Fragment, Suspense = Fragment;
export default { createElement, Fragment, render, hydrate, useState, useReducer, useEffect, useLayoutEffect, useRef, useMemo, useCallback, useContext, createContext, memo, forwardRef, createRoot, Component, Children, isValidElement, cloneElement, createRef, createPortal, flushSync, startTransition, useId, useImperativeHandle, useDebugValue, toChildArray, options, unmountComponentAtNode };
