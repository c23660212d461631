"use strict";
// The browser world: the real client on a simulated page, talking over a simulated network to a
// small reference server (mode "app") or to a scripted one (mode "random").
const crypto = require("crypto");
const { Browser, Rng, tick } = require("./browser.js");
const { load } = require("./bundle.js");

let instantiate = null;
const ready = load().then((f) => { instantiate = f; });

const EPS = 1e-6;
const APP = new Set(["C17", "C18", "C19", "C20"]);

// ================================================================ plans
function genConns(r, prop) {
  const n = prop === "C18" ? r.int(3, 14) : prop === "C19" ? 1 : r.int(1, 5);
  const conns = [];
  for (let i = 0; i < n; i++) {
    const fail = i > 0 ? r.chance(prop === "C18" ? 0.45 : 0.25) : r.chance(prop === "C18" ? 0.05 : 0);
    conns.push({
      delay: r.pick([0, 1, 5, 30, 300, 2000]), fail,
      lat: r.pick([0, 1, 5, 40, 400]), jitter: r.pick([0, 0, 3, 50]), up: r.pick([0, 1, 5, 40, 400]),
      first: r.pick([0, 0, 2, 30]),
      life: prop === "C19" ? null : i === n - 1 && r.chance(0.7) ? null : r.pick([0, 1, 20, 200, 1000, 4000]),
      end: r.pick(["clean", "error", "closing"]), closing: r.pick([1, 10, 300]),
    });
  }
  return conns;
}

function genWidgets(r, prop) {
  const out = [];
  const n = r.int(1, prop === "C17" ? 3 : 4);
  const allKeyed = prop === "C20" ? r.chance(0.7) : null; // places of unkeyed fields are not mixed up there
  for (let i = 0; i < n; i++) {
    const input = prop === "C20" ? r.chance(0.85) : prop === "C19" ? r.chance(0.5) : prop === "C17" || prop === "C21" ? r.chance(0.3) : false;
    const w = { id: `w${i}`, keyed: allKeyed ?? r.chance(0.5), handlers: [] };
    if (input) {
      w.kind = r.pick(["input", "input", "textarea", "select"]);
      w.value0 = r.pick(["", "a", "hello", 5, null]);
      if (w.kind === "select") w.value0 = r.pick(["a", "b", "c"]);
      w.transform = w.kind === "select" ? r.pick(["same", "same", "keep"]) : r.pick(["same", "same", "same", "upper", "clear", "keep", "cut", "number"]);
      const names = r.shuffle(["onChange", "onInput", "onKeyDown", "onKeyUp", "onBlur"]).filter((x) => w.kind === "select" ? x === "onChange" || x === "onKeyDown" : true);
      const k = r.int(1, Math.min(3, names.length));
      w.handlers = names.slice(0, k).map((name) => ({ name }));
      if (w.kind !== "select" && w.handlers.some((h) => h.name === "onChange") && w.handlers.some((h) => h.name === "onInput"))
        w.handlers = w.handlers.filter((h) => h.name !== "onInput");
      if (!w.handlers.some((h) => h.name === "onChange" || h.name === "onInput")) w.handlers.push({ name: "onChange" });
    } else {
      w.kind = r.pick(["button", "div"]);
      w.handlers = [{ name: "onClick" }];
      if (r.chance(0.3)) w.handlers.push({ name: "onMouseDown" });
    }
    for (const h of w.handlers) {
      const p = prop === "C19" ? 0.85 : prop === "C20" || prop === "C21" ? 0.3 : 0;
      if (r.chance(p)) {
        if (input && r.chance(0.6)) h.debounce = r.pick([20, 50, 100, 200]);
        else h.throttle = r.pick([20, 50, 100, 200]);
        if (input && r.chance(0.2)) { h.debounce = r.pick([20, 50, 100, 200]); h.throttle = r.pick([20, 50, 100, 200]); }
      } else if (prop === "C19" && r.chance(0.3)) h[r.pick(["throttle", "debounce"])] = r.pick([0, -5, 1.5, "x"]);
      if (!input && prop === "C19" && r.chance(0.15)) h.debounce = 50; // means nothing on a button
      if (r.chance(0.2)) h.preventDefault = true;
      if (r.chance(0.2)) h.stopPropagation = true;
    }
    out.push(w);
  }
  return out;
}

function genOps(r, prop, plan) {
  const ops = [];
  let t = r.pick([0, 5, 50, 200, 500]);
  const n = prop === "C18" ? r.int(0, 8) : r.int(4, 40);
  const burst = r.pick([1, 4, 8]);
  for (let i = 0; i < n; i++) {
    t += r.chance(0.6) ? r.pick([0, 1, 3, 10, 17]) * burst + r.int(0, 9) / 10 : r.pick([30, 60, 120, 250, 800, 3000]);
    const x = r.random();
    const w = r.int(0, plan.widgets.length - 1);
    if (prop === "C18") ops.push({ t, op: "goto", url: r.pick(["/a", "/b?x=1", "/c?y=2&z=%20", "/"]) });
    else if (prop === "C17" && x < 0.01) { for (let k = r.pick([30, 150]); k > 0; k--) ops.push({ t, op: "user", w, txt: "k", seq: "input" }); }
    else if (x < 0.62) ops.push({ t, op: "user", w, txt: r.pick(["k", "l", "m", "back", "paste", "c"]), seq: r.pick(["full", "input", "key", "blur", "full"]) });
    else if (x < 0.85) ops.push({ t, op: "tick", scope: r.pick(["root", "div", "widget", "counter", "div"]), w });
    else if (x < 0.90) ops.push({ t, op: "hide", w });
    else if (x < 0.94) ops.push({ t, op: prop === "C19" && r.chance(0.4) ? "retarget" : r.pick(["swap", "rename"]), w });
    else if (x < 0.96 && prop !== "C20") ops.push({ t, op: "clock", by: r.pick([-3600e3, -5000, 5000, 3600e3]) });
    else if (x < 0.98) ops.push({ t, op: "hidden", on: r.chance(0.5) });
    else ops.push({ t, op: "goto", url: r.pick(["/a", "/b?x=1", "/"]) });
  }
  return ops;
}

// ---- random models
let serial = 0;
function genModel(r, depth, o) {
  const x = r.random();
  if (x < 0.06 && o.errors) return { tagName: "", error: r.pick(["", "boom", "bad <thing>"]) };
  if (x < 0.16) return { tagName: "", children: genChildren(r, depth, o) };
  if (o.imports && x < 0.36) return genImport(r, depth, o);
  if (o.scripts && x < 0.26) return genScript(r);
  if (o.forms && x > 0.93) return genForm(r);
  const tag = r.pick(["div", "div", "span", "ul", "p", "button", "input", "textarea", "select", "a"]);
  const m = { tagName: tag };
  const at = {};
  if (r.chance(0.4)) at.id = r.pick(["x", "y", "z"]);
  if (r.chance(0.3)) at.className = r.pick(["k", "k l", "m"]);
  if (r.chance(0.2)) at.title = r.pick(["t", "<&>"]);
  if (r.chance(0.15)) at.style = r.pick([{ color: "red" }, { color: "blue", margin: "1px" }, { margin: "2px" }]);
  if (r.chance(0.1)) at["data-x"] = r.pick(["1", "2"]);
  if (r.chance(0.1)) at.disabled = true;
  if (tag === "input" || tag === "textarea") { if (r.chance(0.6)) at.value = r.pick(["", "v", "w", "long", 0, 7]); if (tag === "input" && r.chance(0.3)) at.type = r.pick(["text", "password", "email"]); }
  if (tag === "select") { at.value = r.pick(["a", "b", "c"]); m.children = ["a", "b", "c"].map((v) => ({ tagName: "option", attributes: { value: v, key: v }, children: [v] })); }
  else if (tag !== "input" && tag !== "textarea") m.children = genChildren(r, depth, o);
  if (r.chance(0.45)) {
    const names = tag === "input" || tag === "textarea" || tag === "select" ? ["onChange", "onKeyDown", "onClick"] : ["onClick", "onMouseDown"];
    m.eventHandlers = {};
    for (const n of r.shuffle(names).slice(0, r.int(1, 2)))
      m.eventHandlers[n] = { target: `T${++serial}`, preventDefault: r.chance(0.3), stopPropagation: r.chance(0.3) };
  } else if (r.chance(0.1)) m.inlineJavaScript = { onClick: r.pick(["window.__hits.push(1)", "(e) => window.__hits.push(e.type)", "window.__hits.push(this.localName)"]) };
  if (Object.keys(at).length) m.attributes = at;
  return m;
}
function genForm(r) {
  const kid = (name, i) => {
    const k = r.pick(["input", "checkbox", "textarea", "select"]), at = { name, key: `f${i}` };
    if (k === "checkbox") return { tagName: "input", attributes: { ...at, type: "checkbox", checked: r.chance(0.5) } };
    at.value = r.pick(["", "a", "b"]);
    if (k === "select") return { tagName: k, attributes: at, children: ["a", "b", ""].map((v) => ({ tagName: "option", attributes: { value: v, key: v }, children: [v] })) };
    return { tagName: k, attributes: at };
  };
  const names = r.shuffle(["first", "last", "size", "SKU", "x"]).slice(0, r.int(1, 3));
  return { tagName: "form", attributes: { id: r.pick(["x", "y"]) }, children: [...names.map(kid), { tagName: "button", attributes: { key: "go" }, children: ["go"] }],
    eventHandlers: { onSubmit: { target: `T${++serial}`, preventDefault: true, stopPropagation: false } } };
}
// as html.script makes them: what a script is, is determined by its key
function genScript(r) {
  const id = `S${++serial}`;
  if (r.chance(0.6)) return { tagName: "script", attributes: { key: r.chance(0.5) ? id : `run("${id}")`, ...(r.chance(0.3) ? { type: r.pick(["module", "text/plain"]) } : {}) }, children: [`run("${id}")`] };
  const at = { src: `/x/${id}.js`, key: `/x/${id}.js` };
  for (const k of ["async", "defer", "noModule"]) if (r.chance(0.25)) at[k] = r.pick([true, false, null]);
  if (r.chance(0.3)) at["data-x"] = r.pick(["1", "<&>"]);
  if (r.chance(0.15)) at.className = "k";
  return { tagName: "script", attributes: at };
}
function genImport(r, depth, o) {
  return {
    tagName: r.pick(["Comp", "Comp", "Other", "Deep.Inner"]), attributes: { n: r.int(0, 9) },
    importSource: { source: r.pick(["m1.js", "m1.js", "m2.js", "m3.js"]), sourceType: r.pick(["NAME", "NAME", "URL"]), fallback: null, unmountBeforeUpdate: r.chance(0.15) },
    children: r.chance(0.4) && depth > 0 ? [r.chance(0.5) ? r.pick(["in", "out"]) : { tagName: "b", attributes: {}, children: [r.pick(["p", "q"])] }] : [],
    eventHandlers: r.chance(0.4) ? { onPing: { target: `T${++serial}`, preventDefault: false, stopPropagation: false } } : {},
  };
}
function genChildren(r, depth, o) {
  if (depth <= 0) return r.chance(0.6) ? [r.pick(["a", "b", "text", "<i>", ""])] : [];
  const n = r.int(0, 4), out = [];
  const keyed = r.chance(0.5);
  const keys = r.shuffle(["k1", "k2", "k3", "k4", "k5"]);
  for (let i = 0; i < n; i++) {
    if (r.chance(0.25)) out.push(r.pick(["a", "b", "text", ""]));
    else {
      const c = genModel(r, depth - 1, o);
      if (keyed && c.error === undefined && c.tagName !== "script") { c.attributes = { ...(c.attributes || {}), key: keys[i] }; }
      out.push(c);
    }
  }
  return out;
}
const clone = (x) => JSON.parse(JSON.stringify(x));
function paths(m, p = "", out = []) {
  (m.children || []).forEach((c, i) => { if (typeof c === "object") { out.push(`${p}/children/${i}`); paths(c, `${p}/children/${i}`, out); } });
  return out;
}
function at(m, p) { for (const k of p.split("/").slice(1)) m = m[k]; return m; }
function put(m, p, v) {
  if (p === "") return v;
  const parts = p.split("/").slice(1), last = parts.pop();
  let x = m;
  for (const k of parts) x = x[k];
  x[last] = v;
  return m;
}
function mutate(r, m, o, depth) {
  // a small change of a model, as a re-render makes it
  m = clone(m);
  const what = r.random();
  if (m.error !== undefined || what < 0.15) return genModel(r, depth, o);
  if (m.tagName === "script") return m;
  if (what < 0.4 && m.attributes) {
    for (const k of Object.keys(m.attributes)) if (k !== "key" && k !== "value" && r.chance(0.3)) delete m.attributes[k];
    if ("value" in m.attributes && r.chance(0.6)) m.attributes.value = m.tagName === "select" ? r.pick(["a", "b", "c"]) : r.pick(["", "v", "w", "zz", 3]);
    if ("n" in m.attributes || m.importSource) m.attributes.n = r.int(0, 9);
  } else if (what < 0.7 && m.children && m.children.length > 1 && m.tagName !== "select") m.children = r.shuffle(m.children);
  else if (what < 0.85 && m.children && m.children.length && m.tagName !== "select") m.children.splice(r.int(0, m.children.length - 1), 1);
  else if (m.eventHandlers) { if (r.chance(0.5)) delete m.eventHandlers; else for (const h of Object.values(m.eventHandlers)) if (r.chance(0.5)) h.target = `T${++serial}`; }
  return m;
}
function genRandom(r, prop, plan) {
  // every session: a first full model, then updates; and user events at random moments
  const o = { errors: true, imports: prop === "C27", scripts: prop === "C21" && r.chance(0.4), forms: prop === "C21" && r.chance(0.4) };
  plan.sessions = [];
  for (let s = 0; s < plan.conns.length; s++) {
    let cur = { tagName: "", children: [genModel(r, 3, o)] };
    const ups = [{ dt: r.pick([0, 1, 10, 50]), path: "", model: clone(cur) }];
    const n = r.int(1, 14);
    for (let i = 0; i < n; i++) {
      const ps = paths(cur);
      const path = r.chance(0.2) || !ps.length ? "" : r.pick(ps);
      let model;
      if (path === "") model = r.chance(0.25) ? (r.chance(0.7) ? { tagName: "", error: r.pick(["", "root failed"]) } : { tagName: "", children: [genModel(r, 3, o)] })
        : { tagName: "", children: [cur.children && typeof cur.children[0] === "object" && r.chance(0.6) ? mutate(r, cur.children[0], o, 3) : genModel(r, 3, o)] };
      else model = r.chance(0.6) ? mutate(r, at(cur, path), o, 2) : genModel(r, 2, o);
      cur = path === "" ? clone(model) : put(cur, path, clone(model));
      ups.push({ dt: r.pick([0, 0, 1, 5, 20, 60, 300]), path, model });
    }
    plan.sessions.push(ups);
  }
  plan.ops = [];
  let t = 0;
  for (let i = r.int(3, 25); i > 0; i--) {
    t += r.pick([0, 1, 10, 40, 200, 900]) + r.int(0, 9) / 10;
    const x = r.random();
    if (prop === "C27" && r.chance(0.6)) plan.ops.push({ t, op: "ping", nth: r.int(0, 5) });
    else if (x < 0.8) plan.ops.push({ t, op: "poke", nth: r.int(0, 30), ev: r.pick(["click", "click", "mousedown", "input", "change", "keydown", "submit"]) });
    else if (x < 0.9) plan.ops.push({ t, op: "hidden", on: r.chance(0.5) });
    else if (x < 0.95) plan.ops.push({ t, op: "ping", nth: r.int(0, 5) });
    else plan.ops.push({ t, op: "goto", url: "/z?q" });
  }
  if (prop === "C27") {
    plan.modules = {};
    if (r.chance(0.5)) plan.react = { delays: [r.pick([0, 5, 60]), r.pick([0, 5, 60])], lacks: r.chance(0.15) ? r.int(0, 1) : null };
    for (const m of ["m1.js", "m2.js", "m3.js"]) plan.modules[m] = {
      delays: [0, 1, 2, 3, 4, 5].map(() => r.pick([0, 1, 10, 60, 500])), fail: r.chance(0.1) ? [r.int(0, 2)] : [],
      bind: r.pick(["own", "none"]), lacks: r.chance(0.1) ? "Other" : null,
    };
  }
}

function gen(seed, prop) {
  const r = new Rng(seed);
  serial = 0;
  const plan = { seed: r.int(1, 2 ** 31), late: r.pick([0, 0, 2, 20]), page: { path: r.pick(["/", "/p/q"]), qs: r.pick(["", "?a=1"]), tls: r.chance(0.3) } };
  const cfg = (plan.cfg = {});
  if (r.chance(0.8)) cfg.reconnectInterval = r.pick([1, 10, 100, 750]);
  if (r.chance(0.8)) cfg.reconnectMaxInterval = r.pick([750, 800, 1000, 5000]);
  if (r.chance(0.8)) cfg.reconnectMaxRetries = prop === "C18" ? r.pick([0, 1, 2, 3, 5]) : r.pick([5, 50]);
  if (r.chance(0.8)) cfg.reconnectBackoffMultiplier = r.pick([1, 1.25, 2, 3]);
  plan.conns = genConns(r, prop);
  if (prop === "C27" || (prop === "C21" && r.chance(0.75))) { plan.mode = "random"; genRandom(r, prop, plan); }
  else {
    plan.mode = "app";
    plan.widgets = genWidgets(r, prop);
    plan.handle = r.pick([0, 0, 5, 40]);
    plan.render = r.pick([0, 0, 5, 60]);
    plan.ops = genOps(r, prop, plan);
  }
  const last = plan.ops.length ? plan.ops[plan.ops.length - 1].t : 0;
  plan.horizon = prop === "C18" ? r.pick([20000, 60000, 200000]) : last + 12000;
  return plan;
}

// ================================================================ the run
class World {
  constructor(plan, prop, wantTrace) {
    Object.assign(this, { plan, prop, wantTrace, bad: [], trace: [], stats: {}, shapes: new Set(), submitted: [], sends: [] });
    this.hash = crypto.createHash("sha1");
    this.fields = new Map(); // element -> what the user did to it
    this.ref = { tagName: "" }; // the model the server has sent so far
    this.lastUpdate = -1e9;
    this.marks = 0;
    this.imports = { binds: [] };
    this.runs = new Map(); // script -> how often it ran
    this.chances = new Map();
  }
  count(k, n = 1) { this.stats[k] = (this.stats[k] || 0) + n; }
  violate(prop, kind, msg) { if (this.bad.length < 40) this.bad.push([prop, kind, `t=${this.b.now.toFixed(1)}: ${msg}`]); this.ev("BAD", prop, kind, msg); }
  ev(...a) {
    const line = `${this.b.steps} ${this.b.now.toFixed(2)} ${a.join(" ")}`;
    this.hash.update(line).update("\n");
    if (this.wantTrace) this.trace.push(line.split(" "));
  }
  async run() {
    const { plan } = this;
    const b = (this.b = new Browser({
      seed: plan.seed, late: plan.late, page: plan.page,
      onConnect: (ws) => this.onConnect(ws), onSend: (ws, d, open) => this.onSend(ws, d, open),
      onModule: (n, res, rej) => this.onModule(n, res, rej),
    }));
    Browser.current = b;
    b.onWrite = (el, before, v) => this.onWrite(el, before, v);
    b.onScript = (n) => { const k = n.getAttribute("src") || n.textContent; this.runs.set(k, (this.runs.get(k) || 0) + 1); this.count("scripts_run"); this.ev("script", k); };
    b.window.__hits = this.hits = [];
    const lib = instantiate(b.globals);
    this.lib = lib;
    try { lib.mountReactPy({ mountElement: b.mount, pathPrefix: "/reactpy/", componentPath: plan.page.path === "/" ? "" : "some.component", ...plan.cfg }); }
    catch (e) { b.error(e); }
    await tick();
    plan.ops.forEach((op) => b.at(op.t, () => this.op(op), "op"));
    while (b.next <= plan.horizon) {
      await b.step();
      if (b.steps > 40000) { this.violate(this.prop, "endless", "the page never comes to rest"); break; }
      this.check();
    }
    b.now = Math.max(b.now, plan.horizon);
    this.final();
    for (const e of b.errors) if (!e.includes("cannot load")) this.violate(this.prop, "exception", e);
    this.digest = this.hash.digest("hex");
    this.sim_time = b.now / 1000;
    this.steps = b.steps;
    this.shapes.add(JSON.stringify(shape(b.tree())).slice(0, 400));
    return this;
  }

  // ------------------------------------------------------------ network
  onConnect(ws) {
    const { plan, b } = this;
    const i = ws.id, c = plan.conns[Math.min(i, plan.conns.length - 1)];
    const over = i >= plan.conns.length; // what comes later stays up
    ws.sim = { created: b.now, opened: null, closed: null, conf: c, url: ws.url, path: b.location.pathname, qs: b.location.search };
    this.ev("connect", i, ws.url);
    this.count("connections");
    const live = b.sockets.filter((s) => s !== ws && s.readyState !== 3);
    if (live.length) this.violate("C18", "two-connections", `connection ${i} is opened while ${live[0].id} is still there`);
    this.checkUrl(ws);
    const fail = c.fail && !over;
    b.after(c.delay, () => {
      if (fail) { this.count("fault_connect_refused"); this.closeEvent(ws, false); return; }
      if (ws.readyState !== 0) return;
      ws.sim.opened = b.now;
      this.ev("open", i);
      this.app = plan.mode === "app" ? new App(this, ws) : null;
      ws.sim.opening = true;
      b.wsOpen(ws);
      ws.sim.opening = false;
      this.afterOpen(ws);
      if (plan.mode === "app") this.app.start();
      else this.playSession(ws, plan.sessions[Math.min(i, plan.sessions.length - 1)]);
      if (c.life !== null && !over) b.after(c.life, () => this.drop(ws), "drop");
    }, "net");
  }
  drop(ws) {
    const { b } = this, c = ws.sim.conf;
    if (ws.readyState !== 1) return;
    this.count("fault_connection_lost");
    if (c.end === "closing") { this.count("fault_slow_close"); b.wsClosing(ws); ws.sim.closing = b.now; this.ev("closing", ws.id); b.after(c.closing, () => this.closeEvent(ws, false)); }
    else this.closeEvent(ws, c.end === "clean");
  }
  closeEvent(ws, clean) {
    if (ws.readyState === 3) return;
    ws.sim.closed = this.b.now;
    this.ev("close", ws.id);
    this.b.wsClose(ws, clean);
  }
  down(ws, msg, done) {
    // a message from the server, in order
    const c = ws.sim.conf, b = this.b, plan = this.plan;
    let t = b.now + c.lat + (c.jitter ? b.rng.random() * c.jitter : 0);
    t = Math.max(t, ws.sim.lastDown || 0);
    ws.sim.lastDown = t;
    b.at(t, () => {
      if (ws.readyState !== 1) return;
      if (this.prop === "C20") for (const w of plan.widgets) { // what is being replaced may still be on its way to the page
        const m = findById(this.ref, w.id);
        if (m) (this.recent ||= []).push([w.id, String(m.attributes.value), b.now]);
      }
      const was = scriptsOf(this.ref);
      this.ref = put(this.ref, msg.path, clone(msg.model));
      // what may make a script run: an update that touches the list it is in or a part of it, and
      // after which it does not have the same place
      const touched = scriptsOf(at(this.ref, msg.path.split("/").slice(0, -2).join("/"))), is = scriptsOf(this.ref);
      for (const k of touched.keys()) if (!was.has(k) || was.get(k).includes("?") || was.get(k) !== is.get(k)) this.chances.set(k, (this.chances.get(k) || 0) + 1);
      this.lastUpdate = b.now;
      if (done) done();
      this.count("updates");
      this.ev("update", ws.id, msg.path, JSON.stringify(msg.model).length);
      this.refConn = ws.id;
      b.wsMessage(ws, JSON.stringify(msg));
    }, "down");
  }
  playSession(ws, ups) {
    let t = 0;
    for (const u of ups) {
      t += u.dt;
      this.b.after(t, () => { if (ws.readyState === 1) this.down(ws, { type: "layout-update", path: u.path, model: clone(u.model) }); });
    }
  }
  onSend(ws, data, open) {
    const m = JSON.parse(data);
    this.sends.push({ ws: ws.id, t: this.b.now, m, open, opening: !!ws.sim.opening, step: this.b.steps });
    const whose = this.submitted.find((x) => x.mark === m.data?.[0]?.mark);
    if (whose && whose.elt) this.sends[this.sends.length - 1].now = whose.elt.value;
    this.count("messages");
    this.ev("send", ws.id, open, m.target, m.seq, m.data?.[0]?.mark);
    if (!open) this.violate("C17", "sent-to-dead-socket", `a message was handed to a connection in state ${ws.readyState}`);
    this.fieldSend(ws, m);
    if (open && this.app && this.app.ws === ws) {
      const c = ws.sim.conf, b = this.b;
      let t = b.now + c.up;
      b.at(t, () => { if (ws.readyState === 1) this.app.receive(m); }, "up");
    }
  }
  checkUrl(ws) {
    let u;
    try { u = new URL(ws.url); } catch { this.violate("C18", "url", `bad address ${ws.url}`); return; }
    const want = { path: [this.b.location.pathname], qs: this.b.location.search ? [this.b.location.search] : [] };
    for (const k of ["path", "qs"])
      if (JSON.stringify(u.searchParams.getAll(k)) !== JSON.stringify(want[k]))
        this.violate("C18", "location", `attempt ${ws.id} reports ${k}=${JSON.stringify(u.searchParams.getAll(k))}, the page is at ${JSON.stringify(want[k])}`);
    const proto = this.plan.page.tls ? "wss:" : "ws:";
    if (u.protocol !== proto || u.host !== "sim.test" || !u.pathname.startsWith("/reactpy/")) this.violate("C18", "url", `bad address ${ws.url}`);
  }

  // ------------------------------------------------------------ the user
  op(op) {
    const { b } = this;
    this.ev("op", op.op, op.w ?? "", op.ev ?? "");
    if (op.op === "clock") { b.wall += op.by; this.count("fault_clock_jump"); }
    else if (op.op === "hidden") { b.hidden = op.on; this.count("fault_page_hidden"); }
    else if (op.op === "goto") b.goto(op.url);
    else if (op.op === "user") this.user(op);
    else if (op.op === "poke") this.poke(op);
    else if (op.op === "ping") this.ping(op);
    else if (this.app) this.app.op(op);
  }
  widgetEl(w) { for (const e of this.b.elements()) if (e.id === w.id) return e; return null; }
  user(op) {
    const w = this.plan.widgets[op.w], el = this.widgetEl(w), { b } = this;
    if (!el) return;
    if (w.kind === "button" || w.kind === "div") {
      this.fireOn(el, w, "mousedown", op);
      this.fireOn(el, w, "click", op);
      return;
    }
    let v = el.value;
    const next = w.kind === "select" ? ["a", "b", "c"][(["a", "b", "c"].indexOf(v) + 1 + (op.txt.length % 2)) % 3]
      : op.txt === "back" ? v.slice(0, -1) : op.txt === "paste" ? v + "xyz" : v + op.txt;
    const keys = op.seq === "full" || op.seq === "key";
    if (keys) this.fireOn(el, w, "keydown", { ...op, key: op.txt });
    if (op.seq !== "key" && op.seq !== "blur" && next !== v) {
      b.dom.userSet(el, next);
      const f = this.field(el, w);
      f.typed = next;
      if (w.kind !== "select") this.fireOn(el, w, "input", op); else { this.fireOn(el, w, "input", op); this.fireOn(el, w, "change", op); }
    }
    if (keys) this.fireOn(el, w, "keyup", { ...op, key: op.txt });
    if (op.seq === "blur") { if (w.kind !== "select") this.fireOn(el, w, "change", op); this.fireOn(el, w, "focusout", op); }
  }
  field(el, w) {
    // a page element may come to show another widget
    if (!this.fields.has(el) || this.fields.get(el).w !== w) this.fields.set(el, { w, el, id: this.nfields = (this.nfields || 0) + 1, out: [], seqs: [], last: null });
    return this.fields.get(el);
  }
  fireOn(el, w, type, op) {
    // the handlers that the model binds to this event
    const model = findById(this.ref, w.id);
    const name = { click: ["onClick"], mousedown: ["onMouseDown"], keydown: ["onKeyDown"], keyup: ["onKeyUp"], focusout: ["onBlur"], input: w.kind === "select" ? ["onInput"] : ["onChange", "onInput"], change: w.kind === "select" ? ["onChange"] : [] }[type];
    const bound = model ? Object.entries(model.eventHandlers || {}).filter(([n]) => name.includes(n)) : [];
    const mark = ++this.marks;
    const ws = b => b.sockets[b.sockets.length - 1];
    const sock = ws(this.b);
    const open = sock && sock.readyState === 1;
    const before = this.sends.length;
    const f = this.field(el, w);
    const spec = bound.length ? w.handlers.find((h) => bound[0][0] === h.name) : null;
    const limited = !!spec && (validMs(spec.throttle) > 0 || (w.kind !== "button" && w.kind !== "div" && validMs(spec.debounce) > 0));
    if (bound.length) {
      f.last = { mark, t: this.b.now, name: bound[0][0], conn: null, value: el.value };
      this.submitted.push({ mark, t: this.b.now, target: bound[0][1].target, open, limited, el: f.id, spec, name: bound[0][0], value: el.value, conn: sock ? sock.id : -1, connected: () => el.isConnected, gone: null, elt: el });
    }
    this.ev("user", w.id, type, mark, el.value);
    const e = this.b.event(el, type, { mark, key: op.key });
    if (bound.length && !limited && open) {
      const got = this.sends.slice(before);
      if (got.length !== 1 || got[0].m.target !== bound[0][1].target || got[0].m.data?.[0]?.mark !== mark)
        this.violate(this.prop === "C17" ? "C17" : "C21", "not-sent", `event ${type} on ${w.id} caused ${JSON.stringify(got.map((x) => x.m.target))} instead of one message for ${bound[0][1].target}`);
    }
    if (bound.length && e.defaultPrevented !== !!bound[0][1].preventDefault)
      this.violate(this.prop === "C19" ? "C19" : "C21", "default", `${type} on ${w.id}: default ${e.defaultPrevented ? "" : "not "}prevented`);
    this.count("user_events");
  }
  // ------------------------------------------------------------ text fields (C20)
  fieldSend(ws, m) {
    const mark = m.data?.[0]?.mark;
    if (mark === undefined) return;
    const s = this.submitted.find((x) => x.mark === mark);
    if (!s) return;
    for (const [, f] of this.fields) if (f.id === s.el) {
      // a coalesced message carries the latest event of its handler
      if (f.last && f.last.mark === mark) f.last.conn = ws.id;
      f.out.push({ name: s.name, mark, seq: m.seq, conn: ws.id });
      if (f.w.kind !== "button" && f.w.kind !== "div") {
        const prev = f.seqs[f.seqs.length - 1];
        if (prev !== undefined && !(m.seq > prev)) this.violate("C20", "numbers", `field ${f.w.id} sent number ${m.seq} after ${prev}`);
        f.seqs.push(m.seq);
      }
    }
  }
  acked(f) {
    // has the server taken the user's latest event on this field into account in what the page got?
    if (!f.last) return true;
    if (f.last.conn === null) return false;
    if (f.last.conn !== this.refConn) return f.last.conn < (this.refConn ?? -1);
    return (this.refAck?.[f.w.id] ?? -1) >= f.last.mark;
  }
  allAcked(f, model) {
    // has the server acknowledged every event on this field, and is none held back by a limit?
    const held = this.submitted.some((s) => s.el === f.id && !f.out.some((o) => o.name === s.name && o.mark >= s.mark));
    if (held) return false;
    const last = f.out[f.out.length - 1];
    if (!last || last.conn !== this.refConn) return !last || last.conn < (this.refConn ?? -1);
    return (model.attributes._reactpy_ack_seq ?? -1) >= last.seq;
  }
  onWrite(el, before, v) {
    const f = this.fields.get(el);
    if (before === v) return;
    this.ev("write", el.id, before, v);
    if (this.plan.mode !== "app" || !f || this.prop !== "C20") return;
    this.count("program_writes");
    const model = findById(this.ref, f.w.id);
    if (!el.isConnected) return;
    if (!this.acked(f)) this.violate("C20", "clobbered", `${f.w.id}: ${JSON.stringify(before)} was overwritten by ${JSON.stringify(v)} before the server had acknowledged the user's latest event (${f.last.name} ${f.last.mark})`);
    else if ((!model || String(model.attributes.value) !== v) && !(this.recent || []).some(([id, x, t]) => id === f.w.id && x === v && this.b.now - t < 60 + 3 * this.plan.late)) this.violate("C20", "foreign-value", `${f.w.id}: ${JSON.stringify(v)} is not what the server sent`);
  }
  settledFields() {
    if (this.b.now - this.lastUpdate < 60 + 3 * this.plan.late) return;
    for (const el of this.b.elements()) {
      if (!/^(input|textarea|select)$/.test(el.localName)) continue;
      const w = this.plan.widgets.find((x) => x.id === el.id);
      if (!w) continue;
      const model = findById(this.ref, w.id), f = this.fields.get(el);
      const v = model?.attributes?.value;
      if (v === undefined || v === null) continue;
      // a change of the user that no message tells the server about stays
      if (f && f.last && !this.allAcked(f, model)) continue;
      if (f && f.last === null && f.typed !== undefined) continue;
      if (el.value !== String(v)) this.violate("C20", "not-converged", `${w.id} shows ${JSON.stringify(el.value)}, the server's acknowledged value is ${JSON.stringify(v)}`);
    }
  }
  // ------------------------------------------------------------ random models
  poke(op) {
    const els = [...this.b.elements()].filter((e) => this.modelOf(e));
    if (!els.length) return;
    const el = els[op.nth % els.length], { b } = this;
    const want = [], mark = ++this.marks;
    let prevent = false;
    const hits = [];
    for (let n = el; n && n !== b.mount; n = n.parentNode) {
      const m = this.modelOf(n);
      if (!m) continue;
      const names = evNames(m.tagName, op.ev);
      let stop = false;
      for (const k of names) {
        const h = m.eventHandlers?.[k];
        if (h) { want.push(h.target); if (h.preventDefault) prevent = true; if (h.stopPropagation) stop = true; }
        const js = m.inlineJavaScript?.[k];
        // the script runs with the element it belongs to as "this"
        if (js) hits.push(/localName/.test(js) ? m.tagName : /type/.test(js) ? op.ev : 1);
      }
      if (stop) break;
    }
    const data = dataOf(el);
    const before = this.sends.length, sock = b.sockets[b.sockets.length - 1], open = sock && sock.readyState === 1, h0 = this.hits.length;
    want.forEach((target) => this.submitted.push({ mark, t: b.now, target, open, conn: sock ? sock.id : -1 }));
    const e = b.event(el, op.ev, { mark, clientX: op.nth });
    this.count("user_events");
    this.ev("poke", op.ev, want.join(","));
    if (open) {
      const got = this.sends.slice(before);
      const g = got.map((x) => x.m.target);
      if (JSON.stringify(g) !== JSON.stringify(want)) this.violate("C21", "binding", `${op.ev} on <${el.localName}> sent ${JSON.stringify(g)}, the model binds ${JSON.stringify(want)}`);
      // what the user has entered arrives with the event
      for (const x of got) for (const [path, v] of data) {
        let is = x.m.data?.[0]?.target;
        for (const k of path) is = is?.[k];
        if (is !== v) { this.violate("C21", "event-data", `${op.ev} on <${el.localName}>: target.${path.join(".")} is ${JSON.stringify(is)} instead of ${JSON.stringify(v)}`); break; }
      }
      for (const x of got) if (x.m.data?.[0]?.mark !== mark || x.m.data[0].type !== op.ev || x.m.type !== "layout-event" || x.m.data[0].clientX !== op.nth)
        this.violate("C21", "event-data", `the message for ${op.ev} carries ${JSON.stringify(x.m.data).slice(0, 150)}`);
    }
    if (e.defaultPrevented !== prevent) this.violate("C21", "default", `${op.ev} on <${el.localName}>: default ${e.defaultPrevented ? "" : "not "}prevented`);
    const ran = JSON.stringify(this.hits.slice(h0));
    if (ran !== JSON.stringify(hits)) this.violate("C21", "inline-script", `inline scripts left ${ran} instead of ${JSON.stringify(hits)}`);
  }
  modelOf(el) {
    // the model node that an element of the page shows: same position in the expected tree
    const b = this.b, path = [];
    for (let n = el; n !== b.mount; n = n.parentNode) { if (!n.parentNode) return null; path.unshift(b.dom.kidsOf(n.parentNode).filter((x) => x instanceof b.dom.Element).indexOf(n)); }
    let level = expectNodes(this.ref), node = null;
    for (const i of path) {
      const els = level.filter((x) => typeof x === "object");
      node = els[i];
      if (!node) return null;
      level = node.kids;
      if (node.opaque && i !== path[path.length - 1]) return null;
    }
    return node && !node.opaque ? node.model : null;
  }
  check() {
    const { b, plan } = this;
    if (plan.mode === "random") {
      const settled = b.now - this.lastUpdate > 60 + 3 * plan.late;
      const got = canon(b.tree(), settled), want = canon(expectNodes(this.ref), settled, true, this);
      const g = JSON.stringify(got), x = JSON.stringify(want);
      if (g !== x && !this.shown) { this.shown = true; this.violate("C21", "display", `the page shows ${g.slice(0, 400)} and the model is ${x.slice(0, 400)}`); }
      for (const [k, n] of this.runs) if (n > (this.chances.get(k) || 0) && !this.ranTwice) { this.ranTwice = true; this.violate("C21", "script-again", `script ${k} ran ${n} times and was touched by ${this.chances.get(k) || 0} updates`); }
      if (settled && !this.ranNot) for (const k of scriptsOf(this.ref).keys()) if (!this.runs.get(k)) { this.ranNot = true; this.violate("C21", "script-missing", `script ${k} was not run`); }
      if (this.b.steps % 7 === 0) this.shapes.add(JSON.stringify(shape(b.tree())).slice(0, 300));
    } else {
      const g = JSON.stringify(canon(b.tree(), false)), x = JSON.stringify(canon(expectNodes(this.ref), false, true, this));
      if (g !== x && !this.shown) { this.shown = true; this.violate("C21", "display", `the page shows ${g.slice(0, 300)} and the model is ${x.slice(0, 300)}`); }
    }
    if (this.prop === "C20" && !this.shownField) { const n = this.bad.length; this.settledFields(); if (this.bad.length > n) this.shownField = true; }
    if (this.prop === "C27") this.checkImports(false);
    for (const s of this.submitted) if (s.elt && s.gone === null && !s.elt.isConnected) s.gone = b.now;
  }
  // ------------------------------------------------------------ C17
  afterOpen(ws) {
    // what waited has been sent by the time the open event has been handled
    if (this.prop !== "C17") return;
    this.waitingCheck();
  }
  waitingCheck() {
    const sub = this.submitted.map((s) => s.mark), got = this.sends.filter((s) => s.open).map((s) => s.m.data?.[0]?.mark);
    if (JSON.stringify(sub) !== JSON.stringify(got) && !this.c17) {
      this.c17 = true;
      let i = 0;
      while (i < sub.length && sub[i] === got[i]) i++;
      this.violate("C17", "order", `messages submitted: ${sub.slice(Math.max(0, i - 2), i + 8)}; sent: ${got.slice(Math.max(0, i - 2), i + 8)} (from number ${Math.max(0, i - 2)})`);
    }
  }
  final() {
    const { b, prop } = this;
    if (!b.sockets.length) this.violate(prop, "never-connected", "the client has not connected");
    if (prop === "C17") {
      const sock = b.sockets[b.sockets.length - 1];
      if (sock && sock.readyState === 1) this.waitingCheck();
      const sub = this.submitted.map((s) => s.mark), got = this.sends.filter((s) => s.open).map((s) => s.m.data?.[0]?.mark);
      if (JSON.stringify(sub.slice(0, got.length)) !== JSON.stringify(got) && !this.c17) this.violate("C17", "order", `sent ${got.slice(0, 30)} of ${sub.slice(0, 30)}`);
      for (const s of this.sends) {
        const u = this.submitted.find((x) => x.mark === s.m.data?.[0]?.mark);
        if (!u) continue;
        if (u.open && Math.abs(s.t - u.t) > EPS) this.violate("C17", "late", `message ${u.mark} was submitted while connected at ${u.t} and sent at ${s.t}`);
        if (!u.open && !s.opening) this.violate("C17", "late", `message ${u.mark} waited for a connection and was not sent when one opened`);
      }
    }
    if (prop === "C18") this.judgeReconnect();
    if (prop === "C19") this.judgeLimits();
    if (prop === "C20") this.settledFields();
    if (prop === "C27") this.checkImports(true);
    // listeners of the page do not pile up
    if (this.prop === "C21") {
      const n = b.dom.listenerCount(b.mount), m = countHandlers(this.ref) + 2 * [...b.elements()].length;
      if (n > m) this.violate("C21", "listeners", `${n} listeners for ${m} bound events`);
    }
  }
  // ------------------------------------------------------------ C18
  judgeReconnect() {
    const { b, plan } = this;
    const cfg = { reconnectInterval: 750, reconnectMaxInterval: 60000, reconnectMaxRetries: 150, reconnectBackoffMultiplier: 1.25, ...plan.cfg };
    let wait = cfg.reconnectInterval, retries = 0, ever = false;
    const ss = b.sockets;
    if (!ss.length) { this.violate("C18", "never-connected", "the client made no attempt"); return; }
    if (ss[0].sim.created > 100 + 3 * plan.late) this.violate("C18", "first-attempt", `the first attempt came at ${ss[0].sim.created}`);
    for (let i = 0; i < ss.length; i++) {
      const s = ss[i].sim, next = ss[i + 1] && ss[i + 1].sim;
      if (s.opened !== null) { ever = true; wait = cfg.reconnectInterval; retries = 0; }
      if (s.closed === null) { if (next) this.violate("C18", "two-connections", `attempt ${i + 1} without a lost connection`); break; }
      const more = ever && retries < cfg.reconnectMaxRetries;
      if (!more) {
        this.count(ever ? "gave_up" : "never_connected");
        if (next) this.violate("C18", ever ? "not-given-up" : "retried-unconnected", `attempt ${i + 1} after ${retries} consecutive failures (limit ${cfg.reconnectMaxRetries}, connected before: ${ever})`);
        break;
      }
      const due = s.closed + wait;
      if (!next) { if (due + plan.late + 5 < plan.horizon) this.violate("C18", "no-retry", `the connection was lost at ${s.closed.toFixed(1)}, no attempt at ${due.toFixed(1)} or later (${retries} consecutive failures, limit ${cfg.reconnectMaxRetries})`); break; }
      if (next.created < due - 0.01 || next.created > due + plan.late + 0.01) this.violate("C18", "wait", `attempt ${i + 1} came ${(next.created - s.closed).toFixed(1)} ms after the loss, expected ${wait} (+ up to ${plan.late})`);
      this.count("reconnections");
      wait = Math.min(wait * cfg.reconnectBackoffMultiplier, cfg.reconnectMaxInterval);
      retries++;
    }
  }
  // ------------------------------------------------------------ C19
  judgeLimits() {
    const { plan } = this, groups = new Map();
    for (const s of this.submitted) {
      const k = `${s.el} ${s.name} ${s.target}`;
      if (!groups.has(k)) groups.set(k, { spec: s.spec, field: !/^(button|div)$/.test(this.plan.widgets.find((w) => w.handlers.includes(s.spec)).kind), name: k, ev: [], out: [] });
      groups.get(k).ev.push(s);
    }
    const home = new Map();
    for (const [k, g] of groups) for (const e of g.ev) home.set(e.mark, g);
    for (const s of this.sends) { const g = home.get(s.m.data?.[0]?.mark); if (g) g.out.push({ t: s.t, mark: s.m.data[0].mark, value: s.m.data[0].target?.value, now: s.now }); else this.violate("C19", "unknown", `message ${JSON.stringify(s.m).slice(0, 100)} belongs to no event`); }
    const late = plan.late + 0.01;
    for (const g of groups.values()) {
      const I = validMs(g.spec.throttle), D = g.field ? validMs(g.spec.debounce) : 0;
      const gone = (e) => e.gone !== null;
      if (I > 0 && D > 0) {
        // what the delay lets through is limited by the interval
        this.count("throttled_handlers"); this.count("both_limits");
        let last = null;
        for (const o of g.out) {
          const e = g.ev.find((x) => x.mark === o.mark);
          if (last && o.t - last.t < I - 0.01) this.violate("C19", "throttle-rate", `${g.name}: messages at ${last.t.toFixed(1)} and ${o.t.toFixed(1)}, the interval is ${I}`);
          if (last && o.mark < last.mark) this.violate("C19", "order", `${g.name}: event ${o.mark} was sent after ${last.mark}`);
          if (o.t < e.t + D - 0.01) this.violate("C19", "debounce-early", `${g.name}: event ${e.mark} of ${e.t.toFixed(1)} was sent at ${o.t.toFixed(1)} (delay ${D})`);
          last = o;
        }
        g.ev.forEach((e, i) => {
          const nx = g.ev[i + 1], due = e.t + D;
          const o = g.out.find((x) => x.mark === e.mark);
          if (nx && nx.t < due - 0.01) { if (o) this.violate("C19", "debounce-early", `${g.name}: event ${e.mark} of ${e.t.toFixed(1)} was sent although the next came at ${nx.t.toFixed(1)} (delay ${D})`); return; }
          if (nx && nx.t <= due + late) return;
          // it, or a later one, is sent within the interval
          const by = Math.max(due + late, ...g.out.filter((x) => x.t < due + late).map((x) => x.t + I)) + late;
          if (by < plan.horizon && !g.out.some((x) => x.mark >= e.mark && x.t <= by)) this.violate("C19", "lost", `${g.name}: event ${e.mark} of ${e.t.toFixed(1)} was not sent by ${by.toFixed(1)}`);
        });
        if (new Set(g.out.map((o) => o.mark)).size !== g.out.length) this.violate("C19", "twice", `${g.name}: an event was sent twice`);
      } else if (I > 0) {
        this.count("throttled_handlers");
        let last = -Infinity;
        for (const o of g.out) {
          if (o.t - last < I - 0.01) { this.violate("C19", "throttle-rate", `${g.name}: messages at ${last.toFixed(1)} and ${o.t.toFixed(1)}, the interval is ${I}`); break; }
          last = o.t;
        }
        for (const e of g.ev) {
          const prior = g.out.filter((o) => o.t < e.t - 1e-9), L = prior.length ? prior[prior.length - 1].t : -Infinity;
          const due = Math.max(e.t, L + I);
          const same = g.out.find((o) => o.t >= e.t - 1e-9 && o.mark >= e.mark && o.t <= due + (due > e.t + 1e-9 ? late : 1e-9) + 1e-9);
          const sentNow = g.out.find((o) => Math.abs(o.t - e.t) < 1e-9);
          if (!same && !(sentNow && sentNow.mark >= e.mark)) {
            // an event at the very moment of an earlier one waits for the next interval
            const at = g.out.filter((o) => o.t <= e.t + 1e-9), L2 = at.length ? at[at.length - 1].t : -Infinity;
            const ok = g.out.find((o) => o.mark >= e.mark && o.t <= Math.max(e.t, L2 + I) + late);
            if (!ok) { this.violate("C19", "throttle-lost", `${g.name}: the event at ${e.t.toFixed(1)} (number ${e.mark}) was not sent by ${due.toFixed(1)}; sent: ${g.out.map((o) => `${o.mark}@${o.t.toFixed(1)}`).join(" ")}`); break; }
          }
        }
        for (const o of g.out) {
          const latest = g.ev.filter((e) => e.t < o.t - 1e-9 || (Math.abs(e.t - o.t) < 1e-9 && e.mark <= o.mark)).pop();
          if (latest && latest.mark > o.mark) { this.violate("C19", "throttle-old", `${g.name}: event ${o.mark} was sent at ${o.t.toFixed(1)} although ${latest.mark} had come`); break; }
        }
        if (new Set(g.out.map((o) => o.mark)).size !== g.out.length) this.violate("C19", "twice", `${g.name}: an event was sent twice`);
      } else if (D > 0) {
        this.count("debounced_handlers");
        // expected: after each event that is followed by D of quiet
        g.ev.forEach((e, i) => {
          const nx = g.ev[i + 1];
          const due = e.t + D;
          const o = g.out.find((x) => x.mark === e.mark);
          if (nx && nx.t < due - 0.01) { if (o) this.violate("C19", "debounce-early", `${g.name}: event ${e.mark} of ${e.t.toFixed(1)} was sent at ${o.t.toFixed(1)} although the next came at ${nx.t.toFixed(1)} (delay ${D})`); }
          else if (nx && nx.t <= due + late) { /* either */ if (o && o.t < due - 0.01) this.violate("C19", "debounce-early", `${g.name}: sent after ${(o.t - e.t).toFixed(1)}`); }
          else if (!o) { if (due + late < plan.horizon) this.violate("C19", "debounce-lost", `${g.name}: event ${e.mark} of ${e.t.toFixed(1)} was never sent`); }
          else if (o.t < due - 0.01 || o.t > due + late) this.violate("C19", "debounce-time", `${g.name}: event ${e.mark} of ${e.t.toFixed(1)} was sent at ${o.t.toFixed(1)}, expected ${due.toFixed(1)}`);
          else if (/Change|Input/.test(e.name) && !gone(e) && o.value !== undefined && o.value !== e.value && o.value !== o.now) this.violate("C19", "debounce-data", `${g.name}: sent value ${o.value}, the latest was ${e.value}`);
        });
        if (new Set(g.out.map((o) => o.mark)).size !== g.out.length) this.violate("C19", "twice", `${g.name}: an event was sent twice`);
      } else {
        g.ev.forEach((e) => { const o = g.out.filter((x) => x.mark === e.mark); if (o.length !== 1 || Math.abs(o[0].t - e.t) > 1e-9) this.violate("C19", "unlimited", `${g.name}: the event at ${e.t} of a handler without limits was sent at ${o.map((x) => x.t)}`); });
      }
    }
  }
  // ------------------------------------------------------------ C27
  onModule(name, res, rej) {
    const base = name.replace(/^.*\//, ""), m = this.plan.modules?.[base];
    if (name === "react" || name === "react-dom/client") {
      const R = this.plan.react, what = name === "react" ? 0 : 1;
      if (!R) return null;
      this.count("react_loads");
      this.loading = (this.loading || 0) + 1;
      this.b.after(R.delays[what], () => {
        this.loading--;
        this.lastLoad = this.b.now;
        if (R.lacks === what) { this.count("fault_react_missing"); rej(new Error("cannot load")); return; }
        res(what ? { createRoot: (node) => this.createRoot(node) } : { createElement: (type, props, ...children) => ({ type, props, children }) });
      });
      return undefined;
    }
    if (!m) return null;
    if (!m.n) this.imports[base] = this.imports[base] || 0;
    const i = (this.imports[base] = (this.imports[base] || 0) + 1) - 1;
    const d = m.delays[i % m.delays.length];
    this.count("module_loads");
    if (d) this.count("fault_module_delayed");
    this.loading = (this.loading || 0) + 1;
    this.b.after(d, () => {
      this.loading--;
      this.lastLoad = this.b.now;
      if (m.fail.includes(i)) { this.count("fault_module_failed"); rej(new Error("cannot load")); return; }
      this.ev("module", base);
      res(this.moduleFor(base, m));
    });
    return undefined;
  }
  // what react-dom/client would have to say about the way it is used
  createRoot(node) {
    if (this.imports.binds.some((x) => x.root && x.node === node && x.live)) this.v27("root-twice", "createRoot was called for a node that has a root");
    const rec = { base: null, node, live: true, shows: null, id: this.imports.binds.length, root: true };
    this.imports.binds.push(rec);
    this.count("react_roots");
    this.ev("root", rec.id);
    return {
      render: (el) => {
        this.ev("render", rec.id);
        if (!rec.live) return this.v27("unmounted-root", "an unmounted root was rendered");
        rec.shows = el; rec.at = this.b.now;
      },
      unmount: () => { this.ev("unmount", rec.id); if (!rec.live) this.v27("unmounted-twice", `root ${rec.id} was unmounted twice`); rec.live = false; rec.shows = null; },
    };
  }
  get react() { return this.plan.react && this.plan.react.lacks === null; }
  moduleFor(base, m) {
    if (!this.mods) this.mods = {};
    if (this.mods[base]) return this.mods[base];
    const self = this, mod = { Comp: `${base}:Comp`, Other: `${base}:Other`, Deep: { Inner: `${base}:Inner` } };
    if (m.lacks) delete mod[m.lacks];
    if (m.bind === "own") mod.bind = (node, ctx) => {
      const rec = { base, node, live: true, shows: null, id: self.imports.binds.length };
      self.imports.binds.push(rec);
      self.count("module_binds");
      rec.ctx = ctx; self.ev("bind", rec.id, base);
      return {
        create: (type, props, children) => ({ type, props, children }),
        render: (el) => {
          self.ev("render", rec.id); if (!rec.live) rec.live = true; // rendered again after it was unmounted
          rec.shows = el; rec.at = self.b.now;
        },
        unmount: () => { self.ev("unmount", rec.id); if (!rec.live) self.violate("C27", "unmounted-twice", `binding ${rec.id} of ${base} was unmounted twice`); rec.live = false; rec.shows = null; },
      };
    };
    else if (!this.react) {
      const P = this.lib.__preact;
      const mk = (n) => {
        const ref = (node) => { this.mounted = this.mounted || {}; this.mounted[n] = (this.mounted[n] || 0) + (node ? 1 : -1); };
        return (props) => P.createElement("i", { title: n, "data-n": props.n, onPing: props.onPing, ref }, props.children);
      };
      for (const k of ["Comp", "Other"]) if (mod[k]) mod[k] = mk(mod[k]);
      mod.Deep.Inner = mk(mod.Deep.Inner);
    }
    return (this.mods[base] = mod);
  }
  importNodes() {
    // pairs of page element and model of the outermost imported components
    const out = [], { b } = this;
    const rec = (n, level) => {
      const els = b.dom.kidsOf(n).filter((x) => x instanceof b.dom.Element), ms = level.filter((x) => typeof x === "object");
      els.forEach((e, i) => { const m = ms[i]; if (!m) return; if (m.opaque) out.push([e, m.model]); else rec(e, m.kids); });
    };
    rec(b.mount, expectNodes(this.ref));
    return out;
  }
  checkImports(end) {
    if (this.shown || this.c27) return;
    const { b, plan } = this;
    // a module may load more of them once it has been rendered
    const quiet = !this.loading && b.now - Math.max(this.lastUpdate, this.lastLoad ?? -1e9) > 200 + 10 * plan.late;
    const live = this.imports.binds.filter((x) => x.live);
    const nodes = new Set();
    for (const [el, model] of this.importNodes()) {
      const mine = live.filter((x) => x.node === el).filter((x) => x.at !== undefined); // bound but never rendered: nothing to see
      nodes.add(el);
      // every import source that this place has shown is bound once
      const src = JSON.stringify(model.importSource);
      const place = (this.places ||= new Map()).get(el) || { src: null, periods: 0 };
      if (place.src !== src) { place.src = src; place.periods++; }
      this.places.set(el, place);
      const binds = this.imports.binds.filter((x) => x.node === el && !x.root).length;
      if (binds > place.periods) return this.v27("bound-again", `an imported component was bound ${binds} times for ${place.periods} import sources`);
      if (mine.filter((x) => x.shows).length > 1) return this.v27("bound-twice", `an imported component has ${mine.length} live bindings on its place`);
      if (!quiet) continue;
      const m = plan.modules[model.importSource.source];
      if (m.fail.length || Object.keys(plan.modules).some((k) => plan.modules[k].fail.length && JSON.stringify(model).includes(k))) continue;
      this.count("import_checks");
      if (m.bind === "own" || this.react) {
        if (!mine.length) return this.v27("not-bound", `<${model.tagName}> of ${model.importSource.source} has no live binding`);
        const want = importExpect(model, m, model.importSource), got = importGot(mine[0].shows);
        if (mine[0].base !== null && mine[0].base !== model.importSource.source) return this.v27("wrong-module", `bound to ${mine[0].base} instead of ${model.importSource.source}`);
        if (JSON.stringify(want) !== JSON.stringify(got)) return this.v27("stale", `the module shows ${JSON.stringify(got)}, the model is ${JSON.stringify(want)}`);
      } else {
        const g = JSON.stringify(canon(b.tree(el), false)), x = JSON.stringify(canon(importPreact(model, plan, model.importSource), false, true, this));
        if (g !== x) return this.v27("stale", `the page shows ${g} for an imported component, the model is ${x}`);
      }
    }
    for (const x of live) if (!x.node.isConnected && x.shows && b.now - this.lastUpdate > 60 + 3 * plan.late) return this.v27("not-unmounted", `binding ${x.id} of ${x.base} outlived its element`);
    if (quiet && this.mounted) {
      const n = {};
      (function rec(x) { for (const k of b.dom.kidsOf(x)) { if (k.getAttribute && k.getAttribute("title")) n[k.getAttribute("title")] = (n[k.getAttribute("title")] || 0) + 1; if (b.dom.kidsOf(k)) rec(k); } })(b.mount);
      for (const k in this.mounted) if (this.mounted[k] > (n[k] || 0)) return this.v27("not-unmounted", `${this.mounted[k]} instances of ${k} are mounted, the page has ${n[k] || 0}`);
    }
  }
  v27(k, m) { this.c27 = true; this.violate("C27", k, m); }
  ping(op) {
    const es = this.importNodes().filter(([el, m]) => m.eventHandlers?.onPing);
    if (!es.length) return;
    const [el, m] = es[op.nth % es.length];
    const r = this.imports.binds.find((x) => x.live && x.node === el && x.shows && x.shows.props);
    if (!r || typeof r.shows.props.onPing !== "function") return;
    if (this.b.now - this.lastUpdate < 60 + 3 * this.plan.late) return;
    const sock = this.b.sockets[this.b.sockets.length - 1], before = this.sends.length, mark = ++this.marks;
    if (!sock || sock.readyState !== 1) return;
    this.count("pings");
    r.shows.props.onPing({ mark });
    const got = this.sends.slice(before).map((s) => s.m.target);
    if (JSON.stringify(got) !== JSON.stringify([m.eventHandlers.onPing.target])) this.v27("binding", `calling onPing of an imported component sent ${JSON.stringify(got)}, the model binds ${m.eventHandlers.onPing.target}`);
    if (!r.ctx) return;
    // and what the module may use directly
    const b4 = this.sends.length;
    try { r.ctx.sendMessage({ type: "custom", data: [{ mark: ++this.marks }] }); } catch (e) { return this.v27("send-message", `sendMessage given to a module fails: ${e.message}`); }
    if (this.sends.length !== b4 + 1) this.v27("send-message", "sendMessage given to a module sent nothing");
  }
}

// ---- the reference server of mode "app": one session
class App {
  constructor(w, ws) {
    this.w = w; this.ws = ws; this.counter = 0; this.order = w.plan.widgets.map((_, i) => i); this.hidden = new Set();
    this.gen = w.plan.widgets.map(() => 0);
    this.val = w.plan.widgets.map((x) => x.value0);
    this.ack = w.plan.widgets.map(() => null);
    this.ackMark = w.plan.widgets.map(() => -1);
    this.queue = []; this.busy = false;
  }
  start() { this.w.b.after(this.ws.sim.conf.first, () => this.push("root")); }
  target(i, n) { return `c${this.ws.id}.${this.w.plan.widgets[i].id}.${this.gen[i]}.${n}`; }
  widget(i) {
    const w = this.w.plan.widgets[i];
    const m = { tagName: w.kind, attributes: { id: w.id } };
    if (w.keyed) m.attributes.key = w.id;
    if (w.kind !== "button" && w.kind !== "div") {
      if (this.val[i] !== null) m.attributes.value = this.val[i];
      if (this.ack[i] !== null) m.attributes._reactpy_ack_seq = this.ack[i];
      if (w.kind === "select") m.children = ["a", "b", "c"].map((v) => ({ tagName: "option", attributes: { value: v }, children: [v] }));
    } else m.children = [`${w.id} ${this.counter}`];
    m.eventHandlers = {};
    for (const h of w.handlers) {
      const o = (m.eventHandlers[h.name] = { target: this.target(i, h.name), preventDefault: !!h.preventDefault, stopPropagation: !!h.stopPropagation });
      if (h.throttle !== undefined) o.throttle = h.throttle;
      if (h.debounce !== undefined) o.debounce = h.debounce;
    }
    return m;
  }
  shownOrder() { return this.order.filter((i) => !this.hidden.has(i)); }
  div() { return { tagName: "div", attributes: { id: "top" }, children: [...this.shownOrder().map((i) => this.widget(i)), { tagName: "p", attributes: { key: "p" }, children: [String(this.counter)] }] }; }
  push(scope, i) {
    const pos = this.shownOrder().indexOf(i);
    const base = "/children/0";
    let path = "", model;
    if (!this.sentRoot) scope = "root";
    if (scope === "widget" && pos >= 0) { path = `${base}/children/${pos}`; model = this.widget(i); }
    else if (scope === "counter") { path = `${base}/children/${this.shownOrder().length}`; model = { tagName: "p", attributes: { key: "p" }, children: [String(this.counter)] }; }
    else if (scope === "div") { path = base; model = this.div(); }
    else { model = { tagName: "", children: [this.div()] }; this.sentRoot = true; }
    // what the update says about each field
    const said = {};
    this.w.plan.widgets.forEach((x, j) => { if (path === "" || path === base || (scope === "widget" && j === i)) said[x.id] = this.ackMark[j]; });
    this.w.down(this.ws, { type: "layout-update", path, model }, () => {
      if (this.w.ackConn !== this.ws.id) { this.w.ackConn = this.ws.id; this.w.refAck = {}; }
      Object.assign(this.w.refAck, said);
    });
  }
  op(op) {
    if (this.ws.readyState !== 1 || !this.sentRoot) return;
    this.counter++;
    const i = op.w;
    if (op.op === "tick") this.push(op.scope, i);
    else if (op.op === "hide") { if (this.w.prop === "C20" && !this.w.plan.widgets[i].keyed) return; if (this.hidden.has(i)) { this.hidden.delete(i); this.gen[i]++; this.val[i] = this.w.plan.widgets[i].value0; this.ack[i] = null; this.ackMark[i] = -1; } else this.hidden.add(i); this.push("div"); }
    else if (op.op === "swap") { if (this.w.plan.widgets.every((x) => x.keyed)) { this.order.unshift(this.order.pop()); this.push("div"); } }
    else if (op.op === "rename") { this.push("root"); }
    else if (op.op === "retarget") { this.w.count("retargets"); this.gen[i]++; this.push("widget", i); }
  }
  receive(m) { this.queue.push(m); if (!this.busy) this.work(); }
  work() {
    const m = this.queue.shift();
    if (!m) { this.busy = false; return; }
    this.busy = true;
    this.w.b.after(this.w.plan.handle, () => {
      if (this.ws.readyState !== 1) return;
      this.handle(m);
      this.work();
    });
  }
  handle(m) {
    const ws = this.w.plan.widgets;
    for (let i = 0; i < ws.length; i++) for (const h of ws[i].handlers) {
      if (this.target(i, h.name) !== m.target || this.hidden.has(i)) continue;
      this.w.count("handled");
      const x = ws[i];
      if (x.kind === "button" || x.kind === "div") { this.counter++; this.later("div", i); return; }
      this.ack[i] = Math.max(this.ack[i] ?? -1, m.seq);
      this.ackMark[i] = Math.max(this.ackMark[i], m.data[0].mark);
      const v = m.data[0].target?.value;
      if (h.name === "onChange" || h.name === "onInput") {
        const t = x.transform;
        if (typeof v === "string") this.val[i] = t === "same" ? v : t === "upper" ? v.toUpperCase() : t === "clear" ? "" : t === "cut" ? v.slice(0, 3) : t === "number" ? v.length : this.val[i];
      }
      this.later("widget", i);
      return;
    }
  }
  later(scope, i) {
    this.w.b.after(this.w.plan.render, () => { if (this.ws.readyState === 1) this.push(scope, i); });
  }
}

// ================================================================ what the page must show
const validMs = (v) => (typeof v === "number" && Number.isInteger(v) && v >= 0 ? v : 0);
// what handlers are told about the element of an event
function dataOf(el, at = []) {
  const out = [];
  if (/^(input|textarea|select)$/.test(el.localName)) out.push([[...at, "value"], el.value]);
  if (el.localName === "input" && el.type === "checkbox") out.push([[...at, "checked"], el.checked]);
  if (el.localName === "form") for (const e of el.elements) if (e.name && el.elements.find((x) => x.name === e.name) === e) out.push(...dataOf(e, [e.name]));
  return out;
}
function evNames(tag, ev) {
  if (ev === "submit") return ["onSubmit"];
  if (ev === "click") return ["onClick"];
  if (ev === "mousedown") return ["onMouseDown"];
  if (ev === "keydown") return ["onKeyDown"];
  // text fields report changes on the input event
  if (ev === "input") return tag === "input" || tag === "textarea" ? ["onChange"] : [];
  if (ev === "change") return tag === "select" || !/^(input|textarea)$/.test(tag) ? ["onChange"] : [];
  return [];
}
function expectNodes(model, out = []) {
  if (typeof model === "string") { out.push(model); return out; }
  if (model.error !== undefined) { if (model.error) out.push({ tag: "pre", attrs: {}, kids: [model.error], model: { tagName: "pre" } }); return out; }
  if (model.importSource) { out.push({ tag: "span", attrs: {}, kids: [], opaque: true, model }); return out; }
  if (model.tagName === "") { for (const c of model.children || []) expectNodes(c, out); return out; }
  if (model.tagName === "script") {
    // runs after the paint, in an element of its own
    const at = {};
    for (const [k, v] of Object.entries(model.attributes || {})) if (k !== "key" && v !== false && v !== null) at[k === "className" ? "class" : k.toLowerCase()] = v === true ? "" : String(v);
    out.push({ tag: "div", attrs: {}, model, kids: [{ tag: "script", attrs: at, kids: [...(model.children || [])], model }] });
    return out;
  }
  const o = { tag: model.tagName, attrs: {}, kids: [], model };
  const field = /^(input|textarea|select)$/.test(model.tagName);
  for (const [k, v] of Object.entries(model.attributes || {})) {
    if (k === "key" || (field && (k === "value" || k === "checked" || k === "_reactpy_ack_seq"))) continue;
    if (k === "style") { if (Object.keys(v).length) o.style = v; continue; }
    if (v === false || v === null || v === undefined) continue;
    o.attrs[k === "className" ? "class" : k] = v === true ? "" : String(v);
  }
  if (model.attributes?.type === "checkbox") o.checked = !!model.attributes.checked;
  if (field && model.attributes?.value !== undefined && model.attributes.value !== null) o.value = String(model.attributes.value);
  for (const c of model.children || []) expectNodes(c, o.kids);
  out.push(o);
  return out;
}
function canon(nodes, values, expected, w) {
  const out = [];
  for (const n of nodes) {
    if (typeof n === "string") { if (n === "") continue; if (typeof out[out.length - 1] === "string") out[out.length - 1] += n; else out.push(n); continue; }
    if (n.tag === "script" && !values) continue;
    const o = { tag: n.tag, attrs: Object.fromEntries(Object.entries(n.attrs).sort(([a], [b]) => (a < b ? -1 : 1))) };
    if (n.style && Object.keys(n.style).length) o.style = Object.fromEntries(Object.entries(n.style).sort());
    if (n.checked !== undefined) o.checked = n.checked;
    if (n.tag === "script") o.attrs = Object.fromEntries(Object.entries(o.attrs).filter(([k]) => k !== "key").map(([k, v]) => [k.toLowerCase(), v === "true" ? "" : v]).sort(([a], [b]) => (a < b ? -1 : 1)));
    o.kids = n.tag === "span" && (n.opaque || isMount(n)) ? "…" : canon(n.kids, values, expected, w);
    out.push(o);
  }
  return out;
}
// spans that imported components are mounted in carry no attributes; models here never make such spans with content
function isMount(n) { return n.tag === "span" && !Object.keys(n.attrs).length && !n.style; }
// script -> its place: what has to stay the same for it to stay mounted
function scriptsOf(m, out = new Map(), place = "") {
  if (typeof m !== "object") return out;
  if (m.tagName === "script") { out.set(m.attributes.src || m.children[0], place); return out; }
  place += `/${m.error !== undefined ? "!" : m.tagName}`;
  const list = m.children || [], unkeyed = list.every((c) => !c.attributes?.key);
  const kinds = list.map((c) => (typeof c === "object" ? "o" : "s")).join("");
  list.forEach((c, i) => scriptsOf(c, out, `${place}[${c.attributes?.key ? `key ${c.attributes.key}` : unkeyed ? `${i} ${kinds}` : "?"}]`));
  return out;
}
function findById(m, id) {
  if (typeof m !== "object") return null;
  if (m.attributes?.id === id) return m;
  for (const c of m.children || []) { const f = findById(c, id); if (f) return f; }
  return null;
}
function shape(t) { return t.map((n) => (typeof n === "string" ? 0 : [n.tag, shape(n.kids)])); }
function countHandlers(m) {
  if (typeof m !== "object") return 0;
  return Object.keys(m.eventHandlers || {}).length + Object.keys(m.inlineJavaScript || {}).length + (m.children || []).reduce((a, c) => a + countHandlers(c), 0);
}
// ---- imported components
function importExpect(model, m, cur) {
  if (typeof model === "string") return model;
  let type;
  if (model.importSource) {
    if (model.importSource.source !== cur.source || model.importSource.sourceType !== cur.sourceType) return { type: "reactpy-child" };
    if (m.lacks === model.tagName) return null;
    type = `${cur.source}:${model.tagName.split(".").pop()}`;
  } else type = model.tagName;
  return { type, n: model.attributes?.n, kids: (model.error !== undefined ? [] : model.children || []).map((c) => importExpect(c, m, cur)) };
}
function importGot(el) {
  if (el === null || el === undefined) return null;
  if (typeof el === "string") return el;
  if (el.type === "reactpy-child") return { type: "reactpy-child" };
  return { type: typeof el.type === "function" ? "" : el.type, n: el.props?.n, kids: (el.children || []).map(importGot) };
}
function importPreact(model, plan, cur) {
  if (typeof model === "string") return [model];
  const src = model.importSource;
  if (src && (src.source !== cur.source || src.sourceType !== cur.sourceType)) {
    // a component of another module inside: a place of its own
    const m = plan.modules[src.source];
    return [{ tag: "reactpy-child", attrs: {}, kids: [{ tag: "div", attrs: {}, style: { display: "contents" }, kids: m.bind === "own" || m.fail.length ? [] : importPreact(model, plan, src) }] }];
  }
  if (src) {
    const m = plan.modules[src.source];
    if (m.lacks === model.tagName) return [];
    return [{ tag: "i", attrs: { title: `${src.source}:${model.tagName.split(".").pop()}`, "data-n": String(model.attributes.n) }, kids: (model.children || []).flatMap((c) => importPreact(c, plan, cur)) }];
  }
  const kids = () => (model.children || []).flatMap((c) => importPreact(c, plan, cur));
  if (model.error !== undefined) return [];
  if (model.tagName === "") return kids();
  const o = expectNodes({ ...model, children: [] })[0];
  o.kids = kids();
  return [o];
}

// ================================================================ the worker's interface
async function run(plan, prop, wantTrace) { await ready; return new World(plan, prop, wantTrace).run(); }
const judge = (prop, plan, w) => w.bad.filter(([p]) => p === prop).map(([, k, m]) => [k, m]);
function nontrivial(prop, w) {
  const s = w.stats;
  switch (prop) {
    case "C17": return w.submitted.some((x) => !x.open) && (s.messages || 0) >= 2;
    case "C18": return (s.connections || 0) >= 2;
    case "C19": return (s.throttled_handlers || 0) + (s.debounced_handlers || 0) > 0 && w.submitted.length >= 3;
    case "C20": return (s.handled || 0) >= 2;
    case "C27": return (s.import_checks || 0) >= 1;
    default: return (s.updates || 0) >= 3;
  }
}
function* shrink(plan) {
  const n = plan.ops.length;
  for (let size = Math.max(1, n >> 1); size >= 1 && n; size >>= 1) { for (let i = 0; i < n; i += size) { const p = clone(plan); p.ops.splice(i, size); yield p; } if (size === 1) break; }
  for (let i = plan.conns.length - 1; i > 0; i--) { const p = clone(plan); p.conns.splice(i, 1); if (p.sessions) p.sessions.splice(Math.min(i, p.sessions.length - 1), 1); if (!p.sessions || p.sessions.length) yield p; }
  for (let i = 0; i < plan.conns.length; i++) for (const [k, v] of [["delay", 0], ["lat", 0], ["jitter", 0], ["up", 0], ["first", 0], ["fail", false], ["life", null]])
    if (plan.conns[i][k] !== v) { const p = clone(plan); p.conns[i][k] = v; yield p; }
  for (const k of ["late", "handle", "render"]) if (plan[k]) { const p = clone(plan); p[k] = 0; yield p; }
  if (Object.keys(plan.cfg).length) for (const k of Object.keys(plan.cfg)) { const p = clone(plan); delete p.cfg[k]; yield p; }
  if (plan.widgets && plan.widgets.length > 1) for (let i = 0; i < plan.widgets.length; i++) {
    const p = clone(plan); p.widgets.splice(i, 1); p.ops = p.ops.filter((o) => o.w !== i); p.ops.forEach((o) => { if (o.w > i) o.w--; }); yield p;
  }
  if (plan.sessions) for (let s = 0; s < plan.sessions.length; s++) {
    const ups = plan.sessions[s];
    for (let i = ups.length - 1; i > 0; i--) { const p = clone(plan); p.sessions[s].splice(i, 1); if (valid(p.sessions[s])) yield p; }
    if (ups.length > 1) { const p = clone(plan); p.sessions[s].splice(0, 1); if (p.sessions[s][0].path === "" && valid(p.sessions[s])) yield p; }
  }
  for (let s = 0; plan.sessions && s < plan.sessions.length; s++) for (let i = 0; i < plan.sessions[s].length; i++)
    for (const q of paths(plan.sessions[s][i].model)) {
      const p = clone(plan), m = p.sessions[s][i].model, parts = q.split("/"), k = +parts.pop();
      at(m, parts.join("/")).splice(k, 1);
      if (valid(p.sessions[s])) yield p;
    }
}
function valid(ups) {
  try { let m = { tagName: "" }; for (const u of ups) { if (u.path !== "" && typeof at(m, u.path) !== "object") return false; m = put(m, u.path, clone(u.model)); } return true; } catch { return false; }
}
module.exports = { gen, run, judge, nontrivial, shrink, ready, World, expectNodes, canon };
