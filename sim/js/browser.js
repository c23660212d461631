"use strict";
// One simulated browser page on a virtual clock: timers, animation frames, WebSocket, location,
// DOM. Everything that happens is an entry of one queue ordered by (time, arrival).
const { makeDom } = require("./dom.js");

class Rng {
  constructor(seed) {
    let h = 1779033703 ^ String(seed).length;
    for (const ch of String(seed)) { h = Math.imul(h ^ ch.charCodeAt(0), 3432918353); h = (h << 13) | (h >>> 19); }
    this.s = [0, 0, 0, 0].map(() => { h = Math.imul(h ^ (h >>> 16), 2246822507); h = Math.imul(h ^ (h >>> 13), 3266489909); return (h ^= h >>> 16) >>> 0; });
    for (let i = 0; i < 12; i++) this.random();
  }
  random() {
    const s = this.s;
    let t = (s[0] + s[1]) | 0;
    t = (t + s[3]) | 0; s[3] = (s[3] + 1) | 0;
    s[0] = s[1] ^ (s[1] >>> 9); s[1] = (s[2] + (s[2] << 3)) | 0;
    s[2] = (s[2] << 21) | (s[2] >>> 11); s[2] = (s[2] + t) | 0;
    return (t >>> 0) / 4294967296;
  }
  int(a, b) { return a + Math.floor(this.random() * (b - a + 1)); }
  pick(a) { return a[Math.floor(this.random() * a.length)]; }
  chance(p) { return this.random() < p; }
  shuffle(a) { a = [...a]; for (let i = a.length - 1; i > 0; i--) { const j = this.int(0, i); [a[i], a[j]] = [a[j], a[i]]; } return a; }
}

const tick = () => new Promise((r) => setImmediate(r));

class Browser {
  // o: {seed, late (max lateness of timers, ms), page {path, qs}, onConnect(ws), onSend(ws, data), onModule(name)}
  constructor(o) {
    this.o = o;
    this.now = 0;
    this.wall = 1_700_000_000_000; // wall clock minus simulated time; a fault may move it
    this.queue = [];
    this.seq = 0;
    this.rng = new Rng(o.seed);
    this.errors = [];
    this.logs = [];
    this.sockets = [];
    this.timers = new Map();
    this.hidden = false;
    this.steps = 0;
    this.onWrite = null;
    this.onScript = null;
    const self = this;
    const d = (this.dom = makeDom({
      error: (e) => self.error(e),
      programWrite: (el, before, v) => self.onWrite && self.onWrite(el, before, v),
      hidden: () => self.hidden,
      script: (n) => self.onScript && self.onScript(n),
    }));
    const loc = (this.location = { pathname: o.page?.path ?? "/", search: o.page?.qs ?? "", protocol: o.page?.tls ? "https:" : "http:", host: "sim.test", hash: "" });
    Object.defineProperty(loc, "origin", { get: () => `${loc.protocol}//${loc.host}` });
    Object.defineProperty(loc, "href", { get: () => `${loc.origin}${loc.pathname}${loc.search}` });
    class WebSocket extends d.EventTarget {
      constructor(url, protocols) {
        super();
        this.url = String(url);
        this.protocols = protocols;
        this.readyState = 0;
        this.id = self.sockets.length;
        this.onopen = this.onmessage = this.onclose = this.onerror = null;
        self.sockets.push(this);
        self.o.onConnect(this);
      }
      send(data) {
        if (this.readyState === 0) throw new Error("InvalidStateError: still connecting");
        self.o.onSend(this, data, this.readyState === 1);
      }
      close() {
        if (this.readyState >= 2) return;
        this.readyState = 2;
        self.after(1, () => self.wsClose(this, true));
      }
    }
    Object.assign(WebSocket, { CONNECTING: 0, OPEN: 1, CLOSING: 2, CLOSED: 3 });
    Object.assign(WebSocket.prototype, { CONNECTING: 0, OPEN: 1, CLOSING: 2, CLOSED: 3 });
    const RealDate = Date;
    class SimDate extends RealDate {
      constructor(...a) { if (a.length) super(...a); else super(self.wall + self.now); }
      static now() { return Math.floor(self.wall + self.now); }
    }
    const setTimer = (f, ms = 0, ...a) => {
      ms = Math.max(0, +ms || 0);
      const id = ++self.seq;
      const late = self.o.late ? self.rng.random() * self.o.late : 0;
      self.timers.set(id, self.after(ms + late, () => { self.timers.delete(id); typeof f === "function" && f(...a); }, "timer"));
      return id;
    };
    const clearTimer = (id) => { const t = self.timers.get(id); if (t) { t.dead = true; self.timers.delete(id); } };
    const frames = new Map();
    const g = (this.globals = {
      ...d, WebSocket, Date: SimDate, location: loc,
      setTimeout: setTimer, clearTimeout: clearTimer,
      setInterval: (f, ms, ...a) => { const id = ++self.seq; const go = () => { self.timers.set(id, self.after(Math.max(1, ms), () => { go(); f(...a); }, "timer")); }; go(); return id; },
      clearInterval: clearTimer,
      requestAnimationFrame: (f) => {
        const id = ++self.seq;
        // no frames while the tab is hidden
        const go = () => self.after(16 - (self.now % 16) || 16, () => { if (!frames.has(id)) return; if (self.hidden) go(); else { frames.delete(id); f(self.now); } }, "frame");
        frames.set(id, go());
        return id;
      },
      cancelAnimationFrame: (id) => { const t = frames.get(id); if (t) { t.dead = true; frames.delete(id); } },
      performance: { now: () => self.now },
      console: Object.fromEntries(["log", "info", "warn", "error", "debug", "trace"].map((k) => [k, (...a) => self.logs.push([k, ...a])])),
      navigator: { userAgent: "sim", onLine: true }, process: undefined, setImmediate: undefined, crypto: undefined,
      localStorage: undefined, sessionStorage: undefined, fetch: undefined,
      history: { pushState: (_, __, u) => self.goto(u), replaceState: (_, __, u) => self.goto(u) },
      __sim_import: (name) => self.importModule(String(name)),
    });
    const math = Object.create(null);
    for (const k of Object.getOwnPropertyNames(Math)) math[k] = Math[k];
    math.random = () => self.rng.random();
    g.Math = math;
    const w = new d.Window();
    for (const k of Object.keys(g)) w[k] = g[k];
    w.getSelection = () => null;
    w.window = w;
    g.window = g.globalThis = g.self = w;
    this.window = w;
    this.mount = d.document.createElement("div");
    d.document.body.appendChild(this.mount);
  }
  goto(u) { const m = /^([^?#]*)(\?[^#]*)?/.exec(u); this.location.pathname = m[1]; this.location.search = m[2] || ""; }
  importModule(name) {
    return new Promise((res, rej) => {
      const r = this.o.onModule ? this.o.onModule(name, res, rej) : null;
      if (r === undefined) return;
      Promise.resolve().then(() => rej(new Error("no module " + name)));
    });
  }
  error(e) { this.errors.push(String((e && e.stack) || e).split("\n").slice(0, 4).join(" | ")); }
  after(ms, f, what) { return this.at(this.now + ms, f, what); }
  at(t, f, what) {
    const e = { t, n: ++this.seq, f, what, dead: false };
    // keep the queue sorted; it stays short
    let i = this.queue.length;
    while (i > 0 && (this.queue[i - 1].t > t)) i--;
    this.queue.splice(i, 0, e);
    return e;
  }
  get next() { while (this.queue.length && this.queue[0].dead) this.queue.shift(); return this.queue.length ? this.queue[0].t : Infinity; }
  async step() {
    if (this.next === Infinity) return false;
    const e = this.queue.shift();
    if (e.t > this.now) this.now = e.t;
    this.steps++;
    try { e.f(); } catch (err) { this.error(err); }
    await tick();
    return true;
  }
  async runUntil(t) {
    await tick();
    while (this.next <= t) { await this.step(); if (this.steps > 60000) throw new Error("too many steps"); }
    if (t > this.now) this.now = t;
  }
  // ---- what the network does to a socket
  fire(ws, type, init) {
    const e = new this.dom.Event(type, init);
    const f = ws["on" + type];
    if (f) { try { f.call(ws, e); } catch (err) { this.error(err); } }
    ws.dispatchEvent(e);
  }
  wsOpen(ws) { if (ws.readyState === 0) { ws.readyState = 1; this.fire(ws, "open", {}); } }
  wsMessage(ws, data) { if (ws.readyState === 1) this.fire(ws, "message", { data }); }
  wsClosing(ws) { if (ws.readyState < 2) ws.readyState = 2; }
  wsClose(ws, clean, code) {
    if (ws.readyState === 3) return;
    ws.readyState = 3;
    if (!clean) this.fire(ws, "error", {});
    this.fire(ws, "close", { code: code || (clean ? 1000 : 1006), wasClean: !!clean });
  }
  // ---- what is on the page
  tree(n = this.mount) {
    return this.dom.kidsOf(n).map((k) => {
      if (k instanceof this.dom.Text) return k.data;
      const o = { tag: k.localName, attrs: this.dom.attrsOf(k), kids: this.tree(k) };
      const st = this.dom.styleOf(k);
      if (Object.keys(st).length) o.style = st;
      if (k.localName === "input" && k.type === "checkbox") o.checked = k.checked;
      if (k.localName === "input" || k.localName === "textarea" || k.localName === "select") o.value = k.value;
      return o;
    });
  }
  *elements(n = this.mount) { for (const k of this.dom.kidsOf(n)) if (k instanceof this.dom.Element) { yield k; yield* this.elements(k); } }
  event(el, type, init = {}) {
    const e = new this.dom.Event(type, { bubbles: true, ...init });
    el.dispatchEvent(e);
    return e;
  }
}
process.on("unhandledRejection", (e) => { if (Browser.current) Browser.current.error("unhandled " + ((e && e.stack) || e)); });
module.exports = { Browser, Rng, tick };
