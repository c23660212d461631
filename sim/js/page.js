"use strict";
// A simulated page with the real browser client as a coprocess: one JSON request per line on
// stdin, one JSON reply per line on stdout. Time is given by the requests.
const { Browser, tick } = require("./browser.js");
const { load } = require("./bundle.js");
const vm = require("vm");
const rl = require("readline").createInterface({ input: process.stdin });

let b = null, out = [], instantiate = null, mounts = [], loads = [];
const ready = Promise.resolve(load()).then((f) => { instantiate = f; });
const byId = (id, at) => { if (at !== null) for (const e of b.elements(at)) if (e.id === id) return e; return null; };

async function handle(q) {
  let r;
  if (q.c !== "new" && q.c !== "page") await b.runUntil(Math.max(q.t, b.now));
  if (q.c === "new") {
    out = [];
    b = new Browser({
      seed: q.seed, late: q.late, page: q.page,
      onConnect: (ws) => out.push(["connect", ws.id, ws.url]),
      onSend: (ws, d, open) => out.push(["send", ws.id, d, open]),
    });
    Browser.current = b;
    const lib = instantiate(b.globals);
    // what the script of the served page does
    vm.runInNewContext(q.script, {
      document: { getElementById: (id) => (id === q.mount ? b.mount : null) },
      mountReactPy: (o) => { try { lib.mountReactPy(o); } catch (e) { b.error(e); } },
    });
    await tick();
    await b.runUntil(0);
  } else if (q.c === "page") {
    // a whole document: its elements, then its scripts in the order in which a browser runs them
    out = []; mounts = []; loads = [];
    b = new Browser({
      seed: q.seed, late: q.late, page: q.page,
      onConnect: (ws) => out.push(["connect", ws.id, ws.url]),
      onSend: (ws, d, open) => out.push(["send", ws.id, d, open]),
      onModule: (name, res, rej) => { loads.push({ name, res, rej }); out.push(["module", loads.length - 1, name]); },
    });
    Browser.current = b;
    const doc = b.dom.document, lib = instantiate(b.globals);
    const add = (to, nodes) => {
      for (const n of nodes) {
        if (typeof n === "string") { to.appendChild(doc.createTextNode(n)); continue; }
        const e = doc.createElement(n.tag);
        for (const [k, v] of Object.entries(n.attrs)) e.setAttribute(k, v);
        to.appendChild(e);
        add(e, n.kids);
      }
    };
    add(doc.head, q.head); add(doc.body, q.body);
    const head = [];
    const ctx = vm.createContext({
      console: { debug() {}, log() {}, warn() {}, error() {} },
      __use: (url) => { out.push(["script", url]); return { mountReactPy: (o) => {
        mounts.push(o.mountElement);
        try { lib.mountReactPy(o); } catch (e) { b.error(e); }
      } }; },
      document: {
        getElementById: (id) => byId(id, doc.head) || byId(id, doc.body),
        querySelector: (s) => head.find((x) => "#" + x.id === s) || byId(s.slice(1), doc.head) || byId(s.slice(1), doc.body),
        createElement: () => ({}), head: { appendChild: (x) => { head.push(x); out.push(["importmap", x.type, x.textContent, x.id]); } },
      },
    });
    const exec = (t) => { try { vm.runInContext(t, ctx); } catch (e) { b.error(e); } };
    for (const x of q.scripts) if (!x.module) exec(x.text);
    for (const x of q.scripts) if (x.module) exec("(() => {" + x.text.replace(/import\s*(\{[^}]*\})\s*from\s*("[^"]*"|'[^']*')/g, "const $1 = __use($2)") + "})()");
    await tick();
    await b.runUntil(0);
  } else if (q.c === "mounts") r = mounts.map((m) => m && m.id);
  else if (q.c === "whole") r = [b.tree(b.dom.document.head), b.tree(b.dom.document.body)];
  else if (q.c === "press") {
    const el = byId(q.id, mounts[q.m]);
    if (el) { b.event(el, "click", { mark: q.mark }); r = true; }
  } else if (q.c === "shown") r = mounts[q.m] ? b.tree(mounts[q.m]) : null;
  else if (q.c === "loaded") {
    // the module tells what it was made from
    const l = loads[q.i];
    if (q.text === null) l.rej(new Error("cannot load " + l.name));
    else l.res({
      Gadget: "Gadget",
      bind: (node) => ({
        create: (type, props, children) => ({ type, props, children }),
        render: (el) => { node.__ping = el.props.onPing; node.textContent = `${q.text} ${el.type} ${el.props.n}`; },
        unmount: () => { node.textContent = ""; },
      }),
    });
  } else if (q.c === "ping") {
    const find = (n) => { for (const e of b.elements(n)) if (e.__ping) return e; return null; };
    const el = mounts[q.m] && find(mounts[q.m]);
    if (el) { el.__ping({ mark: q.mark }); r = true; }
  } else if (q.c === "open") b.wsOpen(b.sockets[q.ws]);
  else if (q.c === "msg") b.wsMessage(b.sockets[q.ws], q.data);
  else if (q.c === "closing") b.wsClosing(b.sockets[q.ws]);
  else if (q.c === "close") b.wsClose(b.sockets[q.ws], q.clean, q.code);
  else if (q.c === "tree") r = b.tree();
  else if (q.c === "clock") b.wall += q.by;
  else if (q.c === "goto") b.goto(q.to);
  else if (q.c === "hidden") b.hidden = q.on;
  else if (q.c === "fire") {
    const els = [...b.elements()];
    const el = els[q.nth !== undefined ? q.nth : Math.floor(q.at * els.length)];
    if (el) { const e = b.event(el, q.type, { mark: q.mark }); r = [el.localName, el.id, e.defaultPrevented]; }
  } else if (q.c === "type") {
    const el = byId(q.id);
    if (el) {
      const v = q.txt === "back" ? el.value.slice(0, -1) : el.value + q.txt;
      b.dom.userSet(el, v);
      b.event(el, "input", { mark: q.mark });
      r = v;
    }
  } else if (q.c === "click") {
    const el = byId(q.id);
    if (el) { b.event(el, "click", { mark: q.mark }); r = true; }
  } else if (q.c === "value") { const el = byId(q.id); r = el ? el.value : null; }
  await tick();
  await b.runUntil(Math.max(q.t || 0, b.now));
  const o = out, errors = b.errors.splice(0), next = b.next;
  out = [];
  return { r: r === undefined ? null : r, out: o, errors, next: next === Infinity ? null : next, steps: b.steps };
}

let chain = ready;
rl.on("line", (line) => {
  chain = chain.then(async () => {
    let a;
    try { a = await handle(JSON.parse(line)); }
    catch (e) { a = { fail: String((e && e.stack) || e) }; }
    process.stdout.write(JSON.stringify(a) + "\n");
  });
});
rl.on("close", () => process.exit(0));
