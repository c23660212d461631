"use strict";
// Bundles the real browser client of the repository (TypeScript) with the stub preact and
// json-pointer beside this file; returns a function to instantiate it with given globals.
const fs = require("fs"), path = require("path"), crypto = require("crypto");
const { Script } = require("vm");
const REPO = process.env.VERIF_REPO || "/repo";
const PK = path.join(REPO, "src/js/packages");
const NODE_MODULES = "/opt/veriftools/node/node_modules";
const GLOBALS = ["window", "document", "WebSocket", "setTimeout", "clearTimeout", "setInterval",
  "clearInterval", "requestAnimationFrame", "cancelAnimationFrame", "Date", "performance",
  "console", "customElements", "HTMLElement", "Node", "Element", "Text", "Event", "CSSStyleSheet",
  "CSSStyleDeclaration", "Window", "Document", "HTMLFormElement", "HTMLInputElement",
  "HTMLSelectElement", "HTMLTextAreaElement", "location", "history",
  "navigator", "globalThis", "self", "Math", "__sim_import", "CloseEvent", "MessageEvent",
  "setImmediate", "process", "crypto", "localStorage", "sessionStorage", "fetch"];

function sources(dir, out = []) {
  for (const e of fs.readdirSync(dir, { withFileTypes: true }).sort((a, b) => (a.name < b.name ? -1 : 1))) {
    const p = path.join(dir, e.name);
    if (e.name === "node_modules" || e.name === "dist" || e.name === "tests") continue;
    if (e.isDirectory()) sources(p, out);
    else if (/\.(tsx?|jsx?|json)$/.test(e.name)) out.push(p);
  }
  return out;
}

function build() {
  const h = crypto.createHash("sha256");
  for (const f of [...sources(PK), ...["bundle.js", "preact.js", "json-pointer.js"].map((x) => path.join(__dirname, x))])
    h.update(f).update(fs.readFileSync(f));
  const dir = process.env.VERIF_JS_CACHE || path.join(__dirname, "..", "..", ".build");
  fs.mkdirSync(dir, { recursive: true });
  const out = path.join(dir, `client-${h.digest("hex").slice(0, 20)}.js`);
  if (fs.existsSync(out)) return out;
  const esbuild = require(path.join(NODE_MODULES, "esbuild"));
  const alias = {
    "preact": "preact.js", "preact/hooks": "preact.js", "preact/compat": "preact.js",
    "preact/compat/client": "preact.js", "preact/jsx-runtime": "preact.js",
    "preact/compat/jsx-runtime": "preact.js", "preact/jsx-dev-runtime": "preact.js",
    "json-pointer": "json-pointer.js",
  };
  const plugin = {
    name: "sim",
    setup(b) {
      b.onResolve({ filter: /^(preact(\/.*)?|json-pointer)$/ }, (a) => ({ path: path.join(__dirname, alias[a.path] || "preact.js") }));
      b.onResolve({ filter: /^event-to-object$/ }, () => ({ path: path.join(PK, "event-to-object/src/index.ts") }));
      b.onResolve({ filter: /^@reactpy\/client$/ }, () => ({ path: path.join(PK, "@reactpy/client/src/index.ts") }));
      b.onLoad({ filter: /packages\/.*\.tsx?$/ }, (a) => ({
        contents: fs.readFileSync(a.path, "utf8").replace(/\bimport\(/g, "__sim_import("),
        loader: a.path.endsWith("x") ? "tsx" : "ts",
      }));
    },
  };
  return esbuild.build({
    stdin: {
      contents: `export * from "@reactpy/client"; export { mountReactPy } from ${JSON.stringify(path.join(PK, "@reactpy/app/src/index.ts"))};` +
        `export * as __preact from "preact";`, resolveDir: __dirname, loader: "js",
    },
    bundle: true, write: false, format: "cjs", platform: "neutral", target: "es2022",
    jsx: "automatic", jsxImportSource: "preact", plugins: [plugin], logLevel: "error",
    tsconfigRaw: "{}", treeShaking: false,
  }).then((r) => {
    const tmp = `${out}.${process.pid}`;
    fs.writeFileSync(tmp, r.outputFiles[0].text);
    fs.renameSync(tmp, out);
    for (const f of fs.readdirSync(dir)) {
      const p = path.join(dir, f);
      try { if (f.startsWith("client-") && p !== out && Date.now() - fs.statSync(p).mtimeMs > 3600e3) fs.unlinkSync(p); } catch {}
    }
    return out;
  });
}

async function load() {
  const file = await build();
  const code = fs.readFileSync(file, "utf8");
  const fn = new Script(`(function(module, exports, ${GLOBALS.join(",")}){${code}\n;return module.exports})`,
    { filename: file }).runInThisContext();
  return (g) => { const m = { exports: {} }; return fn(m, m.exports, ...GLOBALS.map((n) => g[n])); };
}
module.exports = { load, build };
if (require.main === module) Promise.resolve(build()).then((f) => console.log(f));
