// Line-JSON server: the real web page (App.svelte and all it uses) and the real worker script, run under
// an event loop whose every step (user action, message, end of a file read, end of a load) the request dictates.
import { createRequire } from "node:module";
import readline from "node:readline";
import vm from "node:vm";
import path from "node:path";
import fs from "node:fs";
import { fileURLToPath, pathToFileURL } from "node:url";
import { compile } from "./svelte.mjs";
const NM = "/opt/veriftools/node/node_modules/";
const req = createRequire(NM + "x.js");
const esbuild = req("esbuild");
const HERE = path.dirname(fileURLToPath(import.meta.url));
const WEB = path.join(process.argv[2], "json_typegen_web");
let onRejection = () => {};
process.on("unhandledRejection", (e) => onRejection(e));

const plugin = {
  name: "page",
  setup(b) {
    b.onResolve({ filter: /^(svelte(\/.*)?|shiki(\/.*)?|json_typegen_wasm)$/ }, (a) => {
      if (a.path === "json_typegen_wasm") return { path: path.join(HERE, "wasm_stub.mjs") };
      if (a.path.startsWith("shiki")) return { path: path.join(HERE, "shiki_stub.mjs") };
      return { path: path.join(HERE, "svelte_rt.mjs") };
    });
    b.onResolve({ filter: /\?(worker|url|raw)/ }, (a) => ({ path: path.resolve(a.resolveDir, a.path.replace(/\?.*/, "")), namespace: a.path.includes("?worker") ? "worker" : a.path.includes("?raw") ? "raw" : "url" }));
    b.onLoad({ filter: /.*/, namespace: "worker" }, (a) => ({ contents: `export default class extends Worker { constructor(o) { super(new URL(${JSON.stringify(String(pathToFileURL(a.path)))}), o); } }`, loader: "js" }));
    b.onLoad({ filter: /.*/, namespace: "raw" }, (a) => ({ contents: fs.readFileSync(a.path), loader: "text" }));
    b.onLoad({ filter: /.*/, namespace: "url" }, (a) => ({ contents: `export default ${JSON.stringify(String(pathToFileURL(a.path)))}`, loader: "js" }));
    b.onLoad({ filter: /\.(svelte|ts|js)$/ }, (a) => {
      let text = fs.readFileSync(a.path, "utf8");
      if (a.path.endsWith(".svelte")) text = compile(text, a.path);
      return { contents: text.replaceAll("import.meta.url", JSON.stringify(String(pathToFileURL(a.path)))), loader: "ts", resolveDir: path.dirname(a.path) };
    });
  },
};
const bundles = new Map(), scripts = new Map();
let pageCode;
async function bundle(file, globalName) {
  if (!bundles.has(file)) {
    const r = await esbuild.build({
      entryPoints: [file], bundle: true, write: false, format: "iife", globalName, target: "es2022", plugins: [plugin], logLevel: "silent", absWorkingDir: WEB,
      loader: { ".css": "empty", ".svg": "dataurl", ".png": "dataurl" }, define: { "import.meta.env.DEV": "false", "import.meta.env.PROD": "true", "import.meta.env.BASE_URL": '"/"' },
      tsconfigRaw: {},
    });
    bundles.set(file, r.outputFiles[0].text);
  }
  return bundles.get(file);
}
const turn = () => new Promise((r) => setImmediate(r));
const clone = (m) => {
  if (m === null || typeof m !== "object" || m instanceof FakeFile) return m;
  if (Array.isArray(m)) return m.map(clone);
  return Object.fromEntries(Object.entries(m).filter(([, v]) => typeof v !== "function").map(([k, v]) => [k, clone(v)]));
};

let sim;     // the simulation the fakes below report to
class FakeFile {
  constructor(content, name, size) { this.content = content; this.name = name; this.size = size ?? Buffer.byteLength(content); this.type = "application/json"; this.lastModified = 0; }
  wait(side) { return new Promise((res, rej) => sim.reads.push({ side, file: this.name, end: (ok) => (ok ? res(this.content) : rej(new Error("NotReadableError"))) })); }
  text() { return this.wait("any"); }
  async arrayBuffer() { return new TextEncoder().encode(await this.wait("any")).buffer; }
  slice() { return this; }
}
const readerClass = (side) => class {
  constructor() { this.listeners = {}; this.result = null; this.error = null; this.readyState = 0; }
  addEventListener(t, f) { (this.listeners[t] ??= []).push(f); }
  removeEventListener(t, f) { this.listeners[t] = (this.listeners[t] ?? []).filter((x) => x !== f); }
  fire(t) { const ev = { type: t, target: this, currentTarget: this }; for (const f of [this["on" + t], ...(this.listeners[t] ?? [])]) if (typeof f === "function") f.call(this, ev); }
  abort() { this.aborted = true; }
  readAsText(file) {
    this.readyState = 1;
    sim.reads.push({ side, file: file.name, end: (ok) => {
      if (this.aborted) return;
      this.readyState = 2;
      if (ok) { this.result = file.content; this.fire("load"); } else { this.error = new Error("NotReadableError"); this.fire("error"); }
      this.fire("loadend");
    } });
  }
};

class Sim {
  constructor(spec) {
    this.store = new Map(Object.entries(spec.storage ?? {}));
    this.storageMode = spec.storageMode ?? "ok";
    this.thrown = [];
  }
  consoleFor() { const f = () => {}; return { log: f, warn: f, error: f, info: f, debug: f, trace: f }; }
  guard(f) { try { f(); } catch (e) { this.thrown.push(String(e?.message ?? e)); } }
  async open() {
    this.workers = []; this.reads = []; this.urls = new Map(); this.urlCount = 0; this.clip = []; this.highlighters = []; this.toPage = []; this.anchors = [];
    const me = this;
    const gen = this.gen = (this.gen ?? 0) + 1;
    const listeners = [];
    const storage = {
      getItem: (k) => { if (me.storageMode === "blocked") throw new Error("SecurityError"); return me.store.has(k) ? me.store.get(k) : null; },
      setItem: (k, v) => { if (me.storageMode !== "ok") throw new Error("QuotaExceededError"); me.store.set(String(k), String(v)); },
      removeItem: (k) => { me.store.delete(k); }, clear: () => me.store.clear(), get length() { return me.store.size; }, key: (i) => [...me.store.keys()][i] ?? null,
    };
    class FakeURL extends URL {
      static createObjectURL(b) { const u = "blob:vf/" + ++me.urlCount; me.urls.set(u, b); return u; }
      static revokeObjectURL(u) { me.urls.delete(u); }
    }
    class FakeWorker {
      constructor(url) {
        this.url = String(url); this.inbox = []; this.listeners = {}; this.onmessage = null; this.gen = gen;
        me.workers.push(this);
        me.starts.push(me.startWorker(this));
      }
      postMessage(m) { if (!this.dead) this.inbox.push(clone(m)); }
      addEventListener(t, f) { (this.listeners[t] ??= []).push(f); }
      removeEventListener(t, f) { this.listeners[t] = (this.listeners[t] ?? []).filter((x) => x !== f); }
      terminate() { this.dead = true; this.inbox = []; }
    }
    this.starts = [];
    const clipboard = { writeText: async (t) => { me.clip.push(t); } };
    class FakeHighlighter {
      constructor(o) { this.o = o; }
      codeToHtml(code, o) {
        const langs = this.o?.langs ?? null;
        if (langs && !["plaintext", "text", "txt", "plain", "ansi"].includes(o.lang) && !langs.includes(o.lang)) throw new Error("ShikiError: Language `" + o.lang + "` not found, you may need to load it first");
        if (this.o?.themes && o.theme && o.theme !== "none" && !this.o.themes.includes(o.theme)) throw new Error("ShikiError: Theme not found");
        return JSON.stringify({ vfcode: String(code), lang: o.lang });
      }
      async loadLanguage(l) { this.o.langs.push(l); } async loadTheme() {} getLoadedLanguages() { return this.o.langs; } dispose() {}
    }
    const box = {
      console: this.consoleFor(), setTimeout: (f, ms) => setTimeout(() => { if (me.gen === gen) me.guard(f); }, 0), clearTimeout, queueMicrotask, TextEncoder, TextDecoder, structuredClone: clone,
      requestAnimationFrame: (f) => setTimeout(() => { if (me.gen === gen) me.guard(f); }, 0), cancelAnimationFrame: clearTimeout, performance,
      FileReader: readerClass("page"), File: FakeFile, Worker: FakeWorker, URL: FakeURL, URLSearchParams,
      Blob: class { constructor(parts) { this.parts = parts; this.text_ = parts.map(String).join(""); } async text() { return this.text_; } },
      navigator: { clipboard, userAgent: "vf" }, location: { href: "http://localhost/", hash: "", search: "", pathname: "/" }, history: { pushState() {}, replaceState() {} },
      document: {
        getElementById: (id) => me.find((e) => e.attrs.id === id) ?? { id, innerHTML: "", appendChild() {}, children: [] },
        addEventListener() {}, removeEventListener() {}, body: { appendChild() {}, removeChild() {} }, querySelector: () => null, title: "",
        createElement: (tag) => ({ tag, style: {}, click() { me.anchors.push({ href: this.href, download: this.download }); }, setAttribute(k, v) { this[k] = v; }, remove() {} }),
      },
      addEventListener: (t, f) => listeners.push([t, f]), removeEventListener() {}, alert() {}, confirm: () => true,
      HTMLElement: class {}, HTMLInputElement: class {}, Event: class { constructor(type) { this.type = type; } },
      __vf: {
        mounted: (root) => { me.root = root; },
        dispatch: (el, e) => me.dispatch(el, e.type, e), click: (el) => me.dispatch(el, "click"),
        highlighter: (o) => new Promise((res) => { me.highlighters.push(() => res(new FakeHighlighter(o))); }),
      },
    };
    box.localStorage = this.storageMode === "denied" ? new Proxy({}, { get() { throw new Error("SecurityError"); } }) : storage;
    box.window = box; box.self = box; box.globalThis = box;
    this.root = null;
    // one compiled function for all histories, its globals are parameters
    pageCode ??= new Function(...Object.keys(box), await bundle(path.join(WEB, "src/main.ts"), "vfPage"));
    this.guard(() => pageCode.apply(undefined, Object.values(box)));
    await Promise.all(this.starts);
    await this.calm();
  }
  async startWorker(w) {
    const me = this, gen = this.gen;
    const listeners = [];
    const box = {
      postMessage: (m) => { if (!w.dead) me.toPage.push([w, clone(m)]); },
      FileReader: readerClass("worker"), File: FakeFile, Blob: FakeFile, TextDecoder, TextEncoder, onmessage: null, onerror: null, console: this.consoleFor(),
      setTimeout: (f) => setTimeout(() => { if (me.gen === gen) me.guard(f); }, 0), clearTimeout, queueMicrotask, URL, structuredClone: clone, performance,
      addEventListener: (t, f) => { if (t === "message") listeners.push(f); }, removeEventListener() {},
      __wasm: {
        init: () => new Promise((res) => { w.ready = () => { w.up = true; res({}); }; }),
        run: (name, input, options) => {
          if (!w.up) throw new TypeError("Cannot read properties of undefined (reading '__wbindgen_malloc')");
          // the library reads text: what is not text becomes text, as the wasm glue would have it
          return "\n" + JSON.stringify({ name: String(name), input: String(input), options: String(options) }, null, "\t").replace("{", "{ ") + "\n";
        },
      },
    };
    box.self = box; box.globalThis = box;
    const file = fileURLToPath(w.url);
    if (!scripts.has(file)) scripts.set(file, new vm.Script(await bundle(file, "vfWorker"), { filename: "worker.js" }));
    const script = scripts.get(file);
    const ctx = vm.createContext(box);
    w.deliver = (m) => {
      const ev = { type: "message", data: m };
      // an error in the worker is the worker's: the page only sees that no answer comes
      for (const f of [box.onmessage, ...listeners]) if (typeof f === "function") { try { f.call(box, ev); } catch (e) { me.workerErrors.push(String(e?.message ?? e)); } }
    };
    this.workerErrors ??= [];
    try { script.runInContext(ctx); } catch (e) { this.workerErrors.push(String(e)); }
  }
  async calm() { for (let i = 0; i < 2; i++) await turn(); }
  elements(nodes = this.root?.tree ?? [], out = []) { for (const n of nodes) if (n.tag) { out.push(n); this.elements(n.children, out); } return out; }
  find(p) { for (const e of this.elements()) if (p(e)) return e; return undefined; }
  byId(id) { return this.find((e) => e.attrs.id === id && ["input", "textarea", "select"].includes(e.tag)); }
  htmls(nodes = this.root?.tree ?? [], out = []) { for (const n of nodes) { if (n.html !== undefined) out.push(n.html); if (n.tag) this.htmls(n.children, out); } return out; }
  dispatch(el, type, init = {}) {
    const ev = { type, target: el, currentTarget: el, preventDefault() { this.defaultPrevented = true; }, stopPropagation() { this.stopped = true; }, stopImmediatePropagation() { this.stopped = true; }, ...init };
    ev.target = el;
    for (let n = el; n && !ev.stopped; n = n.parentNode) {
      ev.currentTarget = n;
      for (const [t, f, mods] of [...n.handlers, ...n.listeners]) {
        if (t !== type || mods.includes("self") && n !== el) continue;
        if (mods.includes("preventDefault")) ev.preventDefault();
        if (mods.includes("stopPropagation")) ev.stopPropagation();
        this.guard(() => f.call(n, ev));
      }
    }
    return ev;
  }
  buttons() { return this.elements().filter((e) => e.tag === "button" || e.tag === "a"); }
  snap() {
    const form = {}, all = this.elements();
    for (const e of all) {
      if (!e.attrs.id || !["input", "textarea", "select"].includes(e.tag) || e.attrs.type === "file") continue;
      form[e.attrs.id] = e.attrs.type === "checkbox" ? !!e.checked : e.value;
    }
    let shown = null;
    for (const h of this.htmls()) { try { const o = JSON.parse(h); if (o && o.vfcode !== undefined) shown = o; } catch {} }
    const dl = all.find((e) => e.tag === "a" && e.attrs.download !== undefined);
    const blob = dl ? this.urls.get(dl.attrs.href) : undefined;
    const clear = all.find((e) => (e.tag === "button" || e.tag === "a") && /clear input/i.test(e.textContent));
    return {
      form, shown, download: dl ? { name: dl.attrs.download, text: blob ? blob.text_ : null } : null,
      errors: all.filter((e) => /\berror\b/.test(e.attrs.class ?? "")).map((e) => e.textContent.trim()).filter(Boolean),
      overlay: clear ? (clear.parentNode?.textContent ?? "").trim() : null,
      spinner: all.some((e) => /\bspinner\b/.test(e.attrs.class ?? "")),
      clip: this.clip.length ? this.clip[this.clip.length - 1] : null, thrown: this.thrown.splice(0), worker: (this.workerErrors ?? []).splice(0),
      stored: this.store.get("json_typegen_params") ?? null,
      todo: { reads: this.reads.map((r) => r.file), page: this.toPage.length, worker: this.workers.reduce((a, w) => a + w.inbox.length, 0), wasm: this.workers.some((w) => w.ready && !w.up && !w.dead), hl: this.highlighters.length },
    };
  }
  async op(o) {
    const done = this.step(o);
    await this.calm();
    return { done, ...this.snap() };
  }
  step([kind, a, b]) {
    switch (kind) {
      case "type": {
        const el = this.byId(a);
        if (!el || el.attrs.readonly || el.attrs.disabled) return false;
        if (a === "input" && this.buttons().some((e) => /clear input/i.test(e.textContent))) return false;   // under the overlay
        el.value = b;
        this.dispatch(el, "keydown", { key: "x" }); this.dispatch(el, "input"); this.dispatch(el, "keyup", { key: "x" }); this.dispatch(el, "change");
        return true;
      }
      case "pick": {
        const el = this.byId(a);
        if (!el || !this.elements([el]).some((e) => e.tag === "option" && String(e.attrs.value ?? e.textContent) === b)) return false;
        el.value = b;
        this.dispatch(el, "input"); this.dispatch(el, "change");
        return true;
      }
      case "check": {
        const el = this.byId(a);
        if (!el) return false;
        el.checked = !el.checked;
        this.dispatch(el, "click"); this.dispatch(el, "input"); this.dispatch(el, "change");
        return true;
      }
      case "file": {
        const el = this.find((e) => e.tag === "input" && e.attrs.type === "file");
        if (!el) return false;
        const f = new FakeFile(a.content, a.name, a.size);
        el.files = [f]; el.files.item = (i) => el.files[i] ?? null;
        el.value = "C:\\fakepath\\" + a.name;
        this.dispatch(el, "input"); this.dispatch(el, "change");
        return true;
      }
      case "nofile": {
        const el = this.find((e) => e.tag === "input" && e.attrs.type === "file");
        if (!el) return false;
        el.files = []; el.value = "";
        this.dispatch(el, "change");
        return true;
      }
      case "link": case "button": {
        const want = a.toLowerCase();
        const all = this.buttons().filter((e) => (kind === "link") === (e.tag === "a"));
        const el = all.find((e) => e.textContent.trim().toLowerCase() === want) ?? all.find((e) => e.textContent.trim().toLowerCase().includes(want));
        if (!el) return false;
        this.dispatch(el, "click");
        return true;
      }
      case "toWorker": {
        const ws = this.workers.filter((w) => w.inbox.length && w.deliver);
        if (!ws.length) return false;
        const w = ws[(a ?? 0) % ws.length];
        w.deliver(w.inbox.shift());
        return true;
      }
      case "toPage": {
        if (!this.toPage.length) return false;
        const [w, m] = this.toPage.shift();
        const ev = { type: "message", data: m, target: w };
        for (const f of [w.onmessage, ...(w.listeners.message ?? [])]) if (typeof f === "function") this.guard(() => f.call(w, ev));
        return true;
      }
      case "read": {
        if (!this.reads.length) return false;
        const r = this.reads.splice(a % this.reads.length, 1)[0];
        this.guard(() => r.end(b));
        return r.file;
      }
      case "wasm": { const w = this.workers.find((x) => x.ready && !x.up && !x.dead); if (!w) return false; w.ready(); return true; }
      case "hl": { const h = this.highlighters.shift(); if (!h) return false; h(); return true; }
      case "event": {       // an event on window, as a browser sends them unasked
        for (const l of this.root?.globals.get("svelte:window") ?? []) if (l[0] === a) this.guard(() => l[1]({ type: a }));
        return true;
      }
    }
    throw new Error("unknown op " + kind);
  }
}

async function settle(s, seed, out) {
  let x = seed >>> 0 || 1;
  const rnd = (n) => { x ^= x << 13; x >>>= 0; x ^= x >>> 17; x ^= x << 5; x >>>= 0; return x % n; };
  for (let i = 0; i < 500; i++) {
    const opts = [];
    if (s.toPage.length) opts.push(["toPage"]);
    if (s.workers.some((w) => w.inbox.length)) opts.push(["toWorker", rnd(4)]);
    if (s.reads.length) opts.push(["read", rnd(s.reads.length), true]);
    if (s.workers.some((w) => w.ready && !w.up && !w.dead)) opts.push(["wasm"]);
    if (s.highlighters.length) opts.push(["hl"]);
    if (!opts.length) return true;
    const o = opts[rnd(opts.length)];
    const r = await s.op(o);
    out.push({ op: o, ...r });
  }
  return false;
}

async function run(spec) {
  sim = new Sim(spec);
  const log = [];
  await sim.open();
  log.push({ op: ["open"], done: true, ...sim.snap() });
  for (const o of spec.ops) {
    if (o[0] === "settle") { const ok = await settle(sim, o[1], log); log.push({ op: o, done: ok, ...sim.snap() }); continue; }
    if (o[0] === "reload") { await sim.open(); log.push({ op: o, done: true, ...sim.snap() }); continue; }
    log.push({ op: o, ...(await sim.op(o)) });
  }
  return log;
}

// only what changed since the step before
function thin(log) {
  let last = {};
  return log.map((e) => {
    const out = { op: e.op, done: e.done };
    for (const [k, v] of Object.entries(e)) {
      const j = JSON.stringify(v);
      if (k !== "op" && k !== "done" && j !== last[k]) { out[k] = v; last[k] = j; }
    }
    return out;
  });
}

const rl = readline.createInterface({ input: process.stdin });
for await (const line of rl) {
  const out = [];
  for (const h of JSON.parse(line).histories) {
    try { out.push({ ok: thin(await run(h)) }); } catch (e) { out.push({ error: String(e?.stack ?? e) }); }
  }
  process.stdout.write(JSON.stringify(out) + "\n");
}
