// Line-JSON server: the real web worker script, bundled by esbuild, run in a fresh context per
// history under an event loop whose every step (message, end of a file read) the request dictates.
import { createRequire } from "node:module";
import readline from "node:readline";
import vm from "node:vm";
import path from "node:path";
const NM = "/opt/veriftools/node/node_modules/";
const req = createRequire(NM + "x.js");
const esbuild = req("esbuild");
const LIB = path.join(process.argv[2], "json_typegen_web/src/lib");
process.on("unhandledRejection", () => {});

function bundle(entry, global) {
  const r = esbuild.buildSync({
    entryPoints: [path.join(LIB, entry)], bundle: true, write: false, format: "iife", globalName: global, target: "es2022",
    alias: { json_typegen_wasm: path.join(path.dirname(new URL(import.meta.url).pathname), "wasm_stub.mjs") }, logLevel: "silent",
  });
  return r.outputFiles[0].text;
}

const turn = () => new Promise((r) => setImmediate(r));

let worker, W;
async function history(ops) {
  worker ??= new vm.Script(bundle("worker.ts", "vfWorker"));
  if (!W) {
    const c = vm.createContext({});
    vm.runInContext(bundle("WorkerMessage.ts", "vfM"), c);
    W = vm.runInContext("({...vfM.WorkerMessage})", c);
  }
  const log = [];
  let step = -1, ready;
  const pending = new Map();   // file id -> [functions that end a read]
  class FakeFile {
    constructor(id, content) { this.id = id; this.content = content; this.name = "f" + id; this.size = content.length; }
    wait() { return new Promise((res, rej) => FakeFile.add(this.id, (err) => (err ? rej(err) : res(this.content)))); }
    text() { return this.wait(); }
    async arrayBuffer() { return new TextEncoder().encode(await this.wait()).buffer; }
    slice() { return this; }
    static add(id, fn) { if (!pending.has(id)) pending.set(id, []); pending.get(id).push(fn); }
  }
  class FakeReader {
    constructor() { this.listeners = {}; this.result = null; this.error = null; this.readyState = 0; }
    addEventListener(t, f) { (this.listeners[t] ??= []).push(f); }
    removeEventListener(t, f) { this.listeners[t] = (this.listeners[t] ?? []).filter((x) => x !== f); }
    fire(t) {
      const ev = { type: t, target: this, currentTarget: this };
      for (const f of [this["on" + t], ...(this.listeners[t] ?? [])]) if (typeof f === "function") f.call(this, ev);
    }
    abort() { this.aborted = true; }
    readAsText(file) {
      this.readyState = 1;
      FakeFile.add(file.id, (err) => {
        if (this.aborted) return;
        this.readyState = 2;
        if (err) { this.error = err; this.fire("error"); } else { this.result = file.content; this.fire("load"); }
        this.fire("loadend");
      });
    }
  }
  const names = Object.fromEntries(Object.entries(W).map(([k, v]) => [v, k]));
  const box = {
    postMessage: (m) => { const c = JSON.parse(JSON.stringify(m)); c.type = names[c.type] ?? c.type; log.push([step, c]); },
    FileReader: FakeReader, File: FakeFile, Blob: FakeFile, TextDecoder, TextEncoder, onmessage: null, onerror: null,
    console: { log() {}, warn(...a) { log.push([step, { warn: String(a[0]) }]); }, error() {}, info() {}, debug() {} },
    setTimeout, clearTimeout, queueMicrotask, URL,
    __wasm: {
      init: () => new Promise((res) => { ready = () => { box.__wasm.up = true; res({}); }; }),
      run: (name, input, options) => {
        if (!box.__wasm.up) throw new TypeError("wasm is undefined");
        return JSON.stringify({ name, input, options });
      },
    },
  };
  const listeners = [];
  box.addEventListener = (t, f) => { if (t === "message") listeners.push(f); };
  box.self = box;
  const ctx = vm.createContext(box);
  worker.runInContext(ctx);
  const g = vm.runInContext("globalThis", ctx);
  await turn();
  const deliver = (data) => {
    const ev = { data, type: "message" };
    try {
      if (typeof g.onmessage === "function") g.onmessage(ev);
      for (const f of listeners) f(ev);
    } catch (e) { log.push([step, { threw: String(e) }]); }
  };
  for (const op of ops) {
    step++;
    if (op[0] === "ready") ready();
    else if (op[0] === "codegen") deliver({ type: W.CODEGEN, typename: op[1], input: op[2], options: op[3] });
    else if (op[0] === "load") deliver({ type: W.LOAD_FILE, file: new FakeFile(op[1], op[2]) });
    else if (op[0] === "clear") deliver({ type: W.CLEAR_FILE });
    else if (op[0] === "finish" || op[0] === "fail") {
      for (const f of pending.get(op[1]) ?? []) f(op[0] === "fail" ? new Error("read error") : null);
      pending.delete(op[1]);
    } else throw new Error("op " + op[0]);
    await turn();
  }
  await turn();
  step++;
  return log;
}

for await (const line of readline.createInterface({ input: process.stdin })) {
  const r = JSON.parse(line);
  let out;
  try {
    out = [];
    for (const h of r.histories) out.push(await history(h));
  } catch (e) { out = { error: String(e.stack).slice(0, 2000) }; }
  process.stdout.write(JSON.stringify(out) + "\n");
}
