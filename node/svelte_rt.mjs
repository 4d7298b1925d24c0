// Runtime for components made by svelte.mjs, and stand-ins for the modules `svelte` and `svelte/store`.
// Components render into a tree of plain objects; a change to a component variable schedules one flush
// in a microtask, which runs the `$:` statements whose dependencies changed and renders again.
const host = globalThis.__vf;
let current = null;

export const str = (v) => (v === null || v === undefined ? "" : String(v));
export const text = (t) => ({ text: t });
export const html = (h) => ({ html: h });
const differs = (a, b) => (a !== a ? b === b : a !== b || (a !== null && (typeof a === "object" || typeof a === "function")));

class Node_ {
  constructor(tag) {
    this.tag = tag; this.tagName = tag.toUpperCase(); this.nodeName = this.tagName; this.attrs = {}; this.set_ = {}; this.children = []; this.handlers = [];
    this.style = {}; this.scrollHeight = 10; this.scrollTop = 0; this.parentNode = null; this.value = ""; this.checked = false; this.files = []; this.listeners = [];
    this.classList = { add() {}, remove() {}, toggle() {}, contains: () => false }; this.dataset = {};
  }
  get id() { return this.attrs.id; }
  get href() { return this.attrs.href; }
  get download() { return this.attrs.download; }
  get textContent() { return this.children.map((c) => (c instanceof Node_ ? c.textContent : c.text ?? "")).join(""); }
  getAttribute(n) { return this.attrs[n] ?? null; }
  setAttribute(n, v) { this.attrs[n] = v; }
  addEventListener(t, f) { this.listeners.push([t, f, []]); }
  removeEventListener(t, f) { this.listeners = this.listeners.filter((l) => l[0] !== t || l[1] !== f); }
  focus() {} blur() {} select() {} scrollIntoView() {} setSelectionRange() {}
  click() { host.click(this); }
  querySelector() { return null; }
  dispatchEvent(e) { host.dispatch(this, e); return true; }
}
export const isElement = (n) => n instanceof Node_;

class Root {
  constructor() { this.instances = new Map(); this.elements = new Map(); this.scheduled = false; this.globals = new Map(); this.tree = []; this.after = []; }
  schedule() {
    if (this.scheduled) return;
    this.scheduled = true;
    this.flushed = Promise.resolve().then(() => this.flush());
  }
  flush() {
    for (let round = 0; ; round++) {
      if (round > 200) throw new Error("the page keeps updating itself");
      this.scheduled = true;
      this.dirty = false;
      this.used = new Set();
      this.globals = new Map();
      this.tree = this.top.draw("");
      for (const [k, i] of this.instances) if (!this.used.has(k)) { i.destroy(); this.instances.delete(k); }
      for (const [k, e] of this.elements) if (!this.used.has(k)) { e.unbind?.(); this.elements.delete(k); }
      const run = (n, parent) => { if (n instanceof Node_) { n.parentNode = parent; n.children.forEach((c) => run(c, n)); } };
      this.tree.forEach((n) => run(n, null));
      for (const f of this.after.splice(0)) f();
      if (!this.dirty) break;
    }
    this.scheduled = false;
  }
  touch() { this.dirty = true; this.schedule(); }
}

class Instance {
  constructor(root, def, props, binds, handlers, slots, parent) {
    Object.assign(this, { root, def, parent, setters: {}, reactives: [], dirty: new Set(), cleanup: [], afterUpdates: [], beforeUpdates: [], mounts: [], first: true });
    this.context = new Map(parent?.context ?? []);
    this.handlers = handlers;
    this.props = { ...props };
    this.binds = new Map();
    for (const [name, v, set] of binds) { this.binds.set(name, set); if (name !== "this") this.props[name] = v; }
    this.last = { ...this.props };
    this.$$props = { ...this.props };
    this.$$restProps = {};
    this.$$slots = {};
    this.assign(slots);
    this.rest();
    const before = current;
    current = this;
    this.render = def.instance(this, this.$$props, this.$$restProps, this.$$slots);
    current = before;
    this.live = true;
    this.binds.get("this")?.(this);
  }
  assign(slots) {
    this.slots = slots;
    for (const k of Object.keys(this.$$slots)) delete this.$$slots[k];
    for (const k of Object.keys(slots)) this.$$slots[k] = true;
  }
  rest() {
    for (const k of Object.keys(this.$$restProps)) delete this.$$restProps[k];
    for (const [k, v] of Object.entries(this.$$props)) if (!this.def.props.includes(k)) this.$$restProps[k] = v;
  }
  prop(name, dflt) {
    if (this.props[name] !== undefined) return this.props[name];
    const v = dflt();
    const up = this.binds.get(name);
    if (up && v !== undefined) up(v);
    return v;
  }
  update(props, binds, handlers, slots) {
    this.handlers = handlers;
    this.assign(slots);
    const next = { ...props };
    for (const [name, v, set] of binds) { this.binds.set(name, set); if (name !== "this") next[name] = v; }
    for (const k of Object.keys(this.$$props)) if (!(k in next)) delete this.$$props[k];
    for (const [k, v] of Object.entries(next)) {
      this.$$props[k] = v;
      if (differs(this.last[k], v)) {
        this.last[k] = v;
        this.setters[k]?.(v);
        this.dirty.add(k);
      }
    }
    this.rest();
  }
  changed(name, v) {
    this.dirty.add(name);
    if (this.live) this.root.touch();
    const up = this.binds.get(name);
    if (up && this.live) { this.last[name] = v; up(v); }
  }
  set(name, before, after) { if (differs(before, after)) this.changed(name, after); return after; }
  mutate(names, result) { for (const n of names) { this.dirty.add(n); } if (this.live) this.root.touch(); return result; }
  storeSet(store, v) { store.set(v); return v; }
  store(store, set, name) {
    if (store && store.subscribe) {
      const un = store.subscribe((v) => { set(v); this.changed(name, v); });
      this.cleanup.push(typeof un === "function" ? un : () => un?.unsubscribe?.());
    }
  }
  reactive(deps, run) { this.reactives.push({ deps, run, first: true }); }
  forward(type) { return (e) => { for (const h of this.handlers) if (h[0] === type) h[1]?.(e); }; }
  draw(path) {
    for (const f of this.beforeUpdates) f();
    for (let round = 0; this.first || this.dirty.size; round++) {
      if (round > 200) throw new Error("a reactive statement keeps changing what it depends on");
      this.first = false;
      const now = new Set(this.dirty);
      this.dirty.clear();
      this.reactives.forEach((r, i) => {
        if (!r.first && !r.deps.some((d) => now.has(d))) return;
        r.first = false;
        r.run();
        // statements after this one see its changes in this round, those before it in the next
        for (const d of [...this.dirty]) {
          now.add(d);
          if (!this.reactives.some((o, j) => j < i && o.deps.includes(d))) this.dirty.delete(d);
        }
      });
    }
    const before = current;
    current = this;
    const out = this.render(path);
    current = before;
    if (this.mounts.length) for (const f of this.mounts.splice(0)) this.root.after.push(() => { const c = f(); if (typeof c === "function") this.cleanup.push(c); });
    for (const f of this.afterUpdates) this.root.after.push(f);
    return out;
  }
  destroy() { this.live = false; for (const f of this.cleanup) f(); }
}

export function define(instance, props, filename) {
  function Component(options) { if (new.target) return mount(Component, options); }
  Component.instance = instance;
  Component.props = props;
  Component.filename = filename;
  return Component;
}

export function component(self, path, def, props, binds, handlers, slots) {
  if (!def) return [];
  const root = self.root;
  const wrapped = {};
  for (const [k, f] of Object.entries(slots)) wrapped[k] = f;
  let inst = root.instances.get(path);
  if (inst && inst.def !== def) { inst.destroy(); inst = null; }
  if (!inst) { inst = new Instance(root, def, props, binds, handlers, wrapped, self); root.instances.set(path, inst); }
  else inst.update(props, binds, handlers, wrapped);
  root.used.add(path);
  return inst.draw(path);
}

export function slot(self, path, name, props, fallback) {
  const f = self.slots[name];
  return f ? f(props, path) : fallback(path);
}

export function each(items, path, body, key, els) {
  const arr = [...(items == null ? [] : typeof items.length === "number" ? Array.from(items) : items)];
  if (!arr.length) return els(path + ".else");
  return arr.flatMap((x, i) => body(x, i, path + "#" + (key ? "k" + String(key(x, i)) : i)));
}

const keyIds = new Map();
export function key(v, path, body) {
  const k = keyIds.get(path) ?? { v, n: 0 };
  if (k.v !== v) { k.v = v; k.n++; }
  keyIds.set(path, k);
  return body(path + "!" + k.n);
}

const awaits = new Map();
function await_(self, p, path, pending, then, cat) {
  let a = awaits.get(path);
  if (!a || a.p !== p) {
    a = { p, state: 0 };
    awaits.set(path, a);
    if (p && typeof p.then === "function")
      p.then((v) => { a.state = 1; a.v = v; if (awaits.get(path) === a) self.root.touch(); }, (e) => { a.state = 2; a.v = e; if (awaits.get(path) === a) self.root.touch(); });
    else { a.state = 1; a.v = p; }
  }
  if (a.state === 0) return pending(path + ".p");
  if (a.state === 1) return then ? then(a.v, path + ".t") : [];
  return cat ? cat(a.v, path + ".c") : [];
}
export { await_ as await };

export function global(self, tag, handlers) { self.root.globals.set(tag, [...(self.root.globals.get(tag) ?? []), ...handlers]); return []; }

export function element(self, path, tag, props, binds, handlers, uses, children) {
  const root = self.root;
  let el = root.elements.get(path);
  const fresh = !el || el.tag !== tag;
  if (fresh) { el = new Node_(tag); root.elements.set(path, el); }
  root.used.add(path);
  const on = handlers.filter((h) => typeof h[1] === "function").map((h) => [h[0], h[1], h[2]]);
  const attrs = {};
  for (const [k, v] of Object.entries(props)) {
    if (k.startsWith("on") && typeof v === "function") on.push([k.slice(2), v, []]);
    else if (k === "$$classes") attrs.class = (attrs.class ?? "") + v;
    else if (v !== undefined && v !== null && v !== false) attrs[k] = v;
    if ((k === "value" || k === "checked") && differs(el.set_[k], v)) { el.set_[k] = v; el[k] = k === "value" ? str(v) : !!v; }
  }
  el.attrs = attrs;
  // bindings hear of an event before the handlers do
  const pre = [];
  el.bound = {};
  for (const [name, v, set] of binds) {
    if (name === "this") { if (fresh) root.after.unshift(() => set(el)); el.unbind = () => set(null); continue; }
    el.bound[name] = true;
    if (name === "value") {
      el.value = str(v);
      el.bindValue = v;
      const number = attrs.type === "number" || attrs.type === "range";
      pre.push([tag === "select" ? "change" : "input", (e) => set(number ? (el.value === "" ? null : +el.value) : el.value), []]);
    } else if (name === "checked") { el.checked = !!v; pre.push(["change", () => set(el.checked), []]); }
    else if (name === "files") pre.push(["change", () => set(el.files), []]);
    else if (name === "group") { el.checked = v === props.value; pre.push(["change", () => set(props.value), []]); }
    else if (/^(client|offset|scroll)(Width|Height)$/.test(name)) continue;
    else throw new Error("unknown binding " + name);
  }
  el.handlers = [...pre, ...on];
  el.children = children(path);
  if (fresh) for (const [f, arg] of uses) root.after.push(() => { el.action = f(el, arg); });
  return el;
}

// ---------------------------------------------------------------- `svelte`
export function mount(def, options = {}) {
  const root = new Root();
  root.top = new Instance(root, def, options.props ?? {}, [], [], {}, null);
  host.mounted(root);
  root.flush();
  return root.top;
}
export const unmount = () => {};
export const hydrate = mount;
export const flushSync = (f) => { const r = f?.(); host.root?.flush(); return r; };
export const tick = () => Promise.resolve().then(() => host.root?.flushed).then(() => {});
export const untrack = (f) => f();
export const onMount = (f) => { current.mounts.push(f); };
export const onDestroy = (f) => { current.cleanup.push(f); };
export const beforeUpdate = (f) => { current.beforeUpdates.push(f); };
export const afterUpdate = (f) => { current.afterUpdates.push(f); };
export const setContext = (k, v) => { current.context.set(k, v); return v; };
export const getContext = (k) => current.context.get(k);
export const hasContext = (k) => current.context.has(k);
export const createEventDispatcher = () => { const me = current; return (type, detail) => { me.forward(type)({ type, detail }); return true; }; };

// ---------------------------------------------------------------- `svelte/store`
export function writable(value, start) {
  const subs = new Set();
  let stop = null;
  const set = (v) => { if (differs(value, v)) { value = v; for (const s of [...subs]) s(v); } };
  const update = (f) => set(f(value));
  return {
    set, update,
    subscribe(f) {
      subs.add(f);
      if (subs.size === 1 && start) stop = start(set, update) ?? null;
      f(value);
      return () => { subs.delete(f); if (!subs.size) { stop?.(); stop = null; } };
    },
  };
}
export const readable = (v, start) => ({ subscribe: writable(v, start).subscribe });
export const get = (s) => { let v; s.subscribe((x) => { v = x; })(); return v; };
export function derived(stores, f, initial) {
  const list = Array.isArray(stores) ? stores : [stores];
  return readable(initial, (set) => {
    const values = [];
    let ready = false;
    const sync = () => { if (!ready) return; const a = Array.isArray(stores) ? values : values[0]; if (f.length < 2) set(f(a)); else f(a, set); };
    const un = list.map((s, i) => s.subscribe((v) => { values[i] = v; sync(); }));
    ready = true;
    sync();
    return () => un.forEach((u) => u());
  });
}
