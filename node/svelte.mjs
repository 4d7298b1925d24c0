// A small compiler for the Svelte dialect the page is written in (legacy mode: `export let`, `$:`,
// `bind:`, `on:`, slots). Svelte itself is not installed here. The result is a module whose default
// export is a component for svelte_rt.mjs. What it does not know, it refuses loudly.
import { createRequire } from "node:module";
const req = createRequire("/opt/veriftools/node/node_modules/x.js");
const ts = req("typescript");

const VOID = new Set("area base br col embed hr img input link meta param source track wbr".split(" "));
class Unsupported extends Error {}

// ---------------------------------------------------------------- template parser
function decode(s) {
  const named = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", nbsp: "\u00a0", copy: "\u00a9", mdash: "\u2014", hellip: "\u2026" };
  return s.replace(/&(#x?[0-9a-fA-F]+|\w+);/g, (m, e) =>
    e[0] === "#" ? String.fromCodePoint(e[1] === "x" ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10)) : named[e] ?? m);
}

class Parser {
  constructor(src) { this.s = src; this.i = 0; this.n = 0; }
  fail(m) { throw new Unsupported(m + " at " + JSON.stringify(this.s.slice(this.i, this.i + 40))); }
  ws() { while (/\s/.test(this.s[this.i] ?? "")) this.i++; }
  looking(t) { return this.s.startsWith(t, this.i); }
  // source text up to the brace that closes the one already consumed
  expr() {
    const start = this.i, s = this.s;
    let depth = 0, prev = "";
    for (; this.i < s.length; this.i++) {
      const c = s[this.i];
      if (c === "'" || c === '"') this.string(c);
      else if (c === "`") this.template();
      else if (c === "/" && s[this.i + 1] === "/") { while (s[this.i] !== "\n") this.i++; }
      else if (c === "/" && s[this.i + 1] === "*") this.i = s.indexOf("*/", this.i) + 1;
      else if (c === "/" && (prev === "" || "(,=:[!&|?{};+-*%<>~^".includes(prev))) this.regex();
      else if ("([{".includes(c)) depth++;
      else if (")]}".includes(c)) {
        if (depth === 0 && c === "}") { const e = s.slice(start, this.i); this.i++; return e; }
        depth--;
      }
      if (!/\s/.test(c)) prev = c;
    }
    this.fail("unterminated expression");
  }
  string(q) { for (this.i++; this.s[this.i] !== q; this.i++) if (this.s[this.i] === "\\") this.i++; }
  regex() {
    let cls = false;
    for (this.i++; cls || this.s[this.i] !== "/"; this.i++) {
      const c = this.s[this.i];
      if (c === "\\") this.i++; else if (c === "[") cls = true; else if (c === "]") cls = false;
    }
  }
  template() {
    for (this.i++; this.s[this.i] !== "`"; this.i++) {
      if (this.s[this.i] === "\\") this.i++;
      else if (this.looking("${")) { this.i += 2; this.expr(); this.i--; }
    }
  }
  // nodes until a closing tag or a {:...} / {/...} marker
  nodes() {
    const out = [];
    for (;;) {
      if (this.i >= this.s.length || this.looking("</")) return out;
      if (this.looking("<!--")) { const e = this.s.indexOf("-->", this.i); this.i = e < 0 ? this.s.length : e + 3; continue; }
      if (this.s[this.i] === "<" && /[A-Za-z]/.test(this.s[this.i + 1] ?? "")) { out.push(this.element()); continue; }
      if (this.s[this.i] === "{") {
        let j = this.i + 1;
        while (/\s/.test(this.s[j])) j++;
        if (this.s[j] === ":" || this.s[j] === "/" && !/[/*]/.test(this.s[j + 1])) return out;
        this.i++;
        const text = this.expr();
        const m = text.match(/^\s*([#@])(\w+)/);
        if (!m) { if (text.trim().replace(/\/\*[^]*?\*\//g, "").trim()) out.push({ k: "expr", e: text }); continue; }
        const rest = text.slice(m[0].length).trim();
        if (m[1] === "@") {
          if (m[2] === "html") out.push({ k: "html", e: rest });
          else if (m[2] === "const") out.push({ k: "const", e: rest });
          else if (m[2] !== "debug") this.fail("{@" + m[2]);
        } else out.push(this.block(m[2], rest));
        continue;
      }
      const start = this.i;
      while (this.i < this.s.length && this.s[this.i] !== "{" && !(this.s[this.i] === "<" && /[A-Za-z/!]/.test(this.s[this.i + 1] ?? ""))) this.i++;
      out.push({ k: "text", t: decode(this.s.slice(start, this.i)) });
    }
  }
  marker() {           // consumes {:...} or {/...}
    if (this.s[this.i] !== "{") this.fail("expected a block marker");
    this.i++;
    this.ws();
    if (this.s[this.i] === "/") { const e = this.s.indexOf("}", this.i), t = this.s.slice(this.i, e); this.i = e + 1; return t.trim(); }
    return this.expr().trim();
  }
  block(kind, rest) {
    const id = this.n++;
    if (kind === "if") {
      const branches = [{ c: rest, b: this.nodes() }];
      for (;;) {
        const m = this.marker();
        if (m === "/if") return { k: "if", id, branches };
        const ei = m.match(/^:else\s+if\b([^]*)$/);
        if (ei) branches.push({ c: ei[1], b: this.nodes() });
        else if (m === ":else") branches.push({ c: null, b: this.nodes() });
        else this.fail("in {#if}: " + m);
      }
    }
    if (kind === "each") {
      const m = rest.match(/^([^]*?)\s+as\s+([^]*)$/);
      if (!m) this.fail("{#each " + rest);
      let tail = m[2].trim(), key = null, index = null;
      const km = tail.match(/^([^]*?)\s*\(([^]*)\)$/);
      if (km) { tail = km[1]; key = km[2]; }
      const im = tail.match(/^([^]*[^,\s])\s*,\s*(\w+)$/);
      if (im && !/^[[{]/.test(tail) || im && /[\]}]$/.test(im[1])) { tail = im[1]; index = im[2]; }
      const body = this.nodes();
      let mk = this.marker(), els = null;
      if (mk === ":else") { els = this.nodes(); mk = this.marker(); }
      if (mk !== "/each") this.fail("in {#each}: " + mk);
      return { k: "each", id, e: m[1], ctx: tail, index, key, body, els };
    }
    if (kind === "key") {
      const body = this.nodes(), mk = this.marker();
      if (mk !== "/key") this.fail("in {#key}: " + mk);
      return { k: "key", id, e: rest, body };
    }
    if (kind === "await") {
      const am = rest.match(/^([^]*?)\s+(then|catch)\b\s*([^]*)$/);
      const out = { k: "await", id, e: am ? am[1] : rest, pending: [], then: null, thenVar: null, cat: null, catVar: null };
      if (am) { if (am[2] === "then") { out.thenVar = am[3]; out.then = this.nodes(); } else { out.catVar = am[3]; out.cat = this.nodes(); } }
      else out.pending = this.nodes();
      for (;;) {
        const mk = this.marker();
        if (mk === "/await") return out;
        const x = mk.match(/^:(then|catch)\b\s*([^]*)$/);
        if (!x) this.fail("in {#await}: " + mk);
        if (x[1] === "then") { out.thenVar = x[2]; out.then = this.nodes(); } else { out.catVar = x[2]; out.cat = this.nodes(); }
      }
    }
    this.fail("{#" + kind);
  }
  element() {
    this.i++;
    const tag = this.s.slice(this.i).match(/^[\w:.-]+/)[0];
    this.i += tag.length;
    const node = { k: "el", id: this.n++, tag, attrs: [], children: [] };
    for (;;) {
      this.ws();
      if (this.looking("/>")) { this.i += 2; return node; }
      if (this.looking(">")) { this.i++; break; }
      if (this.looking("{")) {
        this.i++;
        const e = this.expr().trim();
        node.attrs.push(e.startsWith("...") ? { spread: e.slice(3) } : { name: e, value: [{ k: "expr", e }] });
        continue;
      }
      const name = this.s.slice(this.i).match(/^[^\s=>/{"']+/)?.[0] ?? this.fail("attribute");
      this.i += name.length;
      let value = true;
      if (this.looking("=")) { this.i++; value = this.attrValue(); }
      node.attrs.push({ name, value });
    }
    if (VOID.has(tag)) return node;
    if (tag === "textarea" || tag === "script" || tag === "style" || tag === "title") { /* same parsing suffices */ }
    node.children = this.nodes();
    const close = this.s.slice(this.i).match(/^<\/([\w:.-]+)\s*>/);
    if (!close || close[1] !== tag) this.fail("unclosed <" + tag + ">");
    this.i += close[0].length;
    return node;
  }
  attrValue() {
    const q = this.s[this.i];
    const parts = [];
    let text = "";
    const flush = () => { if (text) parts.push({ k: "text", t: decode(text) }); text = ""; };
    if (q === '"' || q === "'") {
      this.i++;
      while (this.s[this.i] !== q) {
        if (this.s[this.i] === "{") { flush(); this.i++; parts.push({ k: "expr", e: this.expr() }); } else text += this.s[this.i++];
      }
      this.i++;
    } else {
      while (!/[\s>]/.test(this.s[this.i]) && !this.looking("/>")) {
        if (this.s[this.i] === "{") { flush(); this.i++; parts.push({ k: "expr", e: this.expr() }); } else text += this.s[this.i++];
      }
    }
    flush();
    return parts;
  }
}

// ---------------------------------------------------------------- code for the template
const str = JSON.stringify;
const value = (v) => v === true ? "true" : v.length === 0 ? '""'
  : v.length === 1 && v[0].k === "expr" ? `(${v[0].e})`
  : "[" + v.map((p) => (p.k === "text" ? str(p.t) : `$$s(${p.e})`)).join(",") + '].join("")';
const isComp = (tag) => /^[A-Z]/.test(tag) || tag.includes(".") || tag === "svelte:component" || tag === "svelte:self";
const attr = (node, name) => node.attrs.find((a) => a.name === name);
const blank = (n) => n.k === "text" && !n.t.trim();

function list(nodes) {
  const consts = nodes.filter((n) => n.k === "const");
  const arr = "[" + nodes.filter((n) => n.k !== "const").map(code).join(",") + "]";
  return consts.length ? `((() => { ${consts.map((c) => `const ${c.e};`).join(" ")} return ${arr}; })())` : arr;
}
const sub = (nodes, tail) => `...(($$p: any) => ${list(nodes)})($$p + ${str(tail)})`;

function code(n) {
  switch (n.k) {
    case "text": return `$$rt.text(${str(n.t)})`;
    case "expr": return `$$rt.text($$s(${n.e}))`;
    case "html": return `$$rt.html($$s(${n.e}))`;
    case "if": {
      let out = "[]";
      for (const [i, b] of [...n.branches.entries()].reverse()) {
        const body = `(($$p: any) => ${list(b.b)})($$p + ${str("/" + n.id + "." + i)})`;
        out = b.c === null ? body : `((${b.c}) ? ${body} : ${out})`;
      }
      return "..." + out;
    }
    case "each":
      return `...$$rt.each((${n.e}), $$p + "/${n.id}", (${n.ctx}: any, ${n.index ?? "$$i"}: any, $$p: any) => ${list(n.body)}, ` +
        `${n.key ? `(${n.ctx}: any, ${n.index ?? "$$i"}: any) => (${n.key})` : "null"}, ` +
        `($$p: any) => ${n.els ? list(n.els) : "[]"})`;
    case "key": return `...$$rt.key((${n.e}), $$p + "/${n.id}", ($$p: any) => ${list(n.body)})`;
    case "await":
      return `...$$rt.await($$self, (${n.e}), $$p + "/${n.id}", ($$p: any) => ${list(n.pending)}, ` +
        `${n.then ? `(${n.thenVar || "$$u"}: any, $$p: any) => ${list(n.then)}` : "null"}, ${n.cat ? `(${n.catVar || "$$u"}: any, $$p: any) => ${list(n.cat)}` : "null"})`;
    case "el": return element(n);
  }
  throw new Unsupported("node " + n.k);
}

function handlers(n) {
  const out = [];
  for (const a of n.attrs) {
    if (!a.name?.startsWith("on:")) continue;
    const [type, ...mods] = a.name.slice(3).split("|");
    out.push(`[${str(type)}, ${a.value === true ? `$$self.forward(${str(type)})` : value(a.value)}, ${str(mods)}]`);
  }
  return `[${out.join(", ")}]`;
}

function lets(n) {
  const names = n.attrs.filter((a) => a.name?.startsWith("let:")).map((a) => {
    const key = a.name.slice(4);
    return a.value === true ? key : `${str(key)}: ${a.value[0].e}`;
  });
  return `({${names.join(", ")}}: any, $$p: any)`;
}

function binds(n) {
  const out = [];
  for (const a of n.attrs) {
    if (!a.name?.startsWith("bind:")) continue;
    const name = a.name.slice(5);
    const target = a.value === true ? name : a.value[0].e.trim();
    out.push(`[${str(name)}, ${name === "this" ? "undefined" : target}, ($$x: any) => { ${target} = $$x; }]`);
  }
  return `[${out.join(", ")}]`;
}

function props(n) {
  const out = [], classes = [];
  for (const a of n.attrs) {
    if (a.spread) { out.push(`...(${a.spread})`); continue; }
    const m = a.name.match(/^(on|bind|let|use|in|out|transition|animate|class|style):(.*)$/);
    if (m) {
      if (m[1] === "class") classes.push(`(${a.value === true ? m[2] : value(a.value)}) ? ${str(" " + m[2])} : ""`);
      continue;
    }
    if (a.name === "slot" || a.name === "this" && n.tag === "svelte:component") continue;
    out.push(`${str(a.name)}: ${value(a.value)}`);
  }
  if (classes.length) out.push(`"$$classes": [${classes.join(", ")}].join("")`);
  return `{${out.join(", ")}}`;
}

function slotOf(n) {
  if (n.k !== "el") return null;
  const a = attr(n, "slot");
  return a && a.value !== true ? a.value[0]?.t ?? null : null;
}

function element(n) {
  const p = `$$p + "/${n.id}"`;
  if (n.tag === "slot") {
    const name = attr(n, "name")?.value[0]?.t ?? "default";
    const pr = props({ ...n, attrs: n.attrs.filter((a) => a.name !== "name") });
    return `...$$rt.slot($$self, ${p}, ${str(name)}, ${pr}, ($$p: any) => ${list(n.children)})`;
  }
  if (n.tag === "svelte:fragment") return sub(n.children, "/" + n.id);
  if (n.tag === "svelte:head" || n.tag === "svelte:options") return `...[]`;
  if (n.tag === "svelte:window" || n.tag === "svelte:body" || n.tag === "svelte:document")
    return `...$$rt.global($$self, ${str(n.tag)}, ${handlers(n)})`;
  if (isComp(n.tag)) {
    const named = new Map(), dflt = [];
    for (const c of n.children) { const s = slotOf(c); if (s) named.set(s, [...(named.get(s) ?? []), c]); else dflt.push(c); }
    const slots = [];
    if (dflt.some((c) => !blank(c))) slots.push(`"default": ${lets(n)} => ${list(dflt)}`);
    for (const [s, cs] of named) slots.push(`${str(s)}: ${lets(cs[0])} => ${list(cs)}`);
    const ctor = n.tag === "svelte:self" ? "$$Component" : n.tag === "svelte:component" ? value(attr(n, "this").value) : n.tag;
    return `...$$rt.component($$self, ${p}, ${ctor}, ${props(n)}, ${binds(n)}, ${handlers(n)}, {${slots.join(", ")}})`;
  }
  if (n.tag.startsWith("svelte:") && n.tag !== "svelte:element") throw new Unsupported("<" + n.tag + ">");
  const uses = n.attrs.filter((a) => a.name?.startsWith("use:")).map((a) => `[${a.name.slice(4)}, ${a.value === true ? "undefined" : value(a.value)}]`);
  return `$$rt.element($$self, ${p}, ${str(n.tag)}, ${props(n)}, ${binds(n)}, ${handlers(n)}, [${uses.join(", ")}], ($$p: any) => ${list(n.children)})`;
}

// ---------------------------------------------------------------- scripts
function patternNames(name, out = []) {
  if (ts.isIdentifier(name)) out.push(name.text);
  else for (const e of name.elements) if (!ts.isOmittedExpression(e)) patternNames(e.name, out);
  return out;
}

function declaredIn(statements) {
  const out = [];
  for (const s of statements) {
    if (ts.isVariableStatement(s)) for (const d of s.declarationList.declarations) patternNames(d.name, out);
    else if ((ts.isFunctionDeclaration(s) || ts.isClassDeclaration(s) || ts.isEnumDeclaration(s)) && s.name) out.push(s.name.text);
  }
  return out;
}

// Calls `visit(node, shadowed)` on every node, `shadowed` being the names declared between it and the top.
function localNames(node) {
  const names = [];
  if (ts.isFunctionLike(node)) { for (const p of node.parameters ?? []) patternNames(p.name, names); }
  if (ts.isBlock(node) || ts.isSourceFile(node) || ts.isModuleBlock(node)) names.push(...declaredIn(node.statements));
  if (ts.isCaseBlock(node)) for (const c of node.clauses) names.push(...declaredIn(c.statements));
  if ((ts.isForStatement(node) || ts.isForOfStatement(node) || ts.isForInStatement(node)) && node.initializer && ts.isVariableDeclarationList(node.initializer))
    for (const d of node.initializer.declarations) patternNames(d.name, names);
  if (ts.isCatchClause(node) && node.variableDeclaration) patternNames(node.variableDeclaration.name, names);
  return names;
}

const isReference = (n) => {
  const p = n.parent;
  if (!p) return true;
  if (ts.isPropertyAccessExpression(p) && p.name === n) return false;
  if (ts.isPropertyAssignment(p) && p.name === n) return false;
  if (ts.isMethodDeclaration(p) && p.name === n || ts.isBindingElement(p) && p.propertyName === n) return false;
  if (ts.isTypeNode(p) || ts.isLabeledStatement(p)) return false;
  return true;
};

const isAssign = (k) => k >= ts.SyntaxKind.FirstAssignment && k <= ts.SyntaxKind.LastAssignment;
function rootName(e) {
  while (ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e) || ts.isNonNullExpression(e) || ts.isParenthesizedExpression(e) || ts.isAsExpression(e)) e = e.expression;
  return ts.isIdentifier(e) ? e.text : null;
}
function targetNames(e, out = []) {
  if (ts.isArrayLiteralExpression(e)) e.elements.forEach((x) => targetNames(ts.isSpreadElement(x) ? x.expression : x, out));
  else if (ts.isObjectLiteralExpression(e)) for (const p of e.properties) {
    if (ts.isShorthandPropertyAssignment(p)) out.push(p.name.text);
    else if (ts.isPropertyAssignment(p)) targetNames(p.initializer, out);
    else if (ts.isSpreadAssignment(p)) targetNames(p.expression, out);
  } else if (ts.isBinaryExpression(e)) targetNames(e.left, out);
  else { const r = rootName(e); if (r) out.push(r); }
  return out;
}

function uses(node, vars) {           // {reads, writes} of component variables within a statement
  const reads = new Set(), writes = new Set();
  const walk = (n, shadow) => {
    const local = localNames(n);
    if (local.length) shadow = new Set([...shadow, ...local]);
    const ok = (x) => vars.has(x) && !shadow.has(x);
    if (ts.isBinaryExpression(n) && isAssign(n.operatorToken.kind)) {
      for (const x of targetNames(n.left)) if (ok(x)) writes.add(x);
      if (n.operatorToken.kind === ts.SyntaxKind.EqualsToken && ts.isIdentifier(n.left)) { walk(n.right, shadow); return; }
    }
    if ((ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) && (n.operator === ts.SyntaxKind.PlusPlusToken || n.operator === ts.SyntaxKind.MinusMinusToken)) {
      const r = rootName(n.operand);
      if (r && ok(r)) writes.add(r);
    }
    if (ts.isIdentifier(n) && isReference(n) && ok(n.text)) reads.add(n.text);
    ts.forEachChild(n, (c) => { walk(c, shadow); });
  };
  walk(node, new Set());
  return { reads, writes };
}

function instrument(text, vars, stores) {
  const sf = ts.createSourceFile("c.ts", text, ts.ScriptTarget.ES2022, true, ts.ScriptKind.TS);
  const result = ts.transform(sf, [(ctx) => {
    const f = ctx.factory;
    const self = (m, ...args) => f.createCallExpression(f.createPropertyAccessExpression(f.createIdentifier("$$self"), m), undefined, args);
    const visit = (n, shadow, depth) => {
      const local = depth <= 1 ? [] : localNames(n);
      if (local.length) shadow = new Set([...shadow, ...local]);
      const ok = (x) => x !== null && vars.has(x) && !shadow.has(x);
      const kids = () => ts.visitEachChild(n, (c) => visit(c, shadow, depth + (ts.isFunctionLike(n) || depth ? 1 : 0)), ctx);
      if (ts.isBinaryExpression(n) && isAssign(n.operatorToken.kind)) {
        if (ts.isIdentifier(n.right) && n.right.text === "$$v") return n;
        const left = n.left;
        if (ts.isIdentifier(left)) {
          if (stores.has(left.text) && !shadow.has(left.text)) return self("storeSet", f.createIdentifier(left.text.slice(1)), kids());
          if (ok(left.text)) return self("set", f.createStringLiteral(left.text), f.createIdentifier(left.text), kids());
        } else {
          const names = targetNames(left).filter(ok);
          if (names.length) return self("mutate", f.createArrayLiteralExpression(names.map((x) => f.createStringLiteral(x))), kids());
        }
      }
      if ((ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) && (n.operator === ts.SyntaxKind.PlusPlusToken || n.operator === ts.SyntaxKind.MinusMinusToken)) {
        const r = rootName(n.operand);
        if (ok(r)) return self("mutate", f.createArrayLiteralExpression([f.createStringLiteral(r)]), kids());
      }
      if (ts.isDeleteExpression(n) && ok(rootName(n.expression)))
        return self("mutate", f.createArrayLiteralExpression([f.createStringLiteral(rootName(n.expression))]), kids());
      return kids();
    };
    return (root) => ts.visitEachChild(root, (c) => visit(c, new Set(), 0), ctx);
  }]);
  return ts.createPrinter().printFile(result.transformed[0]);
}

export function compile(source, filename) {
  let moduleScript = "", script = "";
  let rest = source.replace(/<script([^>]*)>([^]*?)<\/script>/g, (m, attrs, body) => {
    if (/context\s*=\s*["']?module|\smodule\b/.test(attrs)) moduleScript += body; else script += body;
    return "";
  }).replace(/<style[^>]*>[^]*?<\/style>/g, "");
  if (/\$(state|derived|effect|props|bindable)\b\s*[.(<]/.test(script)) throw new Unsupported("runes");
  const parser = new Parser(rest.trim());
  const nodes = parser.nodes();
  if (parser.i < parser.s.length) parser.fail("stray closing tag or block");

  const sf = ts.createSourceFile("s.ts", script, ts.ScriptTarget.ES2022, true, ts.ScriptKind.TS);
  const imports = [], body = [], reactives = [], props = new Set(), vars = new Set(), imported = new Set();
  const textOf = (n) => n.getText(sf);
  const all = new Set(declaredIn(sf.statements));
  for (const s of sf.statements) {
    if (ts.isImportDeclaration(s)) {
      imports.push(textOf(s));
      const c = s.importClause;
      if (c?.name) imported.add(c.name.text);
      if (c?.namedBindings) { if (ts.isNamespaceImport(c.namedBindings)) imported.add(c.namedBindings.name.text); else c.namedBindings.elements.forEach((e) => imported.add(e.name.text)); }
    } else if (ts.isVariableStatement(s)) {
      const isConst = (s.declarationList.flags & ts.NodeFlags.Const) !== 0;
      const exported = s.modifiers?.some((m) => m.kind === ts.SyntaxKind.ExportKeyword);
      for (const d of s.declarationList.declarations) patternNames(d.name).forEach((x) => vars.add(x));
      if (exported && !isConst) {
        for (const d of s.declarationList.declarations) {
          const name = d.name.text;
          props.add(name);
          body.push(`let ${name}${d.type ? ": " + textOf(d.type) : ""} = $$self.prop(${str(name)}, () => (${d.initializer ? textOf(d.initializer) : "undefined"})) as any; ` +
            `$$self.setters[${str(name)}] = ($$v: any) => { ${name} = $$v; };`);
        }
      } else body.push(textOf(s).replace(/^export\s+/, ""));
    } else if (ts.isLabeledStatement(s) && s.label.text === "$") {
      reactives.push(s.statement);
    } else if (ts.isExportDeclaration(s)) {
      if (!s.exportClause || s.moduleSpecifier) throw new Unsupported("export declaration");
      for (const e of s.exportClause.elements) {
        const local = (e.propertyName ?? e.name).text;
        if (!vars.has(local)) continue;
        body.push(`${local} = $$self.prop(${str(e.name.text)}, () => ${local}) as any; $$self.setters[${str(e.name.text)}] = ($$v: any) => { ${local} = $$v; };`);
      }
    } else body.push(textOf(s).replace(/^export\s+/, ""));
  }
  // `$: x = ...` declares x
  for (const r of reactives) {
    if (ts.isExpressionStatement(r)) {
      const e = ts.isParenthesizedExpression(r.expression) ? r.expression.expression : r.expression;
      if (ts.isBinaryExpression(e) && e.operatorToken.kind === ts.SyntaxKind.EqualsToken)
        for (const x of targetNames(e.left)) if (!all.has(x) && !imported.has(x) && !vars.has(x)) { vars.add(x); body.unshift(`let ${x}: any;`); }
    }
  }
  const template = list(nodes);
  // stores: `$name` where `name` is a variable or an import
  const stores = new Set();
  for (const m of (script + template).matchAll(/(?<![\w$])\$([A-Za-z_]\w*)/g)) if (all.has(m[1]) || imported.has(m[1])) stores.add("$" + m[1]);
  const storeCode = (name) => `let ${name}: any; $$self.store(${name.slice(1)}, ($$v: any) => { ${name} = $$v; }, ${str(name)});`;
  for (const s of stores) {
    vars.add(s);
    if (imported.has(s.slice(1))) body.unshift(storeCode(s));
    else {
      const i = body.findIndex((b) => new RegExp(`^(export )?(let|const|var)\\b[^]*\\b${s.slice(1)}\\b`).test(b));
      body.splice(i + 1, 0, storeCode(s));
    }
  }
  const info = reactives.map((r) => {
    const { reads, writes } = uses(r, vars);
    return { text: textOf(r), deps: [...reads].filter((x) => !writes.has(x)), writes };
  });
  const order = [];
  const seen = new Set();
  const place = (r) => {
    if (seen.has(r)) return;
    seen.add(r);
    for (const o of info) if (o !== r && [...o.writes].some((w) => r.deps.includes(w))) place(o);
    order.push(r);
  };
  info.forEach(place);
  const fn = "function $$instance($$self: any, $$props: any, $$restProps: any, $$slots: any) {\n" + body.join("\n") + "\n" +
    order.map((r) => `$$self.reactive(${str(r.deps)}, () => { ${r.text} });`).join("\n") +
    `\nreturn ($$p: any) => ${template};\n}`;
  const wrapped = instrument(fn, vars, stores);
  return `import * as $$rt from "svelte/internal/vf";\nconst $$s = $$rt.str;\n${imports.join("\n")}\n${moduleScript}\n` +
    wrapped + `\nconst $$Component: any = $$rt.define($$instance, ${str([...props])}, ${str(filename)});\nexport default $$Component;\n`;
}
