// Line-JSON server: real TypeScript compiler and real zod as observers of generated code.
import { createRequire } from "node:module";
import readline from "node:readline";
import fs from "node:fs";
import path from "node:path";
const NM = "/opt/veriftools/node/node_modules/";
const req = createRequire(NM + "x.js");
let ts, zod;

const libCache = new Map();

function tsBatch(files) {
  ts ??= req("typescript");
  const libDir = path.dirname(req.resolve("typescript"));
  const options = {
    strict: true, noEmit: true, target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.ES2020,
    lib: ["lib.es5.d.ts"], types: [], skipLibCheck: true, moduleResolution: ts.ModuleResolutionKind.Node10,
    ignoreDeprecations: "5.0",
  };
  const virt = new Map();
  for (const f of files) {
    virt.set(`/v/c${f.id}.ts`, f.code);
    if (f.sample !== undefined)
      virt.set(`/v/s${f.id}.ts`, `import type { ${f.name} as VfT } from "./c${f.id}";\nexport const s: VfT = ${f.sample};\n`);
  }
  const host = {
    getSourceFile(name, lang) {
      if (virt.has(name)) return ts.createSourceFile(name, virt.get(name), lang, true);
      if (path.basename(name).startsWith("lib.")) {
        if (!libCache.has(name))
          libCache.set(name, ts.createSourceFile(name, fs.readFileSync(path.join(libDir, path.basename(name)), "utf8"), lang));
        return libCache.get(name);
      }
      return undefined;
    },
    getDefaultLibFileName: () => "lib.es5.d.ts",
    getDefaultLibLocation: () => libDir,
    writeFile() {}, getCurrentDirectory: () => "/v", getCanonicalFileName: (x) => x,
    useCaseSensitiveFileNames: () => true, getNewLine: () => "\n",
    fileExists: (n) => virt.has(n) || fs.existsSync(n), readFile: (n) => virt.get(n),
    directoryExists: (d) => d === "/v", getDirectories: () => [],
  };
  const program = ts.createProgram([...virt.keys()], options, host);
  const checker = program.getTypeChecker();
  const diag = (name) => {
    const sf = program.getSourceFile(name);
    if (!sf) return ["no source file"];
    return [...program.getSyntacticDiagnostics(sf), ...program.getSemanticDiagnostics(sf)]
      .filter((d) => d.category === ts.DiagnosticCategory.Error)
      .map((d) => `TS${d.code}: ${ts.flattenDiagnosticMessageText(d.messageText, "\n").slice(0, 400)}`);
  };
  return files.map((f) => {
    const out = { id: f.id, code: diag(`/v/c${f.id}.ts`) };
    if (f.sample !== undefined) out.sample = diag(`/v/s${f.id}.ts`);
    const sf = program.getSourceFile(`/v/c${f.id}.ts`);
    out.declared = sf.statements.map((s) => (s.name ? s.name.text : ts.SyntaxKind[s.kind]));
    const sym = sf.symbol;
    out.exports = sym ? checker.getExportsOfModule(sym).map((s) => s.name) : [];
    if (out.code.length === 0) {
      const root = sym && checker.getExportsOfModule(sym).find((s) => s.name === f.name);
      if (root) {
        const types = {};
        const ids = new Map();
        out.root = dump(checker, checker.getDeclaredTypeOfSymbol(root), ids, types, sf);
        out.types = types;
      }
    }
    return out;
  });
}

function dump(checker, t, ids, types, node) {
  const F = ts.TypeFlags;
  if (t.flags & F.Any) return ["any"];
  if (t.flags & F.Unknown) return ["unknown"];
  if (t.flags & F.Null) return ["nulltype"];
  if (t.flags & F.Undefined) return ["undef"];
  if (t.flags & F.Number) return ["num"];
  if (t.flags & F.String) return ["str"];
  if (t.flags & F.Boolean) return ["bool"];
  if (t.flags & F.Union) {
    let parts = t.types, nul = false, und = false;
    if (parts.some((p) => p.flags & F.Null)) nul = true;
    if (parts.some((p) => p.flags & F.Undefined)) und = true;
    const rest = checker.getNonNullableType(t);
    let d = rest.flags & F.Union && !(rest.flags & F.Boolean)
      ? ["union", ...rest.types.map((x) => dump(checker, x, ids, types, node))]
      : rest.flags & F.Never ? ["never"] : dump(checker, rest, ids, types, node);
    if (nul) d = ["nullable", d];
    if (und) d = ["orundef", d];
    return d;
  }
  if (t.flags & F.Object) {
    if (t.symbol && t.symbol.name === "Date" && /\/lib\.[^/]*d\.ts$/.test(t.symbol.declarations[0].getSourceFile().fileName))
      return ["other", "Date"];
    if (ids.has(t)) return ["ref", ids.get(t)];
    const id = "t" + ids.size;
    ids.set(t, id);
    let d;
    if (checker.isTupleType(t))
      d = ["tuple", checker.getTypeArguments(t).map((x) => dump(checker, x, ids, types, node)),
        t.target.elementFlags.every((f) => f === ts.ElementFlags.Required)];
    else if (checker.isArrayType(t)) d = ["list", dump(checker, checker.getTypeArguments(t)[0], ids, types, node)];
    else {
      const idx = checker.getIndexInfosOfType(t);
      const props = checker.getPropertiesOfType(t);
      if (idx.length) d = ["map", dump(checker, idx[0].type, ids, types, node), checker.typeToString(idx[0].keyType), props.length];
      else {
        const fs_ = props.map((p) => {
          const opt = !!(p.flags & ts.SymbolFlags.Optional);
          let pt = checker.getTypeOfSymbolAtLocation(p, node);
          let pd = dump(checker, pt, ids, types, node);
          if (opt && pd[0] === "orundef") pd = pd[1];
          return [p.name, opt, pd];
        });
        d = ["struct", fs_, t.symbol && t.symbol.name];
      }
    }
    types[id] = d;
    return ["ref", id];
  }
  return ["other", checker.typeToString(t)];
}

function zdump(s, depth = 0) {
  const def = s._zod.def;
  switch (def.type) {
    case "object": {
      const shape = def.shape;
      return ["struct", Object.keys(shape).map((k) => {
        let f = shape[k], opt = false;
        if (f._zod.def.type === "optional") { opt = true; f = f._zod.def.innerType; }
        return [k, opt, zdump(f, depth + 1)];
      })];
    }
    case "array": return ["list", zdump(def.element)];
    case "nullable": return ["nullable", zdump(def.innerType)];
    case "optional": return ["orundef", zdump(def.innerType)];
    case "record": return ["map", zdump(def.valueType), def.keyType._zod.def.type, 0];
    case "tuple": return ["tuple", def.items.map((x) => zdump(x)), def.rest == null];
    case "string": return ["str"];
    case "number": return ["num"];
    case "boolean": return ["bool"];
    case "unknown": return ["any"];
    default: return ["other", def.type];
  }
}

function zodBatch(files) {
  zod ??= req("zod");
  return files.map((f) => {
    const out = { id: f.id };
    let m;
    try {
      m = [...f.code.matchAll(/^export const ([A-Za-z_$][\w$]*)\s*=/gm)];
      out.declared = m.map((x) => x[1]);
      const body = f.code.replace(/^export const /gm, "const ");
      const names = out.declared.length ? out.declared.join(",") : "";
      const fn = new Function("z", `"use strict";\n${body}\nreturn {${names}};`);
      const ns = fn(zod.z);
      const schema = ns[out.declared[0]];
      if (out.declared.length !== 1 || !schema?._zod) { out.error = "not exactly one schema declared: " + names; return out; }
      out.root = zdump(schema);
      const parse = (text) => {
        const v = JSON.parse(text);
        const r = schema.safeParse(v);
        if (!r.success) return { ok: false, why: r.error.issues.slice(0, 3).map((i) => ({ code: i.code, path: i.path.map(String), msg: i.message.slice(0, 120), expected: i.expected })) };
        return { ok: true, data: JSON.stringify(r.data) };
      };
      if (f.sample !== undefined) out.sample = parse(f.sample);
      if (f.probes) out.probes = f.probes.map((p) => parse(p).ok);
    } catch (e) {
      out.error = String(e).slice(0, 400);
    }
    return out;
  });
}

const rl = readline.createInterface({ input: process.stdin });
rl.on("line", (line) => {
  const r = JSON.parse(line);
  let res;
  try {
    res = r.op === "ts" ? tsBatch(r.files) : zodBatch(r.files);
  } catch (e) {
    res = { harness_error: String(e && e.stack || e) };
  }
  process.stdout.write(JSON.stringify(res) + "\n");
});
