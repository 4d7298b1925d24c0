"""C17, C18, C22-C25: names, keys and options."""
import json
import re

from .. import gen, lang, model, rustc
from ..drv import Inconclusive, outcome, node_request, crashed
from .inference import FORMATS, MODES, STYLES, Driven, parse_json, paths, rust_str, mutate, random_options
from .languages import (Declared, edit, Lang, LONG_ROOTS, NODE_MODES, ROOTS, TEXT_MODES, TS_PRELUDE, TsModule, closed_kotlin, complete, lang_doc,
                        nontrivial, read_text_mode)


def closed_rust(m, style="add_imports"):
    for n in m.used:
        if n in m.order or n in lang.RUST_PRIMS or n in ("Option", "Vec", "String"):
            continue
        bare = n[2:] if n.startswith("::") else n
        full = m.short.get(n, bare)
        if full in lang.RUST_KNOWN and "::" in full:
            continue
        return "the type %s is neither declared, imported nor built in" % n
    for short in m.short:
        if short in m.order and m.short[short] in lang.RUST_KNOWN:
            return "%s is both imported and declared" % short
    return None


PY_TYPES = {"bool", "str", "int", "float", "list", "dict", "tuple"}


def closed_python(m):
    for n in m.used:
        if n in m.order or n in PY_TYPES:
            continue
        if m.short.get(n, n) in ("typing.Any", "typing.Optional", "pydantic.BaseModel", "pydantic.Field"):
            if "." in n and n.split(".")[0] not in m.modules:
                return "%s is used without importing the module" % n
            continue
        return "the name %s is neither declared, imported nor built in" % n
    for n in m.order:
        if n in m.short or n in PY_TYPES:
            return "the declaration %s hides a name the code uses" % n
    return None


BAD_TS = ("TS2300", "TS2304", "TS2552", "TS2451", "TS2314", "TS2315", "TS2395", "TS2428", "TS2717", "TS2440", "TS2503", "TS2749")


NOT_ROOTS = {w.lower() for w in gen.KEYWORDS + gen.TYPENAMES} | set(
    "i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 isize usize str char bool int float double list dict tuple set bytes long map vec box rc "
    "record array object number string boolean null undefined unknown never void symbol bigint optional union literal json basemodel field "
    "data class hashmap serialize deserialize value serde debug date promise error function regexp result some none ok err option any "
    "jsonproperty serialname serializable jsonnaming propertynamingstrategies jsonanysetter jsonanygetter default clone pair triple short byte unit nothing collection iterable sequence throwable annotation enum sep os io re".split())


def any_name(rng, doc=None):
    """A plain identifier that is neither a keyword nor a built-in type of any of the languages."""
    while True:
        r = rng.random()
        if r < 0.4:
            # parts of names the generated code uses
            w = rng.choice(["Vec", "Option", "String", "HashMap", "List", "Map", "Array", "Any", "Record", "Optional", "BaseModel", "Long", "Double",
                            "Boolean", "number", "string", "boolean", "f64", "i64", "bool", "float", "str", "int", "Serialize", "Deserialize",
                            "Debug", "Default", "JsonProperty", "SerialName", "Serializable", "pydantic", "Field", "typing", "std", "serde_json",
                            "struct", "interface", "type", "export", "pub", "import", "typealias", "additional_fields", "additionalFields"])
            i = rng.randrange(len(w))
            s = w[i:rng.randint(i + 1, len(w))] if rng.random() < 0.5 else w[:rng.randint(1, len(w))]
            if rng.random() < 0.3:
                s = w + rng.choice(["2", "s", "X", "_", "Item", "1", "Ext"])
        elif r < 0.6 and isinstance(doc, dict) and doc:
            k = "".join(ch for ch in rng.choice(list(doc)) if ch.isascii() and ch.isalnum())
            s = rng.choice([k, k[:1].upper() + k[1:], k.lower(), k.rstrip("s"), k + "s", k + "2", k[:2]])
        else:
            s = "".join(rng.choice("abcxyzABCXYZ019_") for _ in range(rng.choice([1, 1, 2, 3, 5, 9])))
        if s[:1].isalpha() and s.isascii() and s.lower() not in NOT_ROOTS and s[0].isalpha():
            return s


class C17(Declared):
    id = "C17"
    technique = "scope-checking monitor over the declarations read back from the generated code (tsc's own binder for TypeScript)"
    level_note = "exploration; trusts the readers of Rust, Kotlin and Python written for this and the TypeScript compiler"
    rule = ("samples whose keys are type-like, keyword-like, colliding and recursive-looking names, with varied root names; "
            "non-trivial: distinct (sample, mode) with at least two declarations")
    modes = ("rust", "typescript", "typescript/typealias", "kotlin/jackson", "kotlin/kotlinx", "python")
    counts = (120000, 2500000)

    def cases(self, ctx):
        rng = ctx.rng
        words = gen.TYPENAMES + gen.COLLIDE + gen.KEYWORDS + gen.PLURAL
        for _ in range(ctx.count(*self.counts)):
            name = rng.choice(ROOTS + ["Root2", "GeneratedType", "Data", "Name", "Geo", "Items"])
            if rng.random() < 0.01:
                name = rng.choice(LONG_ROOTS)
            if rng.random() < 0.5:
                doc = lang_doc(rng, 150, hostile=rng.choice([0.6, 1.0]))
            else:
                # many distinct structures under names that collide with each other and the root
                def obj(depth):
                    o = {}
                    for _ in range(rng.randint(1, 4)):
                        k = rng.choice(words) if rng.random() < 0.7 else rng.choice([name, name.lower(), name + "2", name + "s", "root"])
                        if depth <= 0:
                            o[k] = rng.choice([gen.Num(1), "x", None, True, gen.Num("0.5")])
                        else:
                            v = obj(depth - 1)
                            if rng.random() < 0.2:
                                v["u%d" % rng.randint(0, 99)] = gen.Num(1)
                            r = rng.random()
                            o[k] = [v] if r < 0.25 else [v, gen.Num(1)] if r < 0.35 else v
                    return o
                doc = obj(rng.choice([1, 2, 2, 3]))
                r = rng.random()
                doc = [doc] if r < 0.3 else [doc, obj(1)] if r < 0.4 else [doc, "x", gen.Num(1)] if r < 0.5 else doc
                if gen.size(doc) > 250:
                    continue
            if rng.random() < 0.4:
                name = any_name(rng, doc)
            yield {"input": gen.dump(doc), "name": name, "mode": rng.choice(self.modes)}

    def judge(self, ctx, cases):
        # tsc diagnostics matter only if they are about names
        out = [None] * len(cases)
        files, held = [], {}
        for i, c in enumerate(cases):
            doc = parse_json(c["input"])
            r = self.s.codegen(c["input"], name=c["name"], output_mode=c["mode"])
            if "ok" not in r:
                out[i] = "no code for a valid sample: %r\n%s" % (r, c["input"][:1000])
                continue
            held[i] = (doc, r["ok"])
            if c["mode"].startswith("typescript"):
                files.append({"id": i, "code": r["ok"], "name": c["name"]})
            else:
                try:
                    m = read_text_mode(c["mode"], r["ok"])
                    what = {"rust": closed_rust, "python": closed_python}.get(c["mode"], closed_kotlin)(m)
                    out[i] = what or self.root(ctx, c, doc, m)
                except lang.Malformed as e:
                    out[i] = "the generated code can not be read: %s" % e
        if files:
            for o in node_request(self.node, {"op": "ts", "files": files}):
                i = o["id"]
                c = cases[i]
                bad = [d for d in o["code"] if d.split(":")[0] in BAD_TS]
                names = o["declared"]
                if len(set(names)) != len(names):
                    out[i] = "declared twice: %r" % sorted(n for n in set(names) if names.count(n) > 1)
                elif c["name"] not in names or c["name"] not in o["exports"]:
                    out[i] = "the root type is not declared"
                elif bad:
                    out[i] = "tsc: %s" % bad[:3]
                elif o["code"]:
                    out[i] = "tsc: %s" % o["code"][:3]
                else:
                    out[i] = self.root(ctx, c, held[i][0], TsModule(c["mode"], o), len(names))
        for i, (doc, code) in held.items():
            if out[i]:
                out[i] += "\nmode %s root %s\nsample %s\n%s" % (cases[i]["mode"], cases[i]["name"], cases[i]["input"][:700], code[:1300])
        return out

    def root(self, ctx, c, doc, m, ndecl=None):
        n = model.infer(doc)
        cmp = lang.Compare(m, only="root")
        try:
            cmp.run(n, m.root(c["name"]))
        except (lang.Mismatch, lang.Malformed) as e:
            return "the root name does not denote the type of the sample: %s" % e
        ndecl = len(m.order) if ndecl is None else ndecl
        ctx.stat("declarations", ndecl)
        ctx.stat("mode_" + c["mode"])
        if ndecl >= 2:
            ctx.seen(c["mode"] + c["input"])
        if ctx.rng.random() < 0.001:
            ctx.sample({"mode": c["mode"], "name": c["name"], "input": c["input"][:300], "declared": m.order[:20]})
        return None

    def finish(self, m):
        miss = [x for x in self.modes if not m["stats"].get("mode_" + x)]
        if miss:
            raise Inconclusive("modes not observed: %r" % miss)


class C18(Declared):
    id = "C18"
    technique = ("monitor of the effective wire keys: serde really run for Rust, tsc and zod, and readers that apply Jackson's "
                 "naming strategies")
    level_note = ("exploration; Rust keys are what compiled serde code accepted and produced; Jackson's strategies are re-implemented "
                  "from its source. Not claimed: an empty key with Jackson, which cannot express it")
    rule = ("samples with hostile keys in all modes, with and without property_name_format (8 formats); non-trivial: distinct "
            "(sample, mode, format) with a struct and at least two keys")
    counts = (50000, 1000000)
    batch = 60
    assumptions = ("an explicit @JsonProperty name is not changed by a naming strategy (Jackson's default)",)

    def setup(self):
        super().setup()
        self.rc = rustc.Rustc()

    def cases(self, ctx):
        rng = ctx.rng
        words = gen.KEYWORDS + gen.TYPENAMES + gen.COLLIDE + gen.SYNTAX + gen.PLAIN
        n = ctx.count(*self.counts)
        serde_left = ctx.count(1600, 40000)
        for i in range(n):
            mode = rng.choice(self.modes)
            fmt = rng.choice(FORMATS) if rng.random() < 0.6 else None
            if rng.random() < 0.5:
                ks = {}
                for _ in range(rng.randint(2, 8)):
                    r = rng.random()
                    if r < 0.35:
                        k = rng.choice(words)
                    elif r < 0.7:
                        k = gen.styled_key(rng)
                    elif r < 0.85:
                        k = "".join(rng.choice("aAbBxX129__--. é") for _ in range(rng.randint(1, 6)))
                    else:
                        k = "".join(rng.choice(gen.FRESH + gen.UNI) for _ in range(rng.randint(1, 8)))
                    if k != "__proto__":
                        ks[k] = rng.choice([gen.Num(1), "x", True, None])
                doc = ks
            else:
                doc = lang_doc(rng, 120)
            if mode == "kotlin/jackson" and any(p and "" in p for p in paths(doc)):
                continue
            c = {"input": gen.dump(doc), "name": "Root", "mode": mode}
            if fmt:
                c["set"] = {"property_name_format": fmt}
            if mode == "rust" and serde_left > 0:
                serde_left -= 1
                c["serde"] = True
            yield c

    def judge(self, ctx, cases):
        out = super().judge(ctx, cases)
        mods, inputs = [], []
        for i, c in enumerate(cases):
            if c.get("serde") and out[i] is None:
                r = self.s.codegen(c["input"], name=c["name"], output_mode="rust", **c.get("set", {}))
                doc = parse_json(c["input"])
                mods.append((i, r["ok"], "Root"))
                inputs.append((i, gen.dump(complete(doc, model.infer(doc)))))
        if mods:
            failed, results = self.rc.run(mods, inputs)
            ctx.stat("rust_not_compiling", len(failed))
            for i, errs in failed.items():
                out[i] = "rustc: %s\nsample %s\nset %s" % (errs[:2], cases[i]["input"][:600], cases[i].get("set"))
            for i, text, res in results:
                what = res if res[0] != "S" else rustc.rt_equal(parse_json(text), parse_json(res[2:]))
                if what:
                    out[i] = "with serde: %s\nsample %s\nset %s" % (what, text[:600], cases[i].get("set"))
                else:
                    ctx.stat("serde_round_trips")
        return out

    def verdict(self, ctx, c, doc, m, root):
        n = model.infer(doc)
        cmp = lang.Compare(m, only="keys")
        try:
            cmp.run(n, root)
        except (lang.Mismatch, lang.Malformed) as e:
            return "keys differ: %s" % e
        if c["mode"] == "kotlin/jackson" and c.get("set"):
            want = {"lowercase": "LowerCaseStrategy", "PascalCase": "UpperCamelCaseStrategy", "snake_case": "SnakeCaseStrategy",
                    "kebab-case": "KebabCaseStrategy"}.get(c["set"]["property_name_format"])
            for k, a in m.attrs.items():
                if a["strategy"] and a["strategy"] != want:
                    return "class %s has the naming strategy %s" % (k, a["strategy"])
        ctx.stat("mode_" + c["mode"])
        ctx.stat("format_" + str(c.get("set", {}).get("property_name_format")))
        keys = sum(len(s) for s in m.structs.values()) if m.structs else 2
        ctx.stat("fields", keys)
        if keys >= 2:
            ctx.seen(json.dumps([c["mode"], c["input"], c.get("set")]))
        if ctx.rng.random() < 0.001:
            ctx.sample({"mode": c["mode"], "set": c.get("set"), "input": c["input"][:300]})
        return None

    def finish(self, m):
        need = ["mode_" + x for x in self.modes] + ["format_" + x for x in FORMATS + ["None"]] + ["serde_round_trips"]
        miss = [k for k in need if not m["stats"].get(k)]
        if miss:
            raise Inconclusive("never observed: %r" % miss)


def mixed(acc, n):
    """Is there a position for which the threshold leaves open whether it is a map?"""
    big = "map" in acc.kinds
    if "obj" in acc.kinds and (big or len(acc.fields) > n):
        return True
    subs = [f[0] for f in acc.fields.values()] + list(acc.idx)
    if acc.elem is not None:
        subs.append(acc.elem)
    if acc.vals is not None:
        subs.append(acc.vals)
    return any(mixed(s, n) for s in subs)


class C25(Declared):
    id = "C25"
    technique = "monitor comparing declared types with a reference model of the threshold rule"
    level_note = "exploration; trusts the readers and the model; samples in which some position has objects on both sides of the threshold are left out"
    rule = "samples with objects of 0-30 keys and thresholds 0-20 in all modes; non-trivial: distinct cases where at least one position became a map and one did not"
    modes = TEXT_MODES + NODE_MODES + ("shape",)
    counts = (120000, 2500000)

    def cases(self, ctx):
        rng = ctx.rng
        for _ in range(ctx.count(*self.counts)):
            if rng.random() < 0.0015:
                yield self.large(rng)
                continue
            n = rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 8, 20]) if rng.random() < 0.995 else rng.choice([33, 64, 100, 128, 255, 256])
            for _ in range(20):
                if rng.random() < 0.2:
                    doc = lang_doc(rng, 200, max_fields=rng.choice([2, 4, 7]))
                else:
                    t = self.template(rng, n, rng.choice([2, 3, 4]) if n < 4 else 2)
                    doc = t() if rng.random() < 0.6 else [t() for _ in range(rng.randint(1, 3))]
                if not isinstance(doc, (dict, list)):
                    continue
                a = model.Acc()
                a.add(doc, [], n)
                if not mixed(a, n) and gen.size(doc) < 400:
                    break
            else:
                continue
            c = {"input": gen.dump(doc), "name": "Root", "mode": rng.choice(self.modes), "n": n}
            c["options"] = rng.choice(['{infer_map_threshold: "%d"}', '{"infer_map_threshold": "%d"}']) % n
            yield c

    def large(self, rng):
        """A map of hundreds or thousands of keys, in which few values differ from the first"""
        count = rng.choice([300, 600, 1023, 1025, 1100, 2000, 2100, 4100, 5000])
        common, other = rng.sample(gen.SCALARS, 2)
        if rng.random() < 0.3:
            other = "null"
        late = set(rng.choices(range(count), k=rng.choice([1, 2]))) if rng.random() < 0.5 else {count - 1}
        wrap = (lambda v: {"id": v}) if rng.random() < 0.3 else lambda v: v
        doc = {"k%d" % i: wrap(None if i in late and other == "null" else gen.gen_scalar(rng, other if i in late else common))
               for i in range(count)}
        if rng.random() < 0.3:
            doc = {"items": doc}
        n = rng.choice([1, 1, 5, 100, 255])
        return {"input": gen.dump(doc), "name": "Root", "mode": rng.choice(self.modes), "n": n,
                "options": '{infer_map_threshold: "%d"}' % n}

    @classmethod
    def template(self, rng, n, depth):
        """A generator of values in which every object position is clearly above or below the threshold."""
        r = rng.random()
        if depth <= 0 or r < 0.15:
            kinds = [rng.choice(gen.SCALARS) for _ in range(rng.choice([1, 1, 1, 2]))]
            nulls = rng.choice([0, 0, 0.3])
            return lambda: None if rng.random() < nulls else gen.gen_scalar(rng, rng.choice(kinds))
        if r < 0.3:
            sub = self.template(rng, n, depth - 1)
            lo, hi = rng.choice([(0, 2), (1, 1), (2, 2), (1, 3)])
            return lambda: [sub() for _ in range(rng.randint(lo, hi))]
        names = ["k%d" % i for i in range(max(40, n + 8))]
        if rng.random() < 0.3:
            used = {}
            for _ in range(n + 8):
                used[gen.gen_key(rng, gen.Profile(rng, hostile=1.0, avoid={"__proto__"}), used)] = 1
            names = list(used)
        if r < 0.65:
            sub = self.template(rng, n, depth - 1)
            top = rng.choice([n + 1, n + 1, n + 2, n + 4])
            return lambda: {k: sub() for k in rng.sample(names, rng.randint(n + 1, top))}
        pool = names[:rng.choice([n, n, max(0, n - 1), n // 2])]
        subs = {k: self.template(rng, n, depth - 1) for k in pool}
        miss = rng.choice([0, 0, 0.3])
        return lambda: {k: subs[k]() for k in pool if rng.random() >= miss}

    def judge(self, ctx, cases):
        shape = [c for c in cases if c["mode"] == "shape"]
        rest = [c for c in cases if c["mode"] != "shape"]
        res = {id(c): r for c, r in zip(rest, super().judge(ctx, rest))}
        for c in shape:
            from .inference import doc_ok_for_shape, got_shape
            doc = parse_json(c["input"])
            res[id(c)] = None
            if not doc_ok_for_shape(doc):
                continue
            got, err = got_shape(self.s.codegen(c["input"], options=c["options"], output_mode="shape"))
            want = model.infer(doc, threshold=c["n"])
            if err or got != want:
                res[id(c)] = "threshold %d: inferred %s\nexpected %s\nsample %s" % (
                    c["n"], err or model.show(got), model.show(want), c["input"][:800])
            else:
                self.note(ctx, c, want)
        return [res[id(c)] for c in cases]

    def note(self, ctx, c, n):
        s = model.stats(n, {})
        ctx.stat("mode_" + c["mode"])
        ctx.stat("maps", s.get("map", 0))
        ctx.stat("structs", s.get("struct", 0))
        if s.get("map") and s.get("struct"):
            ctx.seen(json.dumps([c["mode"], c["n"], c["input"]]))
            if ctx.rng.random() < 0.002:
                ctx.sample({"mode": c["mode"], "threshold": c["n"], "input": c["input"][:300], "structure": model.show(n)[:300]})

    def verdict(self, ctx, c, doc, m, root):
        n = model.infer(doc, threshold=c["n"])
        r = lang.mismatch(n, m, root)
        if r:
            return "threshold %d: %s\nstructure %s" % (c["n"], r, model.show(n)[:600])
        self.note(ctx, c, n)
        return None

    def finish(self, m):
        miss = [x for x in self.modes if not m["stats"].get("mode_" + x)]
        if miss or not m["distinct"]:
            raise Inconclusive("modes not observed: %r" % miss)


# ------------------------------------------------------------------ C24
RUST_EXT = {"HashMap": "std::collections::HashMap", "Value": "serde_json::Value", "Serialize": "serde_derive::Serialize",
            "Deserialize": "serde_derive::Deserialize"}


def norm_rust(m):
    def ty(t):
        if t[0] == "tuple":
            return ("tuple",) + tuple(ty(x) for x in t[1])
        n = t[1].rsplit("::", 1)[-1] if t[1].lstrip(":") in lang.RUST_KNOWN else t[1]
        return (n,) + tuple(ty(x) for x in t[2])
    out = []
    for n in m.order:
        a = m.attrs[n]
        if n in m.aliases:
            out.append((n, ty(m.aliases[n]), a["vis"]))
        else:
            out.append((n, [(f.key, f.ident, f.default, ty(f.type)) for f in m.structs[n]], a["vis"], a["fieldvis"],
                        [d.rsplit("::", 1)[-1] for d in a["derives"]], sorted(a["serde"].items()),
                        [(x, ty(t)) for x, t in a["flatten"]]))
    return out


def norm_kotlin(m):
    def ty(t):
        if t[0] == "q":
            return ("?", ty(t[1]))
        return (t[1],) + tuple(ty(x) for x in t[2])
    out = []
    for n in m.order:
        if n in m.aliases:
            out.append((n, ty(m.aliases[n])))
        else:
            a = m.attrs[n]
            out.append((n, [(f.key, f.ident, ty(f.type)) for f in m.structs[n]], a["strategy"], a["serializable"], a["any"]))
    return out


def norm_python(m):
    import ast

    def ty(t):
        return re.sub(r"\b(typing|pydantic)\.", "", ast.unparse(t))
    out = []
    for n in m.order:
        if n in m.aliases:
            out.append((n, ty(m.aliases[n])))
        else:
            out.append((n, [(f.key, f.ident, ty(f.type)) for f in m.structs[n]]))
    return out


class C24(Driven):
    id = "C24"
    technique = "monitor over the names used, imported and declared under the three import styles, compared pairwise"
    level_note = "exploration; trusts the readers of Rust, Kotlin and Python. Compilation under add_imports and qualified_paths is part of C10, C23 and C32"
    rule = ("samples (with map hints, naming formats, collect_additional, derives) in 4 modes, each in 3 import styles; non-trivial: "
            "distinct cases in which at least one external name is used")
    modes = ("rust", "kotlin/jackson", "kotlin/kotlinx", "python")

    def cases(self, ctx):
        rng = ctx.rng
        for _ in range(ctx.count(120000, 2500000)):
            doc = lang_doc(rng, 120)
            mode = rng.choice(self.modes)
            parts = []
            if rng.random() < 0.3:
                # object positions, not hidden behind a wildcard (keys named "-")
                objs = [p for p in paths(doc) if p and isinstance(_at(doc, p), dict) and "-" not in p]
                if objs:
                    parts.append('%s: {use_type: "map"}' % rust_str("".join("/" + t for t in rng.choice(objs))))
            if rng.random() < 0.3:
                parts.append('property_name_format: "%s"' % rng.choice(FORMATS))
            if mode in ("rust", "kotlin/jackson") and rng.random() < 0.3:
                parts.append("collect_additional")
            if mode == "rust" and rng.random() < 0.4:
                parts.append("derives: %s" % rust_str(rng.choice(
                    ["Default, Debug", "Clone, serde_derive::Serialize, serde_derive::Deserialize", "foo::bar::Baz",
                     "Debug,  a::b::C ,Clone", "serde::Serialize, serde::Deserialize"])))
            yield {"input": gen.dump(doc), "mode": mode, "parts": parts}

    def judge(self, ctx, cases):
        return [self.one(ctx, c) for c in cases]

    def one(self, ctx, c):
        mods, codes = {}, {}
        for st in STYLES:
            opts = "{" + ", ".join(c["parts"] + ['output_mode: "%s"' % c["mode"], 'import_style: "%s"' % st]) + "}"
            r = self.s.codegen(c["input"], options=opts)
            if "ok" not in r:
                return "no code: %r\n%s" % (r, json.dumps(c)[:800])
            codes[st] = r["ok"]
            try:
                mods[st] = read_text_mode(c["mode"], r["ok"], assume=True)
            except lang.Malformed as e:
                return "the generated code can not be read: %s\n%s\n%s" % (e, json.dumps(c)[:600], r["ok"][:900])
        fail = self.styles(ctx, c, mods)
        if fail:
            return "%s\n%s\n%s" % (fail, json.dumps(c)[:800], "\n----\n".join(x[:700] for x in codes.values()))
        return None

    def styles(self, ctx, c, mods):
        norm = {"rust": norm_rust, "python": norm_python}.get(c["mode"], norm_kotlin)
        a, b, q = (norm(mods[s]) for s in STYLES)
        if a != b or a != q:
            for x, y, z in zip(a, b, q):
                if not x == y == z:
                    return "declarations differ between import styles:\n%s\n%s\n%s" % (x, y, z)
            return "declarations differ between import styles"
        add, assume, qual = (mods[s] for s in STYLES)
        used = {}
        for s in STYLES:
            used[s] = self.externals(c["mode"], mods[s])
        if assume.imports or getattr(assume, "modules", None):
            return "assume_existing emits imports: %r" % assume.imports
        if qual.imports:
            return "qualified_paths emits imports: %r" % qual.imports
        sep = "::" if c["mode"] == "rust" else "."
        short = [n for n in used["qualified_paths"] if sep not in n]
        if short:
            return "qualified_paths uses unqualified names: %r" % short
        if c["mode"] == "python":
            want = {n.split(".")[0] for n in used["qualified_paths"]}
            if sorted(qual.modules) != sorted(want):
                return "modules imported %r, used %r" % (qual.modules, sorted(want))
        qset = {n[2:] if n.startswith("::") else n for n in used["qualified_paths"]}
        if len(set(add.imports)) != len(add.imports):
            return "imported twice: %r" % add.imports
        if set(add.imports) != qset:
            return "add_imports imports %r, but %r is used" % (sorted(add.imports), sorted(qset))
        for s in ("add_imports", "assume_existing"):
            if {n.rsplit(sep, 1)[-1] for n in qset} != set(used[s]):
                return "%s uses %r, expected the last parts of %r" % (s, sorted(used[s]), sorted(qset))
        ctx.stat("mode_" + c["mode"])
        ctx.stat("external_names", len(qset))
        for n in qset:
            ctx.stat("name_" + n)
        if qset:
            ctx.seen(json.dumps(c, sort_keys=True))
            if ctx.rng.random() < 0.001:
                ctx.sample({"case": c, "external": sorted(qset)})
        return None

    def externals(self, mode, m):
        """External names as written."""
        if mode == "rust":
            out = set()
            for n in m.used:
                if n not in m.order and n not in lang.RUST_PRIMS and n not in ("Option", "Vec", "String"):
                    out.add(n)
            for n in m.order:
                for d in m.attrs[n].get("derives", []):
                    if d and d not in ("Default", "Debug", "Clone", "PartialEq"):
                        out.add(d)
                for _, t in m.attrs[n].get("flatten", []):
                    for x in _names(t):
                        if x not in ("String",):
                            out.add(x)
            # derives given without a path are not external
            return {n for n in out}
        if mode == "python":
            return {n for n in m.used if n not in m.order and n not in PY_TYPES}
        return {n for n in m.external}


def _names(t):
    yield t[1]
    for x in t[2]:
        yield from _names(x)


def _at(doc, p):
    for t in p:
        doc = doc[int(t)] if isinstance(doc, list) else doc[t.replace("~1", "/").replace("~0", "~")]
    return doc


# ------------------------------------------------------------------ C23
EXTRA = "vf extra"
EXTRA_VALUE = {"x": [gen.Num(1), "y", None, True], "z": {}}
ASSUME = "use serde_json::Value;\nuse std::collections::HashMap;\nuse serde_derive::{Serialize, Deserialize};\n"
DERIVES = ["Default, Debug, Clone, PartialEq, serde_derive::Serialize, serde_derive::Deserialize",
           "serde_derive::Serialize, serde_derive::Deserialize, Default",
           "Debug,serde::Deserialize,serde::Serialize,Default", "Default,  serde::Serialize , serde_derive::Deserialize, Clone"]


def struct_sites(v, n, path=()):
    """Every object of the sample that is declared as a struct: (path, its structure)"""
    if n[0] == "nullable":
        if v is None:
            return
        n = n[1]
    if n[0] == "struct":
        yield path, n[1]
        for k, x in v.items():
            yield from struct_sites(x, n[1][k][1], path + (k,))
    elif n[0] == "list":
        for i, x in enumerate(v):
            yield from struct_sites(x, n[1], path + (i,))
    elif n[0] == "tuple":
        for i, x in enumerate(v):
            yield from struct_sites(x, n[1][i], path + (i,))
    elif n[0] == "map":
        for k, x in v.items():
            yield from struct_sites(x, n[1], path + (k,))


def default_like(v):
    """What a default value can look like when serialized."""
    if v is None or v is False or v == "" or v == []:
        return True
    if isinstance(v, gen.Num):
        return float(v.text) == 0
    if isinstance(v, (list, dict)):
        return all(default_like(x) for x in (v.values() if isinstance(v, dict) else v))
    return False


def rt_defaults(a, b, path=""):
    """Round trip equality where absent fields may have come back with a default value."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a:
                if not default_like(b[k]):
                    return "%s/%s: absent became %.80r" % (path, k, b[k])
            elif k not in b:
                if a[k] not in (None, []):
                    return "%s/%s: %.80r became absent" % (path, k, a[k])
            else:
                r = rt_defaults(a[k], b[k], path + "/" + k)
                if r:
                    return r
        return None
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            r = rt_defaults(x, y, path + "/%d" % i)
            if r:
                return r
        return None
    return rustc.rt_equal(a, b, path)


class C23(Driven):
    id = "C23"
    technique = ("real rustc + serde as monitors of the options' documented effects: accepted and rejected inputs, surviving keys, "
                 "defaults; attributes and visibilities read from the code")
    level_note = "exploration; trusts rustc, serde and the Rust reader. use_default_for_missing_fields is not claimed for other languages"
    rule = ("samples x subsets of the Rust options; every compiled program gets the sample and variants with extra and missing keys; "
            "non-trivial: distinct (sample, options) with at least one struct")
    batch = 40
    quick_cap = 400

    def setup(self):
        super().setup()
        self.rc = rustc.Rustc()

    def cases(self, ctx):
        rng = ctx.rng
        for _ in range(ctx.count(4800, 150000)):
            if rng.random() < 0.8:
                doc = lang_doc(rng, 80, hostile=rng.choice([0, 0.2, 0.6]))
            else:
                doc = lang_doc(rng, 80, hostile=1.0)
            if any("additional_fields" in p or EXTRA in p for p in paths(doc)) and rng.random() < 0.5:
                continue
            o = {}
            if rng.random() < 0.45:
                o["deny_unknown_fields"] = True
            elif rng.random() < 0.6:
                o["collect_additional"] = True
            if rng.random() < 0.4:
                o["use_default_for_missing_fields"] = True
            if rng.random() < 0.3:
                o["allow_option_vec"] = True
            if rng.random() < 0.4:
                o["derives"] = rng.choice(DERIVES)
            if rng.random() < 0.4:
                o["field_visibility"] = rng.choice(["pub", "pub(crate)", "", "pub(super)", "pub(in crate)"])
            if rng.random() < 0.35:
                o["property_name_format"] = rng.choice(FORMATS)
            style = rng.choice(["add_imports", "add_imports", "qualified_paths", "assume_existing"])
            if style != "add_imports":
                o["import_style"] = style
            hint = None
            if rng.random() < 0.25:
                objs = [p for p in paths(doc) if p and isinstance(_at(doc, p), dict) and "-" not in p]
                if objs:
                    hint = "".join("/" + t for t in rng.choice(objs))
            yield {"input": gen.dump(doc), "o": o, "hint": hint, "vis": rng.choice(["", "", "", "pub ", "pub(crate) ", "pub(super) "])}

    def judge(self, ctx, cases):
        out = [None] * len(cases)
        mods, inputs, st, want = [], [], {}, {}
        for i, c in enumerate(cases):
            doc = parse_json(c["input"])
            o = c["o"]
            parts = ["%s: %s" % (k, "true" if v is True else rust_str(v)) for k, v in o.items()]
            hints = []
            if c["hint"]:
                parts.append('%s: {use_type: "map"}' % rust_str(c["hint"]))
                hints = [(tuple(c["hint"].split("/")[1:]), "map")]
            try:
                n = model.infer(doc, hints)
            except (model.HintError, model.Ambiguous):
                continue
            r = self.s.codegen(c["input"], name=c["vis"] + "Root", options="{" + ", ".join(parts) + "}")
            if "ok" not in r:
                out[i] = "no code: %r\n%s" % (r, json.dumps(c)[:1000])
                continue
            good = complete(doc, n)
            st[i] = (doc, n, good, r["ok"])
            out[i] = self.static(ctx, c, n, r["ok"])
            if out[i]:
                continue
            style = o.get("import_style", "add_imports")
            code = (ASSUME if style == "assume_existing" else "") + r["ok"]
            if "serde::" in o.get("derives", "") and style == "assume_existing":
                code = code.replace("use serde_derive::{Serialize, Deserialize};", "use serde::{Serialize, Deserialize};")
            mods.append((i, code, "Root"))
            tests = want[i] = []

            def test(text_doc, kind, arg=None):
                inputs.append((i, gen.dump(text_doc)))
                tests.append((kind, text_doc, arg))
            test(good, "same")
            sites = list(struct_sites(good, n))
            for path, fs in ctx.rng.sample(sites, min(4, len(sites))):
                bad = edit(good, path, lambda v: dict(v, **{EXTRA: EXTRA_VALUE}))
                test(bad, "deny" if o.get("deny_unknown_fields") else "collect" if o.get("collect_additional") else "ignore", good)
            drops = []
            for path, fs in sites:
                obj = good
                for t in path:
                    obj = obj[t]
                for k in obj:
                    opt, t = fs[k]
                    if o.get("use_default_for_missing_fields"):
                        drops.append((path, k))
                    elif opt:
                        drops.append((path, k))
            for path, k in ctx.rng.sample(drops, min(3, len(drops))):
                test(edit(good, path, lambda v: {x: y for x, y in v.items() if x != k}), "missing")
        if not mods:
            return out
        failed, results = self.rc.run(mods, inputs)
        for i, errs in failed.items():
            out[i] = "does not compile: %s\n%s\n%s" % (errs[:3], json.dumps(cases[i])[:900], st[i][3][:1500])
        pos = {}
        for i, text, res in results:
            k = pos.get(i, 0)
            pos[i] = k + 1
            kind, d, arg = want[i][k]
            eq = rt_defaults if cases[i]["o"].get("use_default_for_missing_fields") else rustc.rt_equal
            what = None
            if kind == "deny":
                if res[0] != "E" or "unknown field" not in res:
                    what = "an unknown key was not rejected: %s" % res[:300]
            elif res[0] != "S":
                what = "%s: %s" % ({"same": "the sample does not round-trip", "missing": "a missing field is not filled in",
                                    "ignore": "an extra key is not ignored", "collect": "an extra key is not collected"}[kind], res[2:300])
            else:
                got = parse_json(res[2:])
                what = eq(arg if kind == "ignore" else d, got)
                what = what and "%s: %s" % (kind, what)
            ctx.stat("input_" + kind)
            if what and out[i] is None:
                out[i] = "%s\ninput %s\n%s\n%s" % (what, text[:500], json.dumps(cases[i])[:900], st[i][3][:1500])
        for i in st:
            if out[i] is None:
                c = cases[i]
                for k in c["o"]:
                    ctx.stat("option_" + k)
                if "struct " in st[i][3]:
                    ctx.seen(json.dumps(c, sort_keys=True))
                if ctx.rng.random() < 0.003:
                    ctx.sample({"case": c})
        return out

    def static(self, ctx, c, n, code):
        o = c["o"]
        head = "\n%s\n%s" % (json.dumps(c)[:900], code[:1500])
        try:
            m = lang.RustModule.parse(code)
            m.assume = o.get("import_style") == "assume_existing"
            cmp = lang.Compare(m, allow_option_vec=o.get("allow_option_vec", False),
                               default_missing=o.get("use_default_for_missing_fields", False))
            root = m.root("Root")
            vec = self.option_vec(n, m, root, o)
            if vec:
                return vec + head
            try:
                cmp.run(n, root)
            except lang.Mismatch as e:
                return "the declared types do not fit the options: %s%s" % (e, head)
        except lang.Malformed as e:
            return "unreadable: %s%s" % (e, head)
        vis = c["vis"].strip() or "pub"
        for name in m.order:
            a = m.attrs[name]
            if a["vis"] != vis:
                return "%s has the visibility %r, expected %r%s" % (name, a["vis"], vis, head)
            if name in m.aliases:
                continue
            d = [x.strip().rsplit("::", 1)[-1] for x in (o.get("derives") or DERIVES[0]).split(",")]
            if [x.rsplit("::", 1)[-1] for x in a["derives"]] != d:
                return "%s derives %r, expected %r%s" % (name, a["derives"], d, head)
            for fv in a["fieldvis"]:
                if "field_visibility" in o:
                    ok = fv.replace(" ", "") == o["field_visibility"].replace(" ", "")
                else:
                    ok = fv in ("pub", vis)
                if not ok:
                    return "a field of %s has the visibility %r%s" % (name, fv, head)
            for attr, opt in (("deny_unknown_fields", "deny_unknown_fields"), ("default", "use_default_for_missing_fields")):
                if bool(a["serde"].get(attr)) != bool(o.get(opt)):
                    return "%s: serde(%s) is %s%s" % (name, attr, a["serde"].get(attr), head)
            if bool(a["flatten"]) != bool(o.get("collect_additional")):
                return "%s: additional fields %r%s" % (name, a["flatten"], head)
        return None

    def option_vec(self, n, m, t, o, path=""):
        """Optional lists are plain lists with a default, unless allow_option_vec (or a default for everything)."""
        cmp = lang.Compare(m)
        layers, t, v = cmp.strip(t)
        if n[0] == "nullable":
            n = n[1]
        if n[0] in ("list", "map") and v[0] == n[0]:
            return self.option_vec(n[1], m, v[1], o, path + "/[]")
        if n[0] == "tuple" and v[0] == "tuple":
            for a, b in zip(n[1], v[1]):
                r = self.option_vec(a, m, b, o, path + "/()")
                if r:
                    return r
        if n[0] == "struct" and v[0] == "struct":
            for f in v[1]:
                if f.key not in n[1]:
                    continue
                opt, sub = n[1][f.key]
                if opt and sub[0] == "list" and not o.get("use_default_for_missing_fields"):
                    layers, _, _ = cmp.strip(f.type)
                    if bool(layers) != bool(o.get("allow_option_vec")):
                        return "%s/%s: the optional list is declared %s Option" % (path, f.key, "with" if layers else "without")
                r = self.option_vec(sub, m, f.type, o, path + "/" + f.key)
                if r:
                    return r
        return None

    def finish(self, m):
        need = ["input_" + k for k in ("same", "deny", "ignore", "collect", "missing")]
        need += ["option_" + k for k in ("deny_unknown_fields", "collect_additional", "use_default_for_missing_fields", "allow_option_vec",
                                         "derives", "field_visibility", "property_name_format", "import_style")]
        miss = [k for k in need if not m["stats"].get(k)]
        if miss:
            raise Inconclusive("never observed: %r" % miss)
