"""C10-C18 and C24, C25: the generated code of every language, observed by its real tool chain or a reader."""
import json
import keyword
import os
import re

import jsonschema

from .. import build, gen, lang, model, pystub, rustc
from ..core import Check
from ..drv import Server, Inconclusive, crashed, node_server, node_request
from .inference import Driven, FORMATS, STYLES, depth, parse_json, paths, rust_str, MODES

ROOTS = ["Root", "Root", "Root", "Foo", "User", "Item", "Movie2", "ApiResponse", "root", "my_type", "fooBar", "X", "T1"]
LONG_ROOTS = ["R" + "oot" * 43, "LongName" * 40, "A" * 129, "A" * 1000]


def lang_doc(rng, limit=150, avoid=(), scale=300, **kw):
    if rng.random() < 0.003 and scale:
        return gen.scaled(rng, scale)
    while True:
        pf = gen.Profile(rng, avoid=set(avoid) | {"__proto__"}, **kw)
        if rng.random() < 0.05:
            d = gen.small_doc(rng, lambda: gen.cousins(rng, pf), limit)
            if isinstance(d, (dict, list)):
                return d
        d = gen.small_doc(rng, lambda: gen.gen_doc(rng, pf), limit)
        if gen.size(d) > 2 or rng.random() < 0.2:
            return d


def complete(doc, n):
    """The sample with null filled in for missing fields whose values conflict (see known finding
    'conflicting values in a field that is sometimes missing')."""
    if n[0] == "nullable":
        return doc if doc is None else complete(doc, n[1])
    if n[0] == "list":
        return [complete(x, n[1]) for x in doc]
    if n[0] == "tuple":
        return [complete(x, t) for x, t in zip(doc, n[1])]
    if n[0] == "map":
        return {k: complete(x, n[1]) for k, x in doc.items()}
    if n[0] == "struct":
        out = {}
        for k, x in doc.items():
            out[k] = complete(x, n[1][k][1])
        for k, (opt, t) in n[1].items():
            if k not in doc and not opt:
                out[k] = None
        return out
    return doc


def nontrivial(n):
    s = model.stats(n, {})
    return s, len(s) >= 4 and s.get("struct", 0) >= 1


def same_data(a, b):
    if isinstance(a, gen.Num) and isinstance(b, gen.Num):
        x, y = float(a.text), float(b.text)
        return x == y
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(map(same_data, a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same_data(v, b[k]) for k, v in a.items())
    return type(a) is type(b) and a == b


class Lang(Driven):
    """Common: generate code for a batch, hand it to the observer."""
    modes = ()
    limit = 150
    avoid = ()

    def options_for(self, rng, doc):
        return {}

    def cases(self, ctx):
        rng = ctx.rng
        for _ in range(ctx.count(*self.counts)):
            doc = lang_doc(rng, self.limit, self.avoid)
            yield {"input": gen.dump(doc), "name": rng.choice(ROOTS), "mode": rng.choice(self.modes)}

    def generate(self, c, **sets):
        return self.s.codegen(c["input"], name=c["name"], output_mode=c["mode"], **sets)

    def observe(self, ctx, c, doc, n):
        """The inferred structure's constructors, for the evidence."""
        s, ok = nontrivial(n)
        for k in s:
            ctx.stat("with_" + k)
        ctx.stat("mode_" + c["mode"])
        if ok:
            ctx.seen(c["input"])
        if ctx.rng.random() < 0.002:
            ctx.sample({"mode": c["mode"], "input": c["input"][:400]})

    def finish(self, m):
        need = ["with_" + k for k in ("struct", "optional", "nullable", "list", "tuple", "any", "int", "float", "str", "bool", "null")]
        need += ["mode_" + x for x in self.modes]
        miss = [k for k in need if not m["stats"].get(k)]
        if miss:
            raise Inconclusive("never observed: %r" % miss)


def word_docs(words):
    """Every word as a key of scalars, of objects and of lists of objects, in the spellings other conventions give it."""
    words = sorted(set(words))
    docs = []
    for i in range(0, len(words), 12):
        for spell in SPELLINGS:
            w = list(dict.fromkeys(map(spell, words[i:i + 12])))
            docs.append({k: gen.Num(1) for k in w})
            docs.append({k: {"v%d" % j: gen.Num(1)} for j, k in enumerate(w)})
            # optional, so that they may have default values, which later annotations would see
            docs.append([{k: KINDS[j % len(KINDS)] for j, k in enumerate(w)}, {"zz": {"q": "x"}}, {"zz": {"q": "x"}}])
            docs.append({k + "s": [{"v%d" % j: None}, {"w": "x"}] for j, k in enumerate(w)})
    return docs


KINDS = (gen.Num(1), "x", [True], {"a": gen.Num(2)}, gen.Num("1.5"), [gen.Num(1), "y"], None)
SPELLINGS = (
    lambda w: w,
    lambda w: w[:1].upper() + w[1:],
    lambda w: re.sub("_+(.)", lambda m: m.group(1).upper(), w),
    lambda w: re.sub("(?<=[a-z0-9])(?=[A-Z])", "-", w).replace("_", "-").lower(),
    lambda w: re.sub("(?<=[a-z0-9])(?=[A-Z])", "_", w).upper(),
)
PYTHON_WORDS = sorted(set(keyword.kwlist) | set(keyword.softkwlist) | set(pystub.MEMBERS) | {
    "bool", "dict", "float", "int", "list", "str", "tuple", "pydantic", "typing", "Any", "BaseModel", "Field", "Optional"})
# the Rust reference: strict, reserved and weak keywords of every edition; and what the file refers to
RUST_WORDS = """as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref
return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final
macro override priv typeof unsized virtual yield try gen union macro_rules raw safe default auto
Option Vec String HashMap Value Default Debug Clone Serialize Deserialize std serde serde_json""".split()
TS_WORDS = """break case catch class const continue debugger default delete do else enum export extends false finally for function
if import in instanceof new null return super switch this throw true try typeof var void while with implements interface let
package private protected public static yield any boolean never number object string symbol unknown undefined bigint unique
infer is keyof module namespace abstract as asserts async await declare get set readonly require type from global of out
accessor satisfies using override Array Object Record Partial""".split()
# https://kotlinlang.org/docs/keyword-reference.html: hard, soft and modifier keywords; and what the file refers to
KOTLIN_WORDS = """as break class continue do else false for fun if in interface is null object package return super this throw
true try typealias typeof val var when while by catch constructor delegate dynamic field file finally get import init param
property receiver set setparam value where abstract actual annotation companion const crossinline data enum expect external
final infix inline inner internal lateinit noinline open operator out override private protected public reified sealed
suspend tailrec vararg it Any Boolean Double List Long Map Pair String Triple JsonAnyGetter JsonAnySetter JsonNaming
JsonProperty PropertyNamingStrategies SerialName Serializable additionalFields component1 copy equals hashCode""".split()


KF_CONFLICT = '[{"a":1,"b":true},{"a":"x","b":true},{"b":false}]'


class C10(Lang):
    id = "C10"
    technique = "real rustc + serde as runtime monitors of the generated program: compile, deserialize, serialize, compare"
    level_note = ("exploration: every generated program that was run compiled and round-tripped its sample; trusts rustc, serde, "
                  "serde_json and a JSON comparison modulo null/absent/empty list and float spelling")
    rule = ("grammar-generated samples with hostile keys, mixed kinds, missing and null fields; non-trivial: distinct samples whose "
            "structure has at least one struct and four kinds of type constructors")
    modes = ("rust",)
    counts = (5000, 150000)
    batch = 40
    assumptions = ("serde_json without arbitrary_precision is the JSON library",)

    def setup(self):
        super().setup()
        self.rc = rustc.Rustc()

    def cases(self, ctx):
        if ctx.shard == 0:
            yield {"input": KF_CONFLICT, "name": "Root", "mode": "rust", "kf": "C10-conflicting-and-missing"}
        # names the Rust language or the generated code itself uses, as keys of objects and of values
        words = sorted(set(gen.KEYWORDS + gen.TYPENAMES + gen.SYNTAX + gen.COLLIDE))
        fixed = []
        for i in range(0, len(words), 12):
            w = words[i:i + 12]
            fixed.append({k: [{"v%d" % j: None}, {"w": "x"}] for j, k in enumerate(w)})
        fixed += word_docs(words + RUST_WORDS)
        for d in ctx.mine(fixed):
            yield {"input": gen.dump(d), "name": "Root", "mode": "rust"}
        yield from super().cases(ctx)

    def judge(self, ctx, cases):
        out = [None] * len(cases)
        mods, inputs, docs = [], [], {}
        for i, c in enumerate(cases):
            doc = parse_json(c["input"])
            r = self.generate(c)
            if "ok" not in r:
                out[i] = "no code for a valid sample: %r\n%s" % (r, c["input"][:1000])
                continue
            n = model.infer(doc)
            want = doc if c.get("kf") else complete(doc, n)
            docs[i] = (doc, n, want, r["ok"])
            mods.append((i, r["ok"], c["name"]))
            inputs.append((i, gen.dump(want)))
        failed, results = self.rc.run(mods, inputs)
        for i, errs in failed.items():
            out[i] = "generated Rust does not compile: %s\nsample %s\n%s" % (errs[:3], cases[i]["input"][:600], docs[i][3][:1500])
        for i, text, res in results:
            doc, n, want, code = docs[i]
            c = cases[i]
            if res[0] != "S":
                what = "the sample does not deserialize: %s" % res[2:]
            else:
                d = rustc.rt_equal(want, parse_json(res[2:]))
                what = d and "round trip changed the sample: " + d
            if c.get("kf"):
                if what:
                    ctx.known_finding(c["kf"], what)
                continue
            if what:
                out[i] = "%s\nsample %s\n%s" % (what, text[:800], code[:1500])
            else:
                self.observe(ctx, c, doc, n)
                ctx.stat("structs_compiled", code.count("struct "))
        return out


OBJECT_MEMBERS = ("constructor", "toString", "toLocaleString", "valueOf", "hasOwnProperty", "isPrototypeOf", "propertyIsEnumerable")


class TsZod(Lang):
    def open(self, ctx):
        super().open(ctx)
        self.node = node_server()

    def close(self, ctx):
        super().close(ctx)
        self.node.close()


def zod_name(name):
    return name[:1].lower() + name[1:] + "Schema"


class C11(TsZod):
    id = "C11"
    technique = "the real TypeScript compiler (strict) as monitor: generated code plus the sample as an assignment"
    level_note = ("exploration: on every sample run, tsc --strict accepted the code and the literal sample (with excess property "
                  "checks); trusts the TypeScript compiler")
    rule = C10.rule
    modes = ("typescript", "typescript/typealias")
    counts = (48000, 1000000)
    batch = 60
    avoid = OBJECT_MEMBERS      # every object has these in TypeScript's eyes, so they can not be optional
    assumptions = ("no key is a member of Object.prototype: TypeScript has no way to type such an optional property",)

    def cases(self, ctx):
        if ctx.shard == 0:
            for m in self.modes:
                yield {"input": KF_CONFLICT, "name": "Root", "mode": m, "kf": "C11-conflicting-and-missing"}
        words = set(gen.KEYWORDS + gen.TYPENAMES + gen.SYNTAX + gen.COLLIDE + TS_WORDS) - set(OBJECT_MEMBERS)
        fixed = [(d, m) for d in word_docs(words) for m in self.modes]
        for d, m in ctx.mine(fixed):
            yield {"input": gen.dump(d), "name": "Root", "mode": m}
        yield from super().cases(ctx)

    def judge(self, ctx, cases):
        out = [None] * len(cases)
        files, docs = [], {}
        for i, c in enumerate(cases):
            doc = parse_json(c["input"])
            r = self.generate(c)
            if "ok" not in r:
                out[i] = "no code for a valid sample: %r\n%s" % (r, c["input"][:1000])
                continue
            n = model.infer(doc)
            want = doc if c.get("kf") else complete(doc, n)
            docs[i] = (doc, n, r["ok"])
            files.append({"id": i, "code": r["ok"], "name": c["name"], "sample": gen.dump(want)})
        for o in node_request(self.node, {"op": "ts", "files": files}):
            i = o["id"]
            c = cases[i]
            doc, n, code = docs[i]
            what = None
            if o["code"]:
                what = "tsc rejects the generated code: %s" % o["code"][:3]
            elif o["sample"] and o["sample"][0].startswith("TS2321") and depth(c["input"]) > 40:
                ctx.stat("too_deep_for_tsc")        # "Excessive stack depth": a limit of the compiler
            elif o["sample"]:
                what = "the sample is not assignable to the root type: %s" % o["sample"][:3]
            if c.get("kf"):
                if what:
                    ctx.known_finding(c["kf"], what)
                continue
            if what:
                out[i] = "%s\nsample %s\n%s" % (what, c["input"][:800], code[:1500])
            else:
                self.observe(ctx, c, doc, n)
        return out


def closed_kotlin(m):
    """Every name used is declared, imported or built in, and nothing used is shadowed."""
    for n, arity in m.used:
        if n in m.order:
            if arity:
                return "type arguments for %s" % n
            continue
        if lang.KT_BUILTIN.get(n) == arity:
            continue
        return "the type %s (with %d arguments) is neither declared, imported nor built in" % (n, arity)
    for n in m.external:
        full = n if "." in n else m.short.get(n)
        if full not in m.KNOWN:
            return "%s is neither imported nor fully qualified" % n
        if n in m.order:
            return "the import %s is shadowed by a declaration" % n
    return None


class C12(Lang):
    id = "C12"
    technique = "monitor with a Kotlin lexer/parser, scope checker and conformance checker over the generated file"
    level_note = ("exploration; no Kotlin compiler is available, so well-formedness is judged by a parser of the subset used "
                  "(identifiers, hard keywords, literals, annotations, data classes, type aliases) written from the Kotlin grammar")
    rule = C10.rule
    modes = ("kotlin/jackson", "kotlin/kotlinx")
    counts = (200000, 4000000)
    assumptions = ("the parser of the Kotlin subset follows the language's grammar",)

    def cases(self, ctx):
        rng = ctx.rng
        for d in ctx.mine(word_docs(KOTLIN_WORDS)):
            for m in self.modes:
                for sets in ({}, {"collect_additional": True, "property_name_format": "snake_case"}):
                    ctx.stat("words")
                    yield {"input": gen.dump(d), "name": "Root", "mode": m, "sets": sets}
        for c in super().cases(ctx):
            if rng.random() < 0.5:
                o = c["sets"] = {}
                if rng.random() < 0.6:
                    o["collect_additional"] = True
                if rng.random() < 0.6:
                    o["property_name_format"] = rng.choice(FORMATS)
                if rng.random() < 0.5:
                    o["import_style"] = rng.choice(["add_imports", "qualified_paths"])
            yield c

    def finish(self, m):
        need = ["words", "collect_additional True", "import_style qualified_paths"] + ["property_name_format " + f for f in FORMATS if f]
        miss = [k for k in need if not m["stats"].get(k)]
        if miss:
            raise Inconclusive("never observed: %r" % miss)
        return super().finish(m)

    def judge(self, ctx, cases):
        out = []
        for c in cases:
            doc = parse_json(c["input"])
            r = self.generate(c, **c.get("sets", {}))
            if "ok" not in r:
                out.append("no code for a valid sample: %r\n%s" % (r, c["input"][:1000]))
                continue
            n = model.infer(doc)
            what = None
            sets = c.get("sets", {})
            try:
                m = lang.KotlinModule.parse(r["ok"])
                what = closed_kotlin(m)
                if not what:
                    d = lang.nonconforming(complete(doc, n), m, m.root(c["name"]))
                    what = d and "the sample does not conform to the declared types: " + d
                if not what and c["mode"] == "kotlin/kotlinx":
                    bad = [k for k in m.structs if not m.attrs[k]["serializable"]]
                    what = bad and "classes that are not @Serializable: %r" % bad
                want = {"kotlin/jackson": "JsonProperty", "kotlin/kotlinx": "SerialName"}[c["mode"]]
                if not what:
                    bad = [k for k in m.structs if m.attrs[k].get("keyed", {want}) != {want}]
                    what = bad and "classes with the other library's annotations: %r" % bad
                if not what:
                    # kotlinx.serialization has no such thing
                    more = sets.get("collect_additional", False) and c["mode"] == "kotlin/jackson"
                    bad = [k for k in m.structs if (m.attrs[k]["any"] or (None, more, more))[1:] != (more, more)
                           or (m.attrs[k]["any"] is not None) != more]
                    what = bad and "classes that do not collect additional fields as the options say: %r" % bad
                for k, v in sets.items():
                    ctx.stat("%s %s" % (k, v))
            except lang.Malformed as e:
                what = "malformed Kotlin: %s" % e
            if what:
                out.append("%s\nsample %s\n%s" % (what, c["input"][:800], r["ok"][:1500]))
                continue
            ctx.stat("classes", len(m.structs))
            self.observe(ctx, c, doc, n)
            out.append(None)
        return out


PRELUDE = "from typing import Any, Optional\nfrom pydantic import BaseModel, Field\n"


class C13(Lang):
    id = "C13"
    technique = "runtime monitor: the module is executed by CPython with a pydantic stand-in, the evaluated annotations are checked"
    level_note = ("exploration; the real pydantic is not installed, its BaseModel/Field are a stand-in with the same name checks; "
                  "conformance is decided on the annotation objects CPython evaluated")
    rule = C10.rule
    modes = ("python",)
    counts = (160000, 3000000)
    assumptions = ("the pydantic stand-in rejects what pydantic rejects (shadowed members, leading underscores)",)

    def cases(self, ctx):
        for d in ctx.mine(word_docs(PYTHON_WORDS)):
            for sets in ({}, {"import_style": "qualified_paths"}, {"import_style": "assume_existing"}):
                ctx.stat("words")
                yield {"input": gen.dump(d), "name": "Root", "mode": "python", "sets": sets}
        yield from super().cases(ctx)

    def finish(self, m):
        if not m["stats"].get("words"):
            raise Inconclusive("the reserved words were not tried")
        return super().finish(m)

    def judge(self, ctx, cases):
        out = []
        for c in cases:
            doc = parse_json(c["input"])
            sets = c.get("sets", {})
            r = self.generate(c, **sets)
            if "ok" not in r:
                out.append("no code for a valid sample: %r\n%s" % (r, c["input"][:1000]))
                continue
            n = model.infer(doc)
            what = None
            try:
                lang.PythonModule.parse(r["ok"])     # duplicates, statements
                try:
                    ns = pystub.run(r["ok"], PRELUDE if sets.get("import_style") == "assume_existing" else "")
                except Exception as e:
                    raise lang.Malformed("executing the module: %s: %s" % (type(e).__name__, e))
                m = pystub.RuntimeModule(ns)
                d = lang.nonconforming(complete(doc, n), m, m.root(c["name"]))
                what = d and "the sample does not conform to the declared models: " + d
            except lang.Malformed as e:
                what = str(e)
            if what:
                out.append("%s\nsample %s\n%s" % (what, c["input"][:800], r["ok"][:1500]))
                continue
            ctx.stat("classes", r["ok"].count("class "))
            self.observe(ctx, c, doc, n)
            out.append(None)
        return out


def corruptions(rng, doc, n, want=4):
    """Samples broken in one place: [(text, what)]"""
    spots = []

    def walk(v, t, path):
        base = t
        null = False
        if base[0] == "nullable":
            null = True
            if v is None:
                # null was seen here, so only other kinds can be wrong; handled at non-null places
                return
            base = base[1]
        k = base[0]
        if k in ("any", "null", "bottom", "opaque"):
            return
        spots.append(("kind", path, k, null))
        if k == "list":
            for i, x in enumerate(v):
                walk(x, base[1], path + (i,))
        elif k == "tuple":
            for i, x in enumerate(v):
                walk(x, base[1][i], path + (i,))
        elif k == "map":
            for key, x in v.items():
                walk(x, base[1], path + (key,))
        elif k == "struct":
            for key, x in v.items():
                opt, sub = base[1][key]
                if not opt and sub[0] not in ("any", "null", "bottom"):
                    spots.append(("drop", path, key, None))
                walk(x, sub, path + (key,))

    walk(doc, n, ())
    out = []
    for kind, path, k, null in rng.sample(spots, min(want, len(spots))):
        if kind == "drop":
            out.append((edit(doc, path, lambda v: {x: y for x, y in v.items() if x != k}), "without %r at /%s" % (k, "/".join(map(str, path)))))
            continue
        repl = {"str": "x", "num": gen.Num("1.5"), "bool": True, "null": None, "arr": [], "obj": {}}
        own = {"str": "str", "int": "num", "float": "num", "bool": "bool", "list": "arr", "tuple": "arr", "map": "obj", "struct": "obj"}[k]
        choices = [x for x in repl if x != own and not (x == "null" and null)]
        x = rng.choice(choices)
        out.append((edit(doc, path, lambda v: repl[x]), "%s instead of %s at /%s" % (x, k, "/".join(map(str, path)))))
    return out


def edit(doc, path, f):
    if not path:
        return f(doc)
    if isinstance(doc, list):
        d = list(doc)
    else:
        d = dict(doc)
    d[path[0]] = edit(doc[path[0]], path[1:], f)
    return d


class C14(Lang):
    id = "C14"
    technique = "an independent draft-07 validator as monitor: meta-schema, sample, and samples corrupted in one place"
    level_note = "exploration; trusts the jsonschema package's Draft7Validator"
    rule = C10.rule + "; each sample comes with up to 4 corrupted variants that must be rejected"
    modes = ("json_schema",)
    counts = (80000, 1600000)

    def cases(self, ctx):
        if ctx.shard == 0:
            yield {"input": KF_CONFLICT, "name": "Root", "mode": "json_schema", "kf": "C14-conflicting-and-missing"}
        yield from super().cases(ctx)

    def judge(self, ctx, cases):
        out = []
        for c in cases:
            out.append(self.one(ctx, c))
        return out

    def one(self, ctx, c):
        doc = parse_json(c["input"])
        r = self.generate(c)
        if "ok" not in r:
            return "no code for a valid sample: %r\n%s" % (r, c["input"][:1000])
        n = model.infer(doc)
        head = "\nsample %s\n%s" % (c["input"][:800], r["ok"][:1500])
        try:
            schema = lang.SchemaModule.parse(r["ok"]).doc
        except lang.Malformed as e:
            return str(e) + head
        try:
            jsonschema.Draft7Validator.check_schema(schema)
        except jsonschema.SchemaError as e:
            return "not a valid draft-07 schema: %s%s" % (e.message, head)
        if schema.get("$schema", "").rstrip("#") != "http://json-schema.org/draft-07/schema":
            return "the schema does not say that it is draft-07" + head
        v = jsonschema.Draft7Validator(schema)
        good = doc if c.get("kf") else complete(doc, n)
        err = next(v.iter_errors(gen.plain(good)), None)
        if c.get("kf"):
            if err:
                ctx.known_finding(c["kf"], err.message)
            return None
        if err:
            return "the sample does not validate: %s at %s%s" % (err.message[:300], list(err.path), head)
        for bad, what in corruptions(ctx.rng, good, n):
            ctx.stat("corrupted_samples")
            if v.is_valid(gen.plain(bad)):
                return "a corrupted sample (%s) validates%s" % (what, head)
        self.observe(ctx, c, doc, n)
        return None


class C15(TsZod):
    id = "C15"
    technique = "the real zod as monitor: the schema is run, parses the sample and must reject corrupted samples"
    level_note = ("exploration; trusts zod 4 and node. Zod 4 treats a missing z.unknown() key as an error, zod 3 does not; the known "
                  "finding depends on that")
    rule = C14.rule
    modes = ("zod",)
    counts = (80000, 1600000)
    batch = 60
    avoid = OBJECT_MEMBERS      # zod sees the inherited member when an optional key is absent
    assumptions = ("no key is a member of Object.prototype: zod takes the inherited member for the value of an absent key",)

    def cases(self, ctx):
        if ctx.shard == 0:
            yield {"input": KF_CONFLICT, "name": "Root", "mode": "zod", "kf": "C15-conflicting-and-missing"}
        words = sorted(set(gen.KEYWORDS + gen.TYPENAMES + gen.SYNTAX + gen.COLLIDE) - set(OBJECT_MEMBERS))
        fixed = []
        for i in range(0, len(words), 12):
            fixed.append({k: gen.Num(1) for k in words[i:i + 12]})
        for d in ctx.mine(fixed):
            yield {"input": gen.dump(d), "name": "Root", "mode": "zod"}
        yield from super().cases(ctx)

    def judge(self, ctx, cases):
        out = [None] * len(cases)
        files, docs = [], {}
        for i, c in enumerate(cases):
            doc = parse_json(c["input"])
            r = self.generate(c)
            if "ok" not in r:
                out[i] = "no code for a valid sample: %r\n%s" % (r, c["input"][:1000])
                continue
            n = model.infer(doc)
            want = doc if c.get("kf") else complete(doc, n)
            bad = corruptions(ctx.rng, want, n)
            docs[i] = (doc, n, r["ok"], want, bad)
            files.append({"id": i, "code": r["ok"], "sample": gen.dump(want), "probes": [gen.dump(b) for b, _ in bad]})
        for o in node_request(self.node, {"op": "zod", "files": files}):
            i = o["id"]
            c = cases[i]
            doc, n, code, want, bad = docs[i]
            what = None
            if o.get("error"):
                what = "the generated code does not run: %s" % o["error"]
            elif not o["sample"]["ok"]:
                what = "the sample is rejected: %s" % json.dumps(o["sample"]["why"])[:500]
            elif not same_data(want, parse_json(o["sample"]["data"])):
                what = "parsing the sample lost data: %s" % o["sample"]["data"][:500]
            if c.get("kf"):
                if what:
                    ctx.known_finding(c["kf"], what)
                continue
            if not what:
                for ok, (b, w) in zip(o["probes"], bad):
                    ctx.stat("corrupted_samples")
                    if ok:
                        what = "a corrupted sample (%s) is accepted" % w
            if what:
                out[i] = "%s\nsample %s\n%s" % (what, c["input"][:800], code[:1500])
            else:
                self.observe(ctx, c, doc, n)
        return out


TEXT_MODES = ("rust", "kotlin/jackson", "kotlin/kotlinx", "python", "json_schema")
NODE_MODES = ("typescript", "typescript/typealias", "zod")
OPAQUE = {"rust": ["Opaque", "crate::Foo<Bar>", "chrono::DateTime<Utc>"], "kotlin/jackson": ["Opaque", "foo.bar.Baz<Long>"],
          "kotlin/kotlinx": ["Opaque", "foo.bar.Baz<Long>"], "python": ["Opaque", "foo.Bar"], "json_schema": ["integer", "string"],
          "typescript": ["VfOpaque"], "typescript/typealias": ["VfOpaque"], "zod": ["z.date()"]}
TS_PRELUDE = "interface VfOpaque { vf_opaque: 1 }\n"


def read_text_mode(mode, code, assume=False):
    if mode == "rust":
        m = lang.RustModule.parse(code)
        m.assume = assume
        return m
    if mode.startswith("kotlin"):
        return lang.KotlinModule.parse(code)
    if mode == "python":
        return lang.PythonModule.parse(code)
    return lang.SchemaModule.parse(code)


class Declared(TsZod):
    """Reads back declared types in all modes and hands them to verdict(ctx, c, doc, module, root)."""
    modes = TEXT_MODES + NODE_MODES
    batch = 60

    def judge(self, ctx, cases):
        out = [None] * len(cases)
        tsf, zf, held = [], [], {}
        for i, c in enumerate(cases):
            doc = parse_json(c["input"]) if "input" in c else None
            r = self.produce(c)
            skip = self.expect_error(ctx, c, doc)
            if skip == "open":
                ctx.stat("left_open")
                continue
            if skip:
                if "ok" in r:
                    out[i] = "%s, but code was generated" % skip
                continue
            if "ok" not in r:
                out[i] = "no code for a valid sample: %r\n%s" % (r, json.dumps(c)[:1000])
                continue
            code = r["ok"]
            held[i] = (doc, code)
            if c["mode"].startswith("typescript"):
                tsf.append({"id": i, "code": code + "\n" + TS_PRELUDE, "name": c["name"]})
            elif c["mode"] == "zod":
                zf.append({"id": i, "code": code})
            else:
                try:
                    m = read_text_mode(c["mode"], code)
                    out[i] = self.verdict(ctx, c, doc, m, m.root(c["name"]))
                except lang.Malformed as e:
                    out[i] = "malformed output: %s" % e
        if tsf:
            for o in node_request(self.node, {"op": "ts", "files": tsf}):
                c = cases[o["id"]]
                if o["code"] or "root" not in o:
                    out[o["id"]] = "tsc: %s" % (o["code"][:3] or "root not exported")
                    continue
                m = TsModule(c["mode"], o)
                out[o["id"]] = self.verdict(ctx, c, held[o["id"]][0], m, m.root(c["name"]))
        if zf:
            for o in node_request(self.node, {"op": "zod", "files": zf}):
                c = cases[o["id"]]
                if o.get("error") or "root" not in o:
                    out[o["id"]] = "zod: %s" % o.get("error")
                    continue
                m = lang.DumpModule("zod", o["root"])
                out[o["id"]] = self.verdict(ctx, c, held[o["id"]][0], m, m.root(c["name"]))
        for i, (doc, code) in held.items():
            if out[i]:
                out[i] += "\nmode %s options %s %s\nsample %s\n%s" % (
                    cases[i]["mode"], cases[i].get("options"), cases[i].get("set"), str(cases[i].get("input", cases[i].get("shape")))[:700], code[:1300])
        return out

    def produce(self, c):
        return self.s.codegen(c["input"], name=c["name"], options=c.get("options"), output_mode=c["mode"], **c.get("set", {}))

    def expect_error(self, ctx, c, doc):
        return None


class TsModule(lang.DumpModule):
    def __init__(self, mode, o):
        super().__init__(mode, o["root"], o["types"])
        self.declared = [d for d in o["declared"] if d != "VfOpaque"]
        self.exports = o["exports"]

    def view(self, t):
        v = super().view(t)
        if v[0] == "struct" and [f.key for f in v[1]] == ["vf_opaque"]:
            return ("name", "VfOpaque")
        # a type alias has no declared names inside
        if v[0] == "struct" and self.lang == "typescript/typealias":
            return ("struct", v[1], None)
        return v


class C16(Declared):
    id = "C16"
    technique = "monitor comparing the types read back from the output with a reference model of the inferred structure"
    level_note = ("exploration; the reader of each language (tsc and zod themselves for TypeScript and Zod) and the reference model "
                  "are trusted")
    rule = ("generated samples, sometimes with use_type hints, in all 8 language modes; non-trivial: distinct (sample, mode) whose "
            "structure has a struct and four kinds of constructors")
    counts = (160000, 3000000)

    def cases(self, ctx):
        rng = ctx.rng
        for _ in range(ctx.count(*self.counts)):
            doc = lang_doc(rng, 150)
            mode = rng.choice(self.modes)
            c = {"input": gen.dump(doc), "name": rng.choice(ROOTS), "mode": mode}
            if rng.random() < 0.3:
                ps = [p for p in paths(doc) if p]
                hints = []
                name = rng.choice(OPAQUE[mode])
                for _ in range(rng.choice([1, 1, 2])):
                    if not ps:
                        break
                    p = list(rng.choice(ps))
                    for j in range(len(p)):
                        if rng.random() < 0.3:
                            p[j] = "-"
                    hints.append(["".join("/" + t for t in p), "map" if rng.random() < 0.4 else name])
                if hints:
                    c["hints"] = hints
                    c["options"] = "{" + ", ".join('%s: {use_type: %s}' % (rust_str(p), rust_str(k)) for p, k in hints) + "}"
            yield c

    def infer(self, ctx, c, doc):
        from .inference import hints_at, Ambiguous
        hints = [(tuple(p.split("/")[1:]), k) for p, k in c.get("hints", [])]
        try:
            found = []
            if hints:
                hints_at(doc, hints, (), found)
            return model.infer(doc, hints)
        except (Ambiguous, model.Ambiguous):
            return None

    def expect_error(self, ctx, c, doc):
        try:
            if self.infer(ctx, c, doc) is None:
                return "open"
        except model.HintError:
            ctx.stat("map_hint_on_other_kind")
            return "a map hint selects something that is not an object"
        return None

    def verdict(self, ctx, c, doc, m, root):
        n = self.infer(ctx, c, doc)
        cmp = lang.Compare(m)
        try:
            cmp.run(n, root)
        except (lang.Mismatch, lang.Malformed) as e:
            return "declared types differ from the inferred structure: %s\nstructure %s" % (e, model.show(n)[:600])
        ctx.stat("positions_compared", cmp.visited)
        ctx.stat("shared_types", sum(1 for x in cmp.uses.values() if x > 1))
        s, ok = nontrivial(n)
        for k in s:
            ctx.stat("with_" + k)
        ctx.stat("mode_" + c["mode"])
        if ok:
            ctx.seen(c["mode"] + c["input"])
        if ctx.rng.random() < 0.001:
            ctx.sample({"mode": c["mode"], "input": c["input"][:300], "structure": model.show(n)[:300]})
        return None

    def finish(self, m):
        super().finish(m)
        if not m["stats"].get("shared_types") or not m["stats"].get("with_map") or not m["stats"].get("with_opaque"):
            raise Inconclusive("no shared types, maps or opaque types observed")


def tuples_or_lists(n):
    """Is there an array that is a tuple, or could have been one?"""
    if n[0] in ("list", "tuple"):
        return True
    if n[0] == "struct":
        return any(tuples_or_lists(t) for _, t in n[1].values())
    return n[0] in ("nullable", "map") and tuples_or_lists(n[1])


def given(n):
    """The structure as the driver takes it"""
    if n[0] == "struct":
        return ["struct", [[k, ["optional", given(t)] if o and t[0] not in ("any", "bottom") else given(t)] for k, (o, t) in n[1].items()]]
    if n[0] == "tuple":
        return ["tuple", [given(t) for t in n[1]], n[2] if len(n) > 2 else 1]
    if n[0] in ("list", "map", "nullable"):
        return [n[0], given(n[1])]
    return list(n)


def declared_as(n):
    """Tuples whose places agree are declared as lists"""
    if n[0] == "struct":
        return ("struct", {k: (o and t[0] not in ("any", "bottom"), declared_as(t)) for k, (o, t) in n[1].items()})
    if n[0] == "tuple":
        if not n[1]:
            return ("list", ("bottom",))
        if all(x == n[1][0] for x in n[1]):
            return ("list", declared_as(n[1][0]))
        return ("tuple", tuple(declared_as(t) for t in n[1]))
    if n[0] in ("list", "map", "nullable"):
        return (n[0], declared_as(n[1]))
    return n


def bent(rng, n, mode, depth=0):
    """A structure that no sample has to have: some places exchanged for others"""
    r = rng.random()
    if depth < 7:
        if r < 0.03:
            return ("list", bent(rng, n, mode, depth + 1))
        if r < 0.06:
            return ("map", bent(rng, n, mode, depth + 1))
        if r < 0.10:
            k = rng.choice([2, 2, 3, 4, 12, 13, 16, 20])
            parts = [("int",), ("bool",), bent(rng, n, mode, depth + 1)] + [rng.choice(SCALARS) for _ in range(k)]
            parts = [("nullable", x) if rng.random() < 0.15 and x[0] not in NOT_NULLABLE else x for x in parts[:max(2, k)]]
            if any(x[0] == "opaque" or x[0] == "nullable" and x[1][0] == "opaque" for x in parts):
                return ("map", parts[-1])
            rng.shuffle(parts)
            return ("tuple", tuple(parts), rng.choice([0, 1, 5]))
        if r < 0.13:
            return ("tuple", (bent(rng, n, mode, depth + 1),) * rng.choice([0, 1, 1, 2, 5, 13]), rng.choice([0, 1, 5]))
    if r < 0.16:
        return ("opaque", rng.choice(OPAQUE[mode]))
    if r < 0.20:
        return rng.choice(SCALARS + [("null",), ("any",), ("list", ("bottom",)), ("map", ("bottom",))])
    if r < 0.24 and n[0] not in NOT_NULLABLE:
        return ("nullable", bent_inside(rng, n, mode, depth))
    return bent_inside(rng, n, mode, depth)


SCALARS = [("int",), ("float",), ("str",), ("bool",)]
NOT_NULLABLE = ("null", "any", "bottom", "nullable")


def bent_inside(rng, n, mode, depth):
    if n[0] == "struct":
        return ("struct", {k: (o if rng.random() < 0.8 else not o, bent(rng, t, mode, depth + 1)) for k, (o, t) in n[1].items()})
    if n[0] == "tuple":
        return n
    if n[0] == "nullable":
        inner = bent_inside(rng, n[1], mode, depth + 1)
        return ("nullable", inner) if inner[0] not in NOT_NULLABLE else inner
    if n[0] in ("list", "map"):
        return (n[0], bent(rng, n[1], mode, depth + 1))
    return n


def places(n, out):
    out.append(n)
    if n[0] == "struct":
        for _, t in n[1].values():
            places(t, out)
    elif n[0] == "tuple":
        for t in n[1]:
            places(t, out)
    elif n[0] in ("list", "map", "nullable"):
        places(n[1], out)
    return out


class C09(C16):
    id = "C09"
    technique = ("monitor of code generation from structures given by the caller: differential against the sample's own code, and types read "
                 "back from the output against the structure")
    level_note = ("exploration; the reader of each language (tsc and zod themselves for TypeScript and Zod) and the reference model "
                  "are trusted")
    rule = ("structures of generated samples, and such structures bent into ones that no sample has, in all 8 language modes, under random "
            "settings; non-trivial: distinct (structure, mode) with four kinds of constructors")
    counts = (120000, 2400000)

    def setup(self):
        super().setup()
        self.shapes = build.build_features("driver", "vf_driver", ("from-shape", "option-parsing"))

    def open(self, ctx):
        super().open(ctx)
        self.given = Server(exe=self.shapes)

    def close(self, ctx):
        super().close(ctx)
        self.given.close()

    def cases(self, ctx):
        rng = ctx.rng
        for c in super().cases(ctx):
            doc = parse_json(c["input"])
            if depth(c["input"]) > 40:
                continue        # (too deep for the driver's own JSON)
            if rng.random() < 0.5:
                if rng.random() < 0.6:
                    # (with these only the two outputs are compared)
                    c["set"] = {}
                    if rng.random() < 0.5:
                        c["set"]["property_name_format"] = rng.choice(FORMATS)
                    if rng.random() < 0.5:
                        c["set"]["import_style"] = rng.choice(STYLES)
                    for k in ("deny_unknown_fields", "use_default_for_missing_fields", "collect_additional"):
                        if rng.random() < 0.2:
                            c["set"][k] = True
                    if rng.random() < 0.2:
                        c["set"]["field_visibility"] = "pub(crate)"
                yield c
                continue
            n = model.infer(doc)
            if rng.random() < 0.5:
                n = rng.choice(places(n, []))
            n = bent(rng, n, c["mode"])
            if rng.random() < 0.3:
                n = bent(rng, n, c["mode"])
            if n[0] == "opaque":
                n = ("list", n)
            yield {"shape": n, "name": c["name"], "mode": c["mode"]}

    def produce(self, c):
        req = {"op": "from_shape", "name": c["name"], "set": dict(c.get("set", {}), output_mode=c["mode"])}
        if "shape" in c:
            return self.given.request(dict(req, shape=given(fix(c["shape"]))))
        try:
            n = self.infer(None, c, parse_json(c["input"]))
        except model.HintError:
            n = None
        if n is None:
            return {"err": "open"}
        return self.given.request(dict(req, shape=given(n)))

    def expect_error(self, ctx, c, doc):
        return None if "shape" in c else super().expect_error(ctx, c, doc)

    def judge(self, ctx, cases):
        out = super().judge(ctx, cases)
        for i, c in enumerate(cases):
            if out[i] or "shape" in c:
                continue
            r = self.produce(c)
            if r.get("err") == "open":
                continue
            want = super().produce(c)
            n = self.infer(ctx, c, parse_json(c["input"]))
            if r.get("ok") != want.get("ok"):
                if tuples_or_lists(n):
                    ctx.stat("texts_that_differ")
                    continue
                out[i] = "code for the structure of a sample:\n%s\ncode for the sample:\n%s\n%s" % (r.get("ok"), want.get("ok"), json.dumps(c)[:700])
            ctx.stat("equal_texts")
        return out

    def verdict(self, ctx, c, doc, m, root):
        if c.get("set"):
            return None
        if doc is not None:
            return super().verdict(ctx, c, doc, m, root)
        n = declared_as(fix(c["shape"]))
        cmp = lang.Compare(m)
        try:
            cmp.run(n, root)
        except (lang.Mismatch, lang.Malformed) as e:
            return "declared types differ from the given structure: %s\nstructure %s" % (e, model.show(n)[:600])
        ctx.stat("given_structures")
        ctx.stat("positions_compared", cmp.visited)
        if len(set(x[0] for x in places(n, []))) >= 4:
            ctx.seen(c["mode"] + json.dumps(n))
        return None

    def finish(self, m):
        Declared.finish(self, m)
        for k in ("equal_texts", "given_structures"):
            if not m["violations"] and not m["stats"].get(k):
                raise Inconclusive("nothing observed: " + k)


def fix(n):
    """Structures read back from a replay file are made of lists"""
    if n[0] == "struct":
        return ("struct", {k: (v[0], fix(v[1])) for k, v in n[1].items()})
    if n[0] == "tuple":
        return ("tuple", tuple(fix(t) for t in n[1]), n[2] if len(n) > 2 else 1)
    if n[0] in ("list", "map", "nullable"):
        return (n[0], fix(n[1]))
    return tuple(n)


def echoes(rng, doc):
    """The sample with some of its objects repeated elsewhere: equal, with other values, in another order, or almost equal"""
    objs = []

    def find(d):
        if isinstance(d, dict):
            if d:
                objs.append(d)
            for v in d.values():
                find(v)
        elif isinstance(d, list):
            for v in d:
                find(v)
    find(doc)
    if not objs:
        return doc

    def vary(d, exact, depth=0):
        if isinstance(d, dict):
            ks = list(d)
            if rng.random() < 0.6:
                rng.shuffle(ks)
            out = {}
            for k in ks:
                if not exact and rng.random() < 0.15:
                    r = rng.random()
                    if r < 0.3:
                        continue
                    out[k] = None if r < 0.5 else rng.choice([gen.Num(1), gen.Num("1.5"), "x", True, [], {}])
                    continue
                out[k] = vary(d[k], exact, depth + 1)
            return out
        if isinstance(d, list):
            if d and rng.random() < 0.4:
                # arrays of the same elements, and of other lengths
                d = d * rng.choice([1, 2, 2, 3]) if rng.random() < 0.7 else d[:rng.choice([1, 2, len(d)])]
                d = d[:40]
            return [vary(x, exact, depth + 1) for x in d]
        if isinstance(d, str):
            return rng.choice([d, "other"])
        return d

    out = {}
    for i in range(rng.choice([1, 1, 2, 3])):
        v = vary(rng.choice(objs), rng.random() < 0.6)
        r = rng.random()
        if r < 0.25:
            v = [v, None][:rng.choice([1, 2])]
        elif r < 0.4:
            v = [v] * rng.choice([1, 2, 13])
        elif r < 0.5:
            v = [v, gen.Num(1)]
        elif r < 0.6:
            v = {"in": v}
        out[rng.choice(["copy", "again", "other", "item", "data", "echo_of"]) + str(i)] = v
    if rng.random() < 0.3:
        return [{"at": x} for x in (doc, *out.values())] if rng.random() < 0.5 else [doc, *out.values()]
    return {"first": doc, **out}


def shuffled(rng, v):
    if isinstance(v, dict):
        ks = list(v)
        rng.shuffle(ks)
        return {k: shuffled(rng, v[k]) for k in ks}
    return [shuffled(rng, x) for x in v] if isinstance(v, list) else v


class C19(C16):
    id = "C19"
    technique = "monitor of the declarations read back from the output: those of equal structures of the reference model, and those not reached"
    level_note = "exploration; the readers of Rust, Kotlin and Python, the TypeScript compiler and the reference model are trusted"
    rule = ("generated samples, most with objects that occur again elsewhere (exactly, with other values, orders and array lengths, or "
            "almost), in the five modes that declare types; non-trivial: distinct (sample, mode) where a structure occurs at two positions")
    modes = ("rust", "typescript", "kotlin/jackson", "kotlin/kotlinx", "python")
    counts = (120000, 2400000)

    def cases(self, ctx):
        rng = ctx.rng
        for c in super().cases(ctx):
            if "hints" not in c and rng.random() < 0.8:
                doc = echoes(rng, parse_json(c["input"]))
                if gen.size(doc) > 500:
                    continue
                c["input"] = gen.dump(doc)
                if rng.random() < 0.2:
                    c["set"] = {"deny_unknown_fields": True}
                elif rng.random() < 0.3:
                    from .options import C25, mixed
                    n = rng.choice([0, 1, 1, 2, 2, 3])
                    if rng.random() < 0.6:
                        n += 2
                        t = C25.template(rng, n, 3)
                        doc = shuffled(rng, {k: t() for k in "pqr"[:rng.choice([2, 2, 3])]})
                        c["input"] = gen.dump(doc)
                    a = model.Acc()
                    a.add(doc, [], n)
                    if not mixed(a, n):
                        c["n"], c["options"] = n, '{infer_map_threshold: "%d"}' % n
            yield c

    def infer(self, ctx, c, doc):
        return model.infer(doc, threshold=c["n"]) if "n" in c else super().infer(ctx, c, doc)

    def verdict(self, ctx, c, doc, m, root):
        n = self.infer(ctx, c, doc)
        cmp = lang.Compare(m)
        try:
            cmp.run(n, root)
        except (lang.Mismatch, lang.Malformed):
            ctx.stat("declared_otherwise")       # (C16 reports these)
            return None
        by, repeated, used = {}, False, {c["name"]}
        for s, decl, path in cmp.structs:
            if decl is not None and isinstance(m, TsModule):
                decl = m.types[decl][2]
            used.add(decl)
            if decl is None:
                continue
            if any(x == ("bottom",) for x in places(s, [])):
                # (an empty list may be declared as a list of what lists elsewhere have)
                ctx.stat("with_empty_lists")
                continue
            k = key_of(declared_as(s))
            if k in by:
                repeated = True
                if by[k][0] != decl:
                    return "%s and %s have the same structure, but are declared as %s and as %s\nstructure %s" % (
                        by[k][1] or "/", path or "/", by[k][0], decl, model.show(s)[:500])
            else:
                by[k] = (decl, path)
        ctx.stat("structures", len(by))
        names = m.declared if isinstance(m, TsModule) else m.order
        idle = set(names) - used
        if idle:
            return "declared, but not used: %r" % sorted(idle)
        for k in nontrivial(n)[0]:
            ctx.stat("with_" + k)
        if repeated:
            ctx.stat("shared")
            ctx.seen(c["mode"] + c["input"])
            if ctx.rng.random() < 0.002:
                ctx.sample({"mode": c["mode"], "input": c["input"][:300], "shared": by and {d: p for d, p in by.values()}})
        ctx.stat("mode_" + c["mode"])
        return None

    def finish(self, m):
        Declared.finish(self, m)
        if not m["stats"].get("shared"):
            raise Inconclusive("no structure occurred twice")
        if m["stats"].get("declared_otherwise", 0) > m["stats"].get("structures", 0):
            raise Inconclusive("the output could not be compared")


def key_of(n):
    if n[0] == "struct":
        return ("struct", frozenset((k, o, key_of(t)) for k, (o, t) in n[1].items()))
    if n[0] == "tuple":
        return ("tuple", tuple(key_of(t) for t in n[1]))
    if n[0] in ("list", "map", "nullable"):
        return (n[0], key_of(n[1]))
    return n
