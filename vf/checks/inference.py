"""C01-C06, C20, C21: the inference side, observed through output mode `shape`."""
import json
import os
import random
import resource
import shutil
import subprocess
import tempfile

from .. import build, gen, model
from ..core import Check
from ..drv import Server, Inconclusive, crashed

MODES = ["rust", "typescript", "typescript/typealias", "kotlin/jackson", "kotlin/kotlinx", "python", "json_schema",
         "zod", "shape"]
FORMATS = ["lowercase", "uppercase", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case",
           "SCREAMING-KEBAB-CASE"]
STYLES = ["add_imports", "assume_existing", "qualified_paths"]
WS = "".join(chr(c) for c in list(range(9, 14)) + [32, 0x85, 0xa0, 0x1680] + list(range(0x2000, 0x200b)) +
             [0x2028, 0x2029, 0x202f, 0x205f, 0x3000])


class Bad(Exception):
    pass


class Skip(Exception):
    pass


def parse_json(text):
    """Strict RFC 8259 parse to the generator's representation; raises Bad."""
    def const(x):
        raise Bad(x)

    def pairs(ps):
        d = dict(ps)
        if len(d) != len(ps):
            raise Skip("duplicate key")
        return d
    try:
        return json.loads(text, parse_int=gen.Num, parse_float=gen.Num, parse_constant=const, object_pairs_hook=pairs)
    except ValueError:
        raise Bad("invalid")
    except RecursionError:
        raise Skip("deep")


def depth(text):
    """Maximal bracket depth of a text (outside of strings, for well-formed texts)."""
    d = m = 0
    s = esc = False
    for c in text:
        if s:
            if esc:
                esc = False
            elif c == "\\":
                esc = True
            elif c == '"':
                s = False
        elif c == '"':
            s = True
        elif c in "[{":
            d += 1
            m = max(m, d)
        elif c in "]}":
            d -= 1
    return m


def lone_surrogate(text):
    try:
        for x in walk_strings(json.loads(text)):
            x.encode("utf8")
    except UnicodeEncodeError:
        return True
    return False


def walk_strings(v):
    if isinstance(v, str):
        yield v
    elif isinstance(v, list):
        for x in v:
            yield from walk_strings(x)
    elif isinstance(v, dict):
        for k, x in v.items():
            yield k
            yield from walk_strings(x)


def rust_str(s):
    """A Rust string literal, as the options block takes them."""
    out = ['"']
    for c in s:
        if c in '"\\':
            out.append("\\" + c)
        elif c == "\n":
            out.append("\\n")
        elif c == "\r":
            out.append("\\r")
        elif c == "\t":
            out.append("\\t")
        elif ord(c) < 32 or c in "\u0085\u2028\u2029\u200e\u200f":
            out.append("\\u{%x}" % ord(c))
        else:
            out.append(c)
    out.append('"')
    return "".join(out)


def tok(key):
    return key.replace("~", "~0").replace("/", "~1")


def paths(doc, prefix=()):
    """All JSON Pointer token paths of a document (unescaped keys, indices as str)."""
    yield prefix
    if isinstance(doc, dict):
        for k, v in doc.items():
            yield from paths(v, prefix + (tok(k),))
    elif isinstance(doc, list):
        for i, v in enumerate(doc):
            yield from paths(v, prefix + (str(i),))


TOKENS = ["{", "}", "[", "]", ",", ":", "null", "true", "false", '"a"', '""', "0", "-1", "1.5", "1e3", " ", "\n", "\\",
          "nul", "01", "-", "+1", ".5", "1.", "1e", "1e+", "0x1", "NaN", "Infinity", "'a'", '"\\x"', '"\\u12"',
          '"\\u00e9"', '"\t"', '"\n"', '"\u0001"', "//c\n", "/**/", "#", "\ufeff", "\u00a0", "\x0b", "\x0c", '"', "tru",
          "True", "None", "undefined", "[1,]", '{"a":1,}', "[,1]", '{"a"}', "{a:1}", '{"a":}', "{1:2}", '"\\',
          '"\\ud83d\\ude00"', "\x00", "1_000", "１", "-0", "-00", "1E5", "1e5.5", "--1", "1-1", "[1 2]", '"a" "b"', "é",
          ",,", "::", "][", "}{", '"\\/"', '"\\b\\f\\n\\r\\t"', '"\\\'"', '"\\0"', '"\\U0041"', "1e400", "9" * 30, "nullnull",
          "truefalse", "null1", "1null", '1"a"', '"a"1', "\u2028", "\\u0020", '"\\udfff\\udfff"', '"\\ud800"', '"\\ud800\\u0041"',
          '"\\udc00\\ud800"', '"\\ud800\\ud800"', '"\\ud800\\u0000"', "\\ud83d\\ude00", "\\udbff\\udfff", "\\ud83d", "\\udfff\\udfff"]


def mutate(rng, text, n=None):
    """One or a few byte- or token-level edits."""
    for _ in range(n or rng.choice([1, 1, 1, 2, 3])):
        i = rng.randrange(len(text) + 1)
        r = rng.random()
        if r < 0.25 and text:
            j = min(len(text), i + rng.choice([1, 1, 1, 2, 5, 20]))
            text = text[:i] + text[j:]
        elif r < 0.6:
            text = text[:i] + rng.choice(TOKENS) + text[i:]
        elif r < 0.65:
            # an escape, which is most of the time somewhere in a string
            i = rng.choice([m + 1 for m, c in enumerate(text) if c == '"'] or [i])
            text = text[:i] + "\\u%04x" % rng.choice([rng.randrange(0xd800, 0xe000), rng.randrange(0x10000)]) + (
                "\\u%04x" % rng.choice([rng.randrange(0xd800, 0xe000), rng.randrange(0x10000)]) if rng.random() < 0.8 else "") + text[i:]
        elif r < 0.75:
            text = text[:i]
        elif r < 0.87 and text:
            i = min(i, len(text) - 1)
            text = text[:i] + rng.choice(list('{}[],:"\\0123456789.eE+-tfn \n\t/u') + ["\u00a0", "\x00", "é"]) + text[i + 1:]
        else:
            j = min(len(text), i + rng.randint(1, 12))
            k = rng.randrange(len(text) + 1)
            text = text[:k] + text[i:j] + text[k:]
    return text


def mutate_token(rng, text):
    """Replace, duplicate or drop one lexical token of a JSON text."""
    import re
    toks = re.findall(r'"(?:[^"\\]|\\.)*"|[{}\[\],:]|[^\s{}\[\],:"]+|\s+', text)
    if not toks:
        return text
    i = rng.randrange(len(toks))
    r = rng.random()
    if r < 0.3:
        del toks[i]
    elif r < 0.5:
        toks.insert(i, toks[i])
    elif r < 0.8:
        toks[i] = rng.choice(TOKENS)
    else:
        j = rng.randrange(len(toks))
        toks[i], toks[j] = toks[j], toks[i]
    return "".join(toks)


ODD_TOKENS = ["-", "0", "nope", "", "~", "~1", "12", "00", "-1", "+1", "é", "~01", "255", "256", "65536", "2147483648", "4294967295", "4294967296",
              "18446744073709551615", "18446744073709551616", "99999999999999999999999", "٣", "1e9", "0x1", "--"]


def random_options(rng, doc=None, strict=True):
    """A random options block (text), plausible for the document."""
    parts = []
    q = (lambda k: k) if rng.random() < 0.5 else (lambda k: '"%s"' % k)
    if rng.random() < 0.8:
        parts.append("%s: %s" % (q("output_mode"), rust_str(rng.choice(MODES))))
    for name in ("deny_unknown_fields", "use_default_for_missing_fields", "allow_option_vec", "collect_additional"):
        if rng.random() < 0.2:
            parts.append("%s: %s" % (q(name), rng.choice(["true", "false"])))
    if rng.random() < 0.3:
        parts.append("%s: %s" % (q("property_name_format"), rust_str(rng.choice(FORMATS))))
    if rng.random() < 0.3:
        parts.append("%s: %s" % (q("import_style"), rust_str(rng.choice(STYLES))))
    if rng.random() < 0.2:
        parts.append("%s: %s" % (q("derives"), rust_str(rng.choice(["Debug", "", "a::b::C, D", "Clone,,", ",", "::", "é"]))))
    if rng.random() < 0.2:
        parts.append("%s: %s" % (q("field_visibility"), rust_str(rng.choice(["", "pub", "pub(crate)", "é"]))))
    if rng.random() < 0.3:
        parts.append("%s: %s" % (q("infer_map_threshold"), rust_str(rng.choice(["0", "1", "2", "5", "x", "-1", "99999999999999999999"]))))
    ps = list(paths(doc)) if doc is not None else [()]
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        p = list(rng.choice(ps))
        if p and rng.random() < 0.4:
            p[rng.randrange(len(p))] = rng.choice(ODD_TOKENS)
        t = rng.choice(["map", "map", "Opaque", "crate::T<X>", "", "é\n\"", "any", "optional"])
        parts.append('%s: { "use_type": %s }' % (rust_str("".join("/" + x for x in p)), rust_str(t)))
    if rng.random() < 0.3:
        p = list(rng.choice(ps))
        if p and rng.random() < 0.3:
            p[rng.randrange(len(p))] = rng.choice(ODD_TOKENS)
        parts.append("%s: %s" % (q("unwrap"), rust_str(rng.choice(["".join("/" + x for x in p), "/-", "/-/-", "x", "/", "//"]))))
    rng.shuffle(parts)
    s = "{" + ", ".join(parts) + rng.choice(["", ","] if parts else [""]) + "}"
    return s


SQL_TYPES = ["CHAR(3)", "VARCHAR(255)", "TEXT", "STRING", "INT", "INTEGER", "BIGINT", "SMALLINT UNSIGNED", "BOOLEAN",
             "DATE", "TIMESTAMP", "DATETIME", "FLOAT", "DECIMAL(10,2)", "JSON", "UUID", "INT[]", "ENUM('a','b')",
             "SERIAL", "double precision", "TIMESTAMP WITH TIME ZONE", "foo.bar(1)", "NUMERIC", "BYTEA", "SET('x')"]
SQL_OPTS = ["NOT NULL", "NULL", "PRIMARY KEY", "UNIQUE", "DEFAULT 1", "DEFAULT CURRENT_TIMESTAMP", "CHECK (a > 0)",
            "REFERENCES t(id)", "COMMENT 'x'", "AUTO_INCREMENT", "COLLATE x", "DEFAULT (1 + (2 * 3))",
            "DEFAULT ((((((((((1))))))))))", "CONSTRAINT c NOT NULL", "GENERATED ALWAYS AS IDENTITY", "DEFAULT 'a''b'"]


def random_sql(rng):
    stmts = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        cols = []
        for _ in range(rng.choice([0, 1, 3, 6])):
            n = rng.choice(["id", "name", '"a b"', "`x`", "[y]", "type", "Self", "é", '""', "a1", "ID", "select", '"q""r"'])
            cols.append("%s %s %s" % (n, rng.choice(SQL_TYPES), " ".join(rng.sample(SQL_OPTS, rng.choice([0, 0, 1, 2])))))
        if rng.random() < 0.3:
            cols.append(rng.choice(["PRIMARY KEY (id)", "FOREIGN KEY (a) REFERENCES b(c)", "UNIQUE (a, b)", "INDEX i (a)"]))
        stmts.append("CREATE %sTABLE %s%s (%s)%s" % (
            rng.choice(["", "TEMPORARY ", "OR REPLACE "]), rng.choice(["", "IF NOT EXISTS "]),
            rng.choice(["t", "a.b", '"T T"', "users", "`x`"]), ", ".join(cols), rng.choice(["", " ENGINE=InnoDB", " AS SELECT 1"])))
    for _ in range(rng.choice([0, 0, 1])):
        stmts.insert(rng.randrange(len(stmts) + 1), rng.choice(
            ["SELECT 1", "INSERT INTO t VALUES (1)", "DROP TABLE t", "-- c", "/* x */", "CREATE INDEX i ON t (a)",
             "ALTER TABLE t ADD COLUMN c INT", "CREATE VIEW v AS SELECT 1", "", "GRANT SELECT ON t TO u"]))
    return rng.choice([";", ";\n", "\n;;\n"]).join(stmts) + rng.choice(["", ";"])


NAMES = ["Root", "root", "pub Foo", "pub(crate) Bar", "pub(in a::b) Baz", "pub(", "pub(x)", "pub ", "", " ", "1", "type",
         "Self", "String", "a b", "é", "日本", "GeneratedType", "foo-bar", "\"", "\n", "pub(crate)  X", "x" * 300, "_", "__"]


def deep(kind, n):
    if kind == "tower":
        return tower(n)
    if kind == "arr":
        return "[" * n + "]" * n
    if kind == "obj":
        return '{"a":' * n + "1" + "}" * n
    if kind == "mix":
        return '[{"a":' * n + "1" + "}]" * n
    if kind == "open":
        return "[" * n
    if kind == "openobj":
        return '{"a":' * n
    if kind == "pair":
        return '[1,' * n + '"x"' + "]" * n
    if kind == "uniq":
        return "".join('{"k%d":' % i for i in range(n)) + "1" + "}" * n
    if kind == "list2":
        return '[{"a":' * n + "[]" + "},null]" * n
    raise AssertionError(kind)


LEVELS = {"list": "[%s]", "obj": '{"a":%s}', "two": '{"a":%s,"b":1}', "tuple": '[%s,"x"]', "after": '[true,%s]', "null": "[%s,null]",
          "opt": '[{"a":%s},{}]', "empty": "[%s,[]]", "map": '{"m0":%s,"m1":null}', "rec": '[{"a":%s,"n":1},{"n":"x"}]'}
LEAVES = ["1", "1.5", '"x"', "true", "null", "[]", "{}", "[1,2]", "[null]", '{"k":1}', "18446744073709551616"]


def tower(seed):
    """Two to six deep values of one build, differing at the bottom or at one level, merged at the top."""
    rng = random.Random(seed)
    n = rng.choice([10, 20, 25, 30, 40, 60, 90])
    unit = [rng.choice(sorted(LEVELS)) for _ in range(rng.choice([1, 1, 2, 3]))]
    kinds = [unit[i % len(unit)] for i in range(n)]
    while sum(1 + (k in ("opt", "rec")) for k in kinds) > 110:      # the parser stops at 128
        kinds.pop()
    out = []
    for _ in range(rng.choice([2, 2, 3, 4, 6])):
        t, ks = rng.choice(LEAVES), list(kinds)
        if rng.random() < 0.4:
            ks[rng.randrange(len(ks))] = rng.choice(sorted(LEVELS))
        for k in ks:
            t = LEVELS[k] % t
        out.append(t)
    return rng.choice(["[%s]" % ",".join(out), "{%s}" % ",".join('"v%d":%s' % x for x in enumerate(out)),
                       "[%s]" % ",".join('{"f":%s}' % t for t in out), '[%s,"x"]' % ",".join(out)])


class C01(Check):
    id = "C01"
    technique = "crash and runaway monitor over a panic/abort-observing execution server under fuzzed workloads"
    level_note = ("exploration: no crash on the executions listed in the evidence; overflow checks and debug assertions are on, "
                  "8 MiB stack; a hang is decided on CPU time. Not covered: paths the generated inputs never reach.")
    rule = ("grammar-generated, mutated, truncated and pathologically nested JSON, SQL, option blocks, macro texts and names in "
            "all output modes; non-trivial: distinct (operation, input, options) that got past option parsing")
    assumptions = ("the harness build (overflow checks and debug assertions on) panics wherever a release build could misbehave",)

    KF = {
        "C01-sql-unary-chain": ('{input_mode: "sql"}', lambda: "CREATE TABLE t (a INT CHECK (" + "NOT " * 100000 + "1 > 0))"),
        "C01-sql-type-nesting": ('{input_mode: "sql"}', lambda: "CREATE TABLE t (a " + "ARRAY<" * 100000 + "INT" + ">" * 100000 + ")"),
    }

    def setup(self):
        self.exe = os.path.join(build.build("driver"), "vf_driver")

    def open(self, ctx):
        self.s = Server(exe=self.exe)

    def close(self, ctx):
        self.s.close()

    def cases(self, ctx):
        rng = ctx.rng
        fixed = [{"kf": k} for k in sorted(self.KF)]
        for kind in ("arr", "obj", "mix", "open", "openobj", "pair", "uniq", "list2"):
            for n in (60, 99, 100, 127, 128, 129, 300, 1000, 20000) + (() if ctx.quick else (100000, 1000000)):
                if kind == "uniq" and n > 20000:
                    continue
                for m in MODES:
                    if n > 300 and m not in ("rust", "shape"):
                        continue
                    fixed.append({"op": "codegen", "name": "Root", "deep": [kind, n], "options": '{output_mode: "%s"}' % m})
                fixed.append({"op": "codegen", "name": "Root", "deep": [kind, n], "options": '{"": {use_type: "T"}}'})
                fixed.append({"op": "codegen", "name": "Root", "deep": [kind, n], "options": '{"unwrap": "/-/-"}'})
                fixed.append({"op": "codegen", "name": "Root", "deep": [kind, n], "options": '{"unwrap": "%s"}' % ("/-" * min(n, 2000))})
        # many colliding names and many structures at one level
        wide = 300 if ctx.quick else 2000
        for m in MODES:
            fixed.append({"op": "codegen", "name": "Root", "options": '{output_mode: "%s"}' % m, "input":
                          "{" + ",".join('"a%s": {"f%d": 1}' % ("." * i, i) for i in range(wide)) + "}"})
            fixed.append({"op": "codegen", "name": "Root", "options": '{output_mode: "%s"}' % m, "input":
                          "[" + ",".join("1" if i % 2 else '"x"' for i in range(12)) + "]"})
        yield from ctx.mine(fixed)
        for _ in range(ctx.count(300000, 6000000)):
            r = rng.random()
            if r < 0.02:
                yield {"op": "codegen", "name": "Root", "deep": ["tower", rng.randrange(1 << 30)], "options": rng.choice(
                    ['{output_mode: "%s"}', '{output_mode: "%s", unwrap: "/-"}', '{output_mode: "%s", use_default_for_missing_fields: true}',
                     '{output_mode: "%s", infer_map_threshold: "0.1"}']) % rng.choice(MODES)}
            elif r < 0.5:
                pf = gen.Profile(rng)
                doc = gen.small_doc(rng, lambda: gen.gen_doc(rng, pf), 150)
                text = gen.dump(doc, rng, vary=rng.random() < 0.5)
                opts = random_options(rng, doc)
                if rng.random() < 0.45:
                    text = mutate(rng, text)
                if rng.random() < 0.15:
                    opts = mutate(rng, opts)
                yield {"op": "codegen", "name": rng.choice(NAMES) if rng.random() < 0.3 else "Root", "input": text,
                       "options": opts}
            elif r < 0.65:
                text = "".join(rng.choice(TOKENS) for _ in range(rng.randint(1, 14)))
                yield {"op": "codegen", "name": "Root", "input": rng.choice(["{", "[", ""]) + text,
                       "options": '{output_mode: "%s"}' % rng.choice(MODES)}
            elif r < 0.8:
                text = random_sql(rng)
                if rng.random() < 0.4:
                    text = mutate(rng, text)
                yield {"op": "codegen", "name": "Root", "input": text, "options":
                       '{input_mode: "sql", output_mode: "%s"%s}' % (rng.choice(MODES), rng.choice(["", ", unwrap: \"/a\"", ', "/a": {use_type: "map"}']))}
            elif r < 0.9:
                opts = mutate(rng, random_options(rng, {"a": [{"b": 1}]}))
                yield {"op": "codegen", "name": "Root", "input": '{"a":[{"b":1}]}', "options": opts}
            else:
                lit = rng.choice([rust_str, lambda s: 'r#"%s"#' % s, lambda s: 'r"%s"' % s, lambda s: '"%s"' % s])
                t = "%s, %s%s" % (lit(rng.choice(NAMES)), lit(rng.choice(['{"a":1}', "[1,2]", "nofile.json", ""])),
                                  rng.choice(["", ", " + random_options(rng, {"a": 1}), ", " + rust_str("{ derives: \"X\" }"), ","]))
                if rng.random() < 0.5:
                    t = mutate(rng, t)
                if rng.random() < 0.5:
                    yield {"op": "macro_input", "input": t}
                else:
                    yield {"op": "macro", "input": "json_typegen!(" + t + rng.choice([");", ")", ");x"])}

    def judge(self, ctx, cases):
        out = []
        for c in cases:
            if "kf" in c:
                opts, mk = self.KF[c["kf"]]
                r = self.s.codegen(mk(), options=opts)
                ctx.stat("known_finding_probes")
                if crashed(r):
                    ctx.known_finding(c["kf"], "input of known finding %s: %s" % (c["kf"], r))
                out.append(None)
                continue
            req = {k: v for k, v in c.items() if k != "deep"}
            if "deep" in c:
                req["input"] = deep(*c["deep"])
            # never reach for network or files from fuzzed text
            low = req["input"].strip().lower()
            if low.startswith("http") or "http" in low[:400] and req["op"] != "codegen":
                out.append(None)
                continue
            r = self.s.request(req)
            if crashed(r):
                out.append("crash: %s\n%s" % (json.dumps({k: r[k] for k in r if k in ("panic", "died", "hang")}),
                                              json.dumps(c, ensure_ascii=False)[:1500]))
                continue
            ctx.stat("generated" if "ok" in r else "error_" + r.get("stage", "?"))
            if "ok" in r and not (r["ok"].endswith("\n") and not r["ok"].endswith("\n\n")):
                out.append("generated code does not end with exactly one newline: %r" % c)
                continue
            if r.get("stage") != "options":
                ctx.seen(json.dumps(c, sort_keys=True))
                if ctx.rng.random() < 0.001:
                    ctx.sample(c)
            out.append(None)
        return out

    def finish(self, m):
        if m["stats"].get("generated", 0) < 1000:
            raise Inconclusive("too few inputs led to generated code")


class Driven(Check):
    def setup(self):
        self.exe = os.path.join(build.build("driver"), "vf_driver")

    def open(self, ctx):
        self.s = Server(exe=self.exe)

    def close(self, ctx):
        self.s.close()

    def shape(self, text, options=None, **sets):
        sets["output_mode"] = "shape"
        return self.s.codegen(text, options=options, **sets)


class C02(Driven):
    id = "C02"
    technique = "differential monitoring of acceptance against an independent strict RFC 8259 parser"
    level_note = "exploration; trusts CPython's json module (with NaN/Infinity disabled) as the RFC 8259 recogniser"
    rule = ("valid documents in random spellings, and their byte- and token-level mutations, also inside values that a hint or "
            "unwrap discards; non-trivial: distinct texts for which the verdict is defined")

    def cases(self, ctx):
        rng = ctx.rng
        for t in ctx.mine(TOKENS):
            for tmpl in ("[%s]", '{"a":%s}', "[1,%s]", "[%s,1]", "[]%s", "{}%s", "[1]%s", "[%s", '{"a":1}%s', '[{"a":%s},{}]',
                         "{%s:1}", '{"a":1%s"b":2}', "[1%s2]", '["a%sb"]', "[[%s]]", "[1,2,3,4,5,6,7,8,9,10,11,12,13,%s]"):
                yield {"input": tmpl % t}
        for n in ctx.mine([1, 5, 50, 95, 99, 100]):
            for k in ("arr", "obj", "pair", "uniq"):
                yield {"input": deep(k, n)}
                yield {"input": deep(k, n)[:-1]}
        for _ in range(ctx.count(400000, 8000000)):
            pf = gen.Profile(rng)
            if rng.random() < 0.3:
                pf.max_depth = rng.randint(1, 2)
            doc = gen.small_doc(rng, lambda: gen.gen_doc(rng, pf), 60)
            text = gen.dump(doc, rng, vary=True).strip()
            r = rng.random()
            if r < 0.5:
                text = mutate(rng, text)
            elif r < 0.85:
                text = mutate_token(rng, text)
            case = {"input": text}
            r = rng.random()
            if r < 0.12:
                case = {"input": '{"keep":{"a":1},"drop":%s}' % text, "unwrap": "/keep"}
            elif r < 0.2:
                case = {"input": '[{"keep":{"a":1}},%s]' % text, "unwrap": "/0/keep"}
            elif r < 0.32:
                case = {"input": '{"x":%s,"y":2}' % text, "options": '{"/x": {use_type: "Opaque"}}'}
            elif r < 0.4:
                case = {"input": "[1,%s]" % text, "options": '{"/-": {use_type: "Opaque"}}'}
            elif r < 0.45:
                case = {"input": '{"x":%s}' % text, "mode": rng.choice(MODES)}
            elif r < 0.6:
                case = {"hex": self.bytes(rng, text).hex()}
            yield case

    RAW = [b"\xff", b"\x80", b"\xc3", b"\xc0\xaf", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xe2\x82", b"\xf0\x9f\x98", b"\xef\xbb\xbf",
           b"\x0c", b"\x0b", b"\x00", b"\x1f", b"\x7f", b"\xc2\x85", b"\xc2\xa0", b"\xe2\x80\xa8", b"\xfe\xff", b"\xf8\x88\x80\x80\x80", b"\xc1\x81"]

    def bytes(self, rng, text):
        """The bytes of a sample file: any JSON value, any bytes."""
        if rng.random() < 0.2:
            text = rng.choice(["1", '"a"', "null", "-0.5e3", "true", ' "x" ', "01", "tru", '"', '"\\u00e9"']) + rng.choice(["", "", " ", "\n", ",", "1"])
        b = text.encode("utf8", "surrogatepass")
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            quotes = [i + 1 for i, x in enumerate(b) if x == 34]
            i = rng.choice(quotes) if quotes and rng.random() < 0.5 else rng.randrange(len(b) + 1)
            if rng.random() < 0.7:
                b = b[:i] + rng.choice(self.RAW) + b[i:]
            elif i < len(b):
                b = b[:i] + bytes([rng.randrange(256)]) + b[i + 1:]
        return b

    def open(self, ctx):
        super().open(ctx)
        self.dir = tempfile.mkdtemp(prefix="vf-c02-")

    def close(self, ctx):
        super().close(ctx)
        shutil.rmtree(self.dir, ignore_errors=True)

    def judge(self, ctx, cases):
        out = []
        for c in cases:
            if "hex" in c:
                raw = bytes.fromhex(c["hex"])
                text = os.path.join(self.dir, "s.json")
                with open(text, "wb") as f:
                    f.write(raw)
                inner = raw.decode("utf8", "replace")
                ctx.stat("files")
            else:
                raw = None
                text = c["input"]
                inner = text.strip(WS)
            if raw is None and not inner.startswith(("{", "[")):
                ctx.stat("not_inline")
                out.append(None)
                continue
            try:
                if raw is not None:
                    try:
                        raw.decode("utf8")
                    except UnicodeDecodeError:
                        ctx.stat("files_not_utf8")
                        raise Bad("not UTF-8")
                parse_json(inner)
                expect = True
                d = depth(inner)
                if lone_surrogate(inner):
                    raise Skip()
            except Bad:
                expect, d = False, 0
            except Skip:
                ctx.stat("left_open")
                out.append(None)
                continue
            sets = {"output_mode": c.get("mode", "shape")}
            if "unwrap" in c:
                sets["unwrap"] = c["unwrap"]
            r = self.s.codegen(text, options=c.get("options"), **sets)
            if crashed(r):
                out.append("crash on %r: %r" % (text[:300], r))
                continue
            got = "ok" in r
            ctx.seen(json.dumps(c, sort_keys=True))
            ctx.stat("%s_%s" % ("valid" if expect else "invalid", "accepted" if got else "rejected"))
            if not got and r.get("stage") == "options":
                raise Inconclusive("options refused: %r" % r)
            if got != expect and not (expect and d > 100):
                out.append("%s JSON was %s: %s\n%s" % ("well-formed" if expect else "malformed", "accepted" if got else "rejected",
                                                       json.dumps(c, ensure_ascii=False)[:1200] + (" %r" % raw[:300] if raw is not None else ""), "" if got else r["err"]))
            else:
                if ctx.rng.random() < 0.0005:
                    ctx.sample(dict(c, accepted=got))
                out.append(None)
        return out

    def finish(self, m):
        if m["stats"].get("files_not_utf8", 0) < 100:
            raise Inconclusive("too few files that are not UTF-8")
        if m["stats"].get("invalid_rejected", 0) < 1000 or m["stats"].get("valid_accepted", 0) < 1000:
            raise Inconclusive("too few accepted or rejected texts: %r" % m["stats"])


SHAPE_AVOID = tuple(k for k in gen.SYNTAX if k.endswith("?")) + ("__type__",)


class NoShapeAmbiguity:
    """Keys that the shape notation itself cannot express unambiguously."""

    @staticmethod
    def profile(rng, **kw):
        return gen.Profile(rng, avoid=SHAPE_AVOID, **kw)


def doc_ok_for_shape(doc):
    if isinstance(doc, dict):
        return all(not k.endswith("?") and k != "__type__" for k in doc) and all(map(doc_ok_for_shape, doc.values()))
    if isinstance(doc, list):
        return all(map(doc_ok_for_shape, doc))
    return True


def shape_doc(rng, limit=200, **kw):
    if rng.random() < 0.001:
        d = gen.scaled(rng, rng.choice([300, 300, 1000, 6000]))
        if doc_ok_for_shape(d):
            return d
    while True:
        pf = NoShapeAmbiguity.profile(rng, **kw)
        d = gen.small_doc(rng, lambda: gen.gen_doc(rng, pf), limit)
        if rng.random() < 0.06:
            d = odd_keys(rng, d)
        if doc_ok_for_shape(d):
            return d


def odd_keys(rng, d):
    """The sample with some of its keys replaced by ones with characters at the edges of what strings, escapes and UTF-8 can hold"""
    same = {}
    p = rng.choice([0.2, 0.6, 1])

    def f(k):
        if k not in same:
            r = rng.random()
            same[k] = k
            if r < p:
                cs = [gen.edge_char(rng) for _ in range(rng.choice([1, 1, 2, 5]))]
                at = rng.choice([0, len(k), rng.randint(0, len(k))])
                same[k] = k[:at] + "".join(cs) + k[at:] if rng.random() < 0.7 else "".join(cs)
        return same[k]
    return rekey(d, f)


def got_shape(r):
    """The normalised structure in a reply, or an error string."""
    if "ok" not in r:
        return None, "expected generated code, got %s" % json.dumps({k: v for k, v in r.items() if k not in ("peak", "allocs")})[:400]
    try:
        def pairs(ps):
            d = dict(ps)
            assert len(d) == len(ps), "a field is listed twice"
            return d
        return model.parse_shape(json.loads(r["ok"], object_pairs_hook=pairs)), None
    except (ValueError, AssertionError, KeyError, AttributeError) as e:
        return None, "unreadable shape output (%s): %s" % (e, r["ok"][:400])


class C03(Driven):
    id = "C03"
    technique = "online comparison with an executable reference model of inference"
    level_note = ("exploration; trusts the reference model (vf/model.py, a per-position summary of the observed kinds, counts and "
                  "lengths written from the documented lattice). Keys ending in ? and the key __type__ are left out: the shape "
                  "notation cannot tell them apart.")
    rule = ("documents from templates with missing/null/conflicting fields, boundary numbers, arrays of 0..14 elements, hostile "
            "keys; non-trivial: distinct inferred structures with at least 3 nodes")

    def cases(self, ctx):
        rng = ctx.rng
        # exhaustive small part: all pairs/triples of kinds in one position
        vals = ["null", "true", "1", "-0", "0.5", "1e3", "9223372036854775807", "9223372036854775808", '"s"', "[]", "[1]", "[1,2]",
                '[1,"a"]', '["a",1]', "[null]", "[null,1]", "{}", '{"a":1}', '{"a":null}', '{"a":"s","b":1}', "[[1],[null]]", "[{},{\"a\":1}]",
                '[1,2,"x"]', '[[1,"a"],[2,"b"]]', '[[],1]', "[{},1]"]
        k = 0
        for a in vals:
            for b in vals:
                for t in ('[%s,%s]' % (a, b), '[{"x":%s},{"x":%s}]' % (a, b), '[{"x":%s},{"x":%s},{}]' % (a, b)):
                    k += 1
                    if k % ctx.nshards == ctx.shard:
                        yield {"input": t}
        if not ctx.quick:
            for a in vals:
                for b in vals:
                    for c in vals:
                        k += 1
                        if k % ctx.nshards == ctx.shard:
                            yield {"input": '[{"x":%s},{"x":%s},{"x":%s}]' % (a, b, c)}
                            yield {"input": '[[%s,%s],[%s]]' % (a, b, c)}
                            yield {"input": '[%s,%s,%s]' % (a, b, c)}
        for n in ctx.mine(list(range(0, 16))):
            for e in ("1", '"a"', "null", "{}", "[1]"):
                for e2 in ('"z"', "2", "null", '{"q":1}', "[]"):
                    yield {"input": "[%s]" % ",".join([e] * n + [e2])}
                    yield {"input": "[%s]" % ",".join([e2] + [e] * n)}
                    yield {"input": '[{"a":[%s]},{"a":[%s]}]' % (",".join([e] * n + [e2]), ",".join([e2] * (n + 1)))}
        for n in ctx.mine([1100, 3000, 5500, 10500, 33000, 70000]):
            yield {"input": "{%s}" % ",".join('"k%d":%d' % (i, i) for i in range(n))}
            yield {"input": '[{%s},{"k%d":1.5}]' % (",".join('"k%d":%d' % (i, i) for i in range(n)), n - 1)}
            yield {"input": "[%s]" % ",".join(["1"] * n + ["null"])}
            yield {"input": "[%s]" % ",".join(["{}"] * n + ['{"a":1}'] + ["{}"] * n)}
            yield {"input": '{"%s":"%s"}' % ("k" * n, "v" * n)}
            yield {"input": "[[%s],[%s]]" % (",".join(['"x"'] * n), ",".join(['"y"'] * 12))}
        for _ in range(ctx.count(300000, 6000000)):
            if rng.random() < 0.03:
                yield {"input": gen.dump(self.long(rng))}
            yield {"input": gen.dump(shape_doc(rng), rng, vary=rng.random() < 0.3)}

    @staticmethod
    def long(rng):
        """A long array, mostly of one value, with others in a few places."""
        n = rng.choice([14, 20, 31, 32, 33, 60, 64, 65, 70, 100, 127, 128, 129, 200, 256, 257, 300, 520])
        common, *rare = [shape_doc(rng, 12, max_depth=2) if rng.random() < 0.7 else gen.gen_scalar(rng, rng.choice(gen.SCALARS))
                         for _ in range(rng.choice([2, 2, 3, 4]))]
        a = [common] * n
        for x in rare:
            for _ in range(rng.choice([1, 1, 2])):
                a[rng.choice([rng.randrange(n), n - 1, 0, rng.randrange(min(n, 14)), rng.randrange(12, n)])] = x
        return rng.choice([a, {"a": a}, [{"a": a}, {"a": a[:rng.randrange(n)]}], {"k": {"a": a, "b": 1 == 1}}])

    def judge(self, ctx, cases):
        out = []
        for c in cases:
            doc = parse_json(c["input"])
            want = model.infer(doc)
            got, err = got_shape(self.shape(c["input"]))
            if err:
                out.append(err + "\n" + c["input"][:1500])
                continue
            if got != want:
                out.append("inferred %s\nexpected %s\nsample   %s" % (model.show(got), model.show(want), c["input"][:1500]))
                continue
            st = model.stats(want, {})
            for k, n in st.items():
                ctx.stat("node_" + k, n)
            if sum(st.values()) >= 3:
                ctx.seen(model.show(want))
                if ctx.rng.random() < 0.0005:
                    ctx.sample({"input": c["input"][:400], "inferred": model.show(want)[:400]})
            out.append(None)
        return out

    def finish(self, m):
        for k in ("struct", "list", "tuple", "nullable", "optional", "any", "int", "float", "str", "bool", "null", "bottom"):
            if not m["stats"].get("node_" + k):
                raise Inconclusive("no %s was observed" % k)


def shuffle_keys(rng, d):
    if isinstance(d, dict):
        items = [(k, shuffle_keys(rng, v)) for k, v in d.items()]
        rng.shuffle(items)
        return dict(items)
    if isinstance(d, list):
        return [shuffle_keys(rng, x) for x in d]
    return d


class C04(Driven):
    id = "C04"
    technique = "metamorphic monitor over groups of related executions"
    level_note = "exploration; the oracle is equality of the outputs of related runs, no reference model involved"
    rule = ("documents and 5 variants each: keys shuffled at all levels, records permuted, records repeated, white space and escapes "
            "varied, all together; non-trivial: distinct documents whose variants differ textually")

    def cases(self, ctx):
        rng = ctx.rng
        for _ in range(ctx.count(80000, 1600000)):
            rec = rng.random() < 0.7
            doc = shape_doc(rng)
            if rec and not (isinstance(doc, list) and doc and all(isinstance(x, dict) for x in doc)):
                pf = NoShapeAmbiguity.profile(rng)
                doc = gen.small_doc(rng, lambda: gen.gen_doc(rng, pf, records=rng.choice([2, 3, 5, 12, 13, 20])), 400)
                if not doc_ok_for_shape(doc):
                    continue
            variants = [gen.dump(shuffle_keys(rng, doc)), gen.dump(doc, rng, vary=True)]
            if isinstance(doc, list) and doc and all(isinstance(x, dict) for x in doc):
                p = list(doc)
                rng.shuffle(p)
                variants.append(gen.dump(p))
                variants.append(gen.dump(list(reversed(doc))))
                q = list(doc) + [rng.choice(doc) for _ in range(rng.choice([1, 3, 12]))]
                variants.append(gen.dump(q))
                rng.shuffle(q)
                variants.append(gen.dump(shuffle_keys(rng, q), rng, vary=True))
            yield {"input": gen.dump(doc), "variants": variants}

    def judge(self, ctx, cases):
        out = []
        for c in cases:
            base, err = got_shape(self.shape(c["input"]))
            if err:
                out.append(err + "\n" + c["input"][:1000])
                continue
            bad = None
            for v in c["variants"]:
                got, err = got_shape(self.shape(v))
                if err or got != base:
                    bad = "variant inferred differently: %s\n%s -> %s\n%s -> %s" % (
                        err, c["input"][:700], model.show(base)[:600], v[:700], model.show(got)[:600] if got else err)
                    break
                ctx.stat("variants_compared")
            if bad is None and any(v != c["input"] for v in c["variants"]):
                ctx.seen(c["input"])
                if ctx.rng.random() < 0.002:
                    ctx.sample({"input": c["input"][:300], "variant": c["variants"][-1][:300]})
            out.append(bad)
        return out


def rekey(doc, f):
    if isinstance(doc, dict):
        out = {}
        for k, v in doc.items():
            n = f(k)
            out[k if n in out or n != k and n in doc else n] = rekey(v, f)
        return out
    if isinstance(doc, list):
        return [rekey(v, f) for v in doc]
    return doc


class C05(Driven):
    id = "C05"
    technique = "replay monitor comparing bytes across repetitions, processes and concurrent threads"
    level_note = ("exploration; hash seeds differ between the processes and threads compared (std RandomState), so order leaks show "
                  "with high probability, not certainty")
    rule = ("batches of documents x random options; each job run repeatedly in one process, in two fresh processes (one in another environment) and on 4 threads "
            "started together; non-trivial: distinct jobs that generated code")
    batch = 12
    # another locale, time zone, terminal, home and working directory
    STRANGE = {"PATH": "/nowhere", "LANG": "tr_TR.UTF-8", "LC_ALL": "tr_TR.UTF-8", "TZ": "Pacific/Auckland", "TERM": "dumb", "NO_COLOR": "1", "COLUMNS": "20",
               "HOME": "/nonexistent", "USER": "nobody", "CARGO_MANIFEST_DIR": "/", "CI": "true", "DEBUG": "1", "RUST_LOG": "trace", "http_proxy": "http://127.0.0.1:9"}

    def open(self, ctx):
        self.a = Server(exe=self.exe)

    def close(self, ctx):
        self.a.close()

    def cases(self, ctx):
        rng = ctx.rng
        for _ in range(ctx.count(50000, 1000000)):
            doc = gen.small_doc(rng, lambda: gen.gen_doc(rng, gen.Profile(rng)), 200)
            if rng.random() < 0.3:
                words = [rng.choice(["user", "Order", "blog", "HTTP", "api_", "x"]) + rng.choice(["Items", "Lines", "items", "URLs", "Boxes", "IDs", "s", "Entries", "Data"])
                         for _ in range(3)]
                doc = rekey(doc, lambda k: words[sum(map(ord, k)) % 3])
            c = {"op": "codegen", "name": rng.choice(["Root", "Foo"]), "input": gen.dump(doc), "options": random_options(rng, doc)}
            yield c
            if rng.random() < 0.25:
                # almost the same sample: whatever is remembered of one shows in the code for the other
                f = rng.choice([str.upper, str.lower, str.title, str.swapcase, lambda k: k + "s", lambda k: k.rstrip("s"),
                                lambda k: k.replace("_", "-"), lambda k: k])
                doc = rekey(doc, f)
                if rng.random() < 0.3:
                    doc = {"data": doc}
                yield dict(c, name=rng.choice([c["name"], f(c["name"])]), input=gen.dump(doc),
                           options=c["options"] if rng.random() < 0.6 else random_options(rng, doc))

    def judge(self, ctx, cases):
        def norm(r):
            return {k: v for k, v in r.items() if k in ("ok", "err", "panic", "stage")}
        first = [norm(self.a.request(c)) for c in cases]
        runs = {"same process": [norm(self.a.request(c)) for c in reversed(cases)][::-1]}
        for i, order in enumerate((1, -1)):
            b = Server(exe=self.exe, cwd=[None, "/"][i], env=[None, self.STRANGE][i])
            runs["fresh process %d" % i] = [norm(b.request(c)) for c in cases[::order]][::order]
            b.close()
        r = self.a.request({"op": "threads", "threads": 4, "jobs": cases})
        if "ok" not in r:
            return ["threads: %r" % r] * len(cases)
        for t, res in enumerate(r["ok"]):
            if not isinstance(res, list):
                return ["thread panicked"] * len(cases)
            runs["thread %d" % t] = [norm(x) for x in res]
        out = []
        for i, c in enumerate(cases):
            bad = None
            for name, res in runs.items():
                ctx.stat("comparisons")
                if res[i] != first[i]:
                    bad = "different output in %s\n%s\n--- %s\n+++ %s" % (
                        name, json.dumps(c, ensure_ascii=False)[:800], json.dumps(first[i])[:700], json.dumps(res[i])[:700])
                    break
            if bad is None and "ok" in first[i]:
                ctx.seen(json.dumps(c, sort_keys=True))
                if ctx.rng.random() < 0.002:
                    ctx.sample({"options": c["options"], "input": c["input"][:200]})
            out.append(bad)
        return out


class C06(Driven):
    id = "C06"
    technique = "heap monitor (counting allocator) and peak-RSS monitor on growing sample files"
    level_note = ("exploration; library: exact peak of live heap bytes; CLI: peak resident set. Bounds are generous constants, so only "
                  "growth proportional to the file is reported")
    rule = ("record structures x position of the large array x unwrap/hints, each with N and 100 N records in a file; non-trivial: "
            "distinct (structure, position, options)")
    shards = 4
    thorough_cap = 2400
    WRAP = [("%s", None, None), ('{"meta":{"a":1},"data":{"rows":%s}}', None, None), ('{"data":%s}', "/data", None),
            ('[%s]', "/0", None), ('%s', None, '{"/-/m": {use_type: "map"}}'), ('{"a":%s,"z":2}', "/a/-", None),
            ('{"skip":%s,"keep":{"a":1}}', "/keep", None), ('{"x":%s}', None, '{"/x": {use_type: "Opaque"}}'),
            ('%s', None, '{"infer_map_threshold": "1"}'),
            ('%s', "/3", None), ('%s', "/-", None), ('[%s,7]', "/1", None), ('{"a":[1,%s]}', "/a/0", '{"/x": {use_type: "Opaque"}}'),
            ('%s', None, '{"/-": {use_type: "Opaque"}}'), ('%s', None, '{"/3": {use_type: "Opaque"}, "/-/zz": {use_type: "Opaque"}}'),
            ('{"a":%s,"b":{"a":2}}', "/-/a", None), ('{"r":%s}', "/-/-", '{"/m": {use_type: "map"}}'),
            ('%s', "/-/m/k0", None), ('%s', "/7/m", None), ('%s', "/-/m/-", None)]
    # those that need records of objects
    OBJECTS = (4, 16, 17, 18, 19)

    def setup(self):
        super().setup()
        self.cli = os.path.join(build.build("cli"), "json_typegen")

    def open(self, ctx):
        super().open(ctx)
        self.dir = tempfile.mkdtemp(prefix="vf-c06-")

    def close(self, ctx):
        super().close(ctx)
        shutil.rmtree(self.dir, ignore_errors=True)

    def cases(self, ctx):
        rng = ctx.rng
        elems = self.ELEMS
        for i, e in enumerate(elems):
            for j in range(3):
                w, unwrap, opts = self.WRAP[0 if j == 0 else rng.choice([i for i in range(1, len(self.WRAP)) if i not in self.OBJECTS and i not in (5, 15)])]
                case = {"wrap": w, "unwrap": unwrap, "options": opts, "n": rng.choice([1200, 1500]), "elems": e,
                        "cli": False, "mode": rng.choice(MODES), "sep": self.SEPS[(i + j) % len(self.SEPS)]}
                if (i + j) % ctx.nshards == ctx.shard:
                    yield case
        for rep in range(2 if ctx.quick else 12):
            for i, (w, unwrap, opts) in enumerate(self.WRAP):
                case = {"wrap": w, "unwrap": unwrap, "options": opts, "n": rng.choice([300, 500]),
                        "seed": rng.randrange(1 << 30), "cli": i % 3 == 0, "mode": rng.choice(MODES),
                        "sep": rng.choice(self.SEPS), "vary": rng.random() < 0.5}
                if i % ctx.nshards == ctx.shard:
                    yield case

    # elements of the large array that are not records
    A13 = "[" + ",".join(["1"] * 13) + "]"
    ELEMS = [["[1]"], ["[1,2]"], ['[1,"a"]'], [A13], ["[]"], ["[[1]]"], ["[[1,2],[3,4]]"], ['["a",{"b":1}]'], ["[{\"a\":[1]}]"],
             ["[1]", A13, "[1,2]", "[]"], ["1"], ['"some string"'], ["null"], ["1.5", "2"], ["{}"], ["null", '{"a":1}', '{"b":[1]}'],
             ["1", '"a"', "[1]", "{}", "null", "true"], ['{"a":[[1]],"b":[[1,2]]}', '{"a":[],"b":null}'], ["true", "null"],
             ['{"k%d":1}' % i for i in range(20)], ["[null]", "[[null]]", "[1]"], ['{"a":{"b":{"c":[1]}}}'], ['"\\u00e9\\n"', '"\\\\"']]

    SEPS = [",", ",\n", ", ", "\r\n,\t", ",\n\n    "]

    def records(self, seed, vary):
        rng = random.Random(seed)
        while True:
            pf = NoShapeAmbiguity.profile(rng, max_depth=3, conflict=rng.choice([0, 0.05]))
            t = gen.gen_template(rng, pf, 3)
            if t[0] != "obj" or not t[1]:
                continue
            recs = []
            for _ in range(60):
                r = gen.instantiate(rng, pf, t)
                if isinstance(r, dict):
                    r["m"] = {"k%d" % j: gen.Num(j) for j in range(rng.choice([2, 3]))}
                    recs.append(gen.dump(r, rng, vary=vary))
            if recs and max(map(len, recs)) < (1500 if vary else 600) and sum(map(len, recs)) / len(recs) > 25:
                return recs

    def write(self, path, case, n, recs):
        pre, post = case["wrap"].split("%s")
        with open(path, "w") as f:
            f.write(pre + "[")
            for i in range(0, n, 60):
                f.write(case["sep"] if i else "")
                f.write(case["sep"].join(recs[j % len(recs)] for j in range(i, min(n, i + 60))))
            f.write("]" + post)
        return os.path.getsize(path)

    def judge(self, ctx, cases):
        out = []
        for c in cases:
            recs = c["elems"] if "elems" in c else self.records(c["seed"], c["vary"])
            recs = [recs[i % len(recs)] for i in range(60)]
            res, bad = [], None
            for k in (c["n"], 100 * c["n"]):
                path = os.path.join(self.dir, "s.json")
                size = self.write(path, c, k, recs)
                sets = {"output_mode": c["mode"]}
                if c["unwrap"]:
                    sets["unwrap"] = c["unwrap"]
                r = self.s.codegen(path, options=c["options"], **sets)
                if "ok" not in r:
                    bad = "no code for a valid file of %d bytes: %.500r" % (size, r)
                    break
                rss = None
                if c["cli"]:
                    o = json.loads(json.dumps(c["options"])) or "{}"
                    extra = 'output_mode: "%s"' % c["mode"] + (', unwrap: "%s"' % c["unwrap"] if c["unwrap"] else "")
                    o = "{" + extra + ("," + o[1:] if o != "{}" else "}")
                    p = subprocess.Popen([self.cli, path, "--options", o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                    _, st, ru = os.wait4(p.pid, 0)
                    p.returncode = st
                    if st != 0:
                        bad = "the CLI fails on a valid file of %d bytes: wait status %d" % (size, st)
                        break
                    rss = ru.ru_maxrss * 1024
                res.append((size, r["peak"], rss, r["ok"]))
                ctx.stat("bytes_processed", size)
            if bad:
                out.append("%s\ncase %s" % (bad, json.dumps(c)))
                continue
            (s1, p1, m1, o1), (s2, p2, m2, o2) = res
            if c["mode"] == "shape" and json.loads(o1) != json.loads(o2):
                bad = "repeating the records changed the output"
            elif p2 > 1.5 * p1 + 0.02 * s2 + 100_000:
                bad = "peak heap grew with the file: %d bytes for a %d byte file, %d for %d" % (p1, s1, p2, s2)
            elif m1 and m2 > m1 + 0.3 * s2 + (3 << 20):
                bad = "peak resident memory of the CLI grew with the file: %d for %d bytes, %d for %d" % (m1, s1, m2, s2)
            if bad:
                bad += "\n" + json.dumps(c)
            else:
                ctx.seen(json.dumps(c, sort_keys=True))
                ctx.sample({"file_bytes": [s1, s2], "peak_heap": [p1, p2], "cli_rss": [m1, m2], "wrap": c["wrap"], "unwrap": c["unwrap"]})
            out.append(bad)
            os.unlink(path)
        return out


def near_miss(rng, t):
    """A pointer token like t that (most likely) is another one."""
    return rng.choice(["0" + t, "00" + t, "+" + t, "-" + t, t + " ", " " + t, t + ".0", t + "e0", t[:-1], t[1:], t.upper(), t.lower(), t.swapcase(),
                       t.replace("~1", "/"[:0]), t.replace("~0", "~00"), t.replace("~1", "~01"), t.replace("_", "-"), t.replace("-", "_"),
                       t + "0", t + "s", "%" + "".join("%02x" % b for b in t.encode())[:2] + t[1:], "#" + t, '"%s"' % t,
                       "".join(chr(0xfee0 + ord(ch)) if "0" <= ch <= "9" else ch for ch in t)])


class C20(Driven):
    id = "C20"
    technique = "online comparison with a reference pointer evaluator plus the inference model"
    level_note = "exploration; trusts the reference evaluator in vf/model.py; a pointer of just / is left open"
    rule = ("documents x pointers derived from their paths (wildcards, escapes, indices, mutated and missing tokens); non-trivial: "
            "distinct (document, pointer) pairs, and at least one value selected")

    def cases(self, ctx):
        rng = ctx.rng
        for _ in range(ctx.count(300000, 6000000)):
            doc = shape_doc(rng, 120) if rng.random() < 0.985 else gen.pointer_doc(rng)
            ps = list(paths(doc))
            p = list(max(rng.sample(ps, min(5, len(ps))), key=len) if rng.random() < 0.1 else rng.choice(ps))
            for i in range(len(p)):
                r = rng.random()
                if r < 0.25:
                    p[i] = "-"
                elif r < 0.29:
                    p[i] = rng.choice(["nope", "0", "1", "12", "", "01", "00", "+1", "1e0", "~", "~2", "255", "256", "257", "65536", "4294967296", "4294967297",
                                       "18446744073709551616", "18446744073709551617"])
                elif r < 0.35:
                    p[i] = near_miss(rng, p[i])
            if rng.random() < 0.07:
                p.append(rng.choice(["-", "0", "x"]))
            ptr = "".join("/" + t for t in p)
            if ptr == "/" or "~" in ptr.replace("~0", "").replace("~1", ""):
                continue
            yield {"input": gen.dump(doc, rng, vary=rng.random() < 0.2), "unwrap": ptr}

    def judge(self, ctx, cases):
        out = []
        for c in cases:
            doc = parse_json(c["input"])
            toks = c["unwrap"].split("/")[1:] if c["unwrap"] else []
            sel = model.unwrap(doc, toks)
            r = self.shape(c["input"], unwrap=c["unwrap"])
            if crashed(r):
                out.append("crash %r on %r" % (r, c))
                continue
            if not sel:
                ctx.stat("nothing_selected")
                out.append(None if "err" in r else "pointer %r selects nothing, but code was generated: %s\n%s" % (
                    c["unwrap"], r["ok"][:300], c["input"][:800]))
                continue
            want = model.infer_many(sel)
            got, err = got_shape(r)
            if err or got != want:
                out.append("unwrap %r: inferred %s\nexpected %s\nsample %s" % (
                    c["unwrap"], err or model.show(got), model.show(want), c["input"][:1000]))
                continue
            ctx.stat("selected_values", len(sel))
            ctx.stat("wildcard" if "-" in toks else "plain")
            if any("~" in t for t in toks):
                ctx.stat("escaped")
            if c["unwrap"]:
                ctx.seen(json.dumps(c, sort_keys=True))
                if ctx.rng.random() < 0.0005:
                    ctx.sample({"input": c["input"][:300], "unwrap": c["unwrap"], "inferred": model.show(want)[:200]})
            out.append(None)
        return out

    def finish(self, m):
        for k in ("nothing_selected", "wildcard", "plain", "escaped"):
            if not m["stats"].get(k):
                raise Inconclusive("never observed: " + k)


class Ambiguous(Exception):
    pass


def hints_at(doc, hints, pos, found):
    """Which hints apply where; raises Ambiguous when two different ones meet in one place."""
    here = {h for p, h in hints if not p}
    if len(here) > 1:
        raise Ambiguous()
    if here:
        found.append((pos, here.pop()))
        if found[-1][1] != "map":
            return
    if isinstance(doc, dict):
        for k, v in doc.items():
            hints_at(v, model.step(hints, k), pos + (k,), found)
    elif isinstance(doc, list):
        for i, v in enumerate(doc):
            hints_at(v, model.step_index(hints, i), pos + (i,), found)


class C21(Driven):
    id = "C21"
    technique = "online comparison with a reference model of hint selection plus the inference model"
    level_note = ("exploration; trusts the reference model; positions where two different hints meet are left open. Languages: "
                  "here the shape output is read; C16 reads the languages, with hints")
    rule = ("documents x 1-4 hints derived from their paths (wildcards, escapes, indices, missing targets), with and without unwrap; "
            "non-trivial: distinct cases where at least one hint applied")

    def cases(self, ctx):
        rng = ctx.rng
        for _ in range(ctx.count(300000, 6000000)):
            doc = shape_doc(rng, 120) if rng.random() < 0.99 else gen.pointer_doc(rng)
            unwrap = ""
            base = doc
            if rng.random() < 0.2:
                ps = [p for p in paths(doc) if p]
                if ps:
                    p = [("-" if rng.random() < 0.3 else t) for t in rng.choice(ps)]
                    unwrap = "".join("/" + t for t in p)
                    sel = model.unwrap(doc, p)
                    base = rng.choice(sel) if sel else doc
                    if unwrap == "/":
                        continue
            ps = list(paths(base))
            objs = [p for p in ps if isinstance(_at(base, p), dict)]
            hints = []
            name = rng.choice(["Opaque", "crate::Foo<Bar>", "Inner", "T"])
            for _ in range(rng.choice([1, 1, 2, 3, 4]) if rng.random() < 0.97 else rng.choice([9, 17, 33])):
                kind = "map" if rng.random() < 0.5 else name
                p = list(rng.choice(objs if kind == "map" and objs and rng.random() < 0.9 else ps))
                for i in range(len(p)):
                    r = rng.random()
                    if r < 0.25:
                        p[i] = "-"
                    elif r < 0.28:
                        p[i] = rng.choice(["nope", "0", "1", "12", "", "01", "3", "256", "257", "4294967296", "4294967297"])
                    elif r < 0.36:
                        t = near_miss(rng, p[i])
                        if "~" not in t.replace("~0", "").replace("~1", ""):
                            p[i] = t
                hints.append(["".join("/" + t for t in p), kind])
            if any(h[0] == "/" and False for h in hints):
                continue
            yield {"input": gen.dump(doc), "unwrap": unwrap, "hints": hints}

    def judge(self, ctx, cases):
        out = []
        for c in cases:
            doc = parse_json(c["input"])
            toks = c["unwrap"].split("/")[1:] if c["unwrap"] else []
            sel = model.unwrap(doc, toks)
            hints = [(tuple(p.split("/")[1:]) if p else (), k) for p, k in c["hints"]]
            try:
                found = []
                for v in sel:
                    hints_at(v, hints, (), found)
            except Ambiguous:
                ctx.stat("left_open")
                out.append(None)
                continue
            opts = "{" + ", ".join('%s: {use_type: %s}' % (rust_str(p), rust_str(k)) for p, k in c["hints"]) + "}"
            r = self.shape(c["input"], options=opts, unwrap=c["unwrap"])
            if crashed(r):
                out.append("crash %r on %r" % (r, c))
                continue
            if r.get("stage") == "options":
                out.append("options block rejected: %s\n%s" % (opts, r["err"]))
                continue
            if not sel:
                out.append(None if "err" in r else "unwrap selects nothing but code was generated: %r" % c)
                continue
            try:
                want = model.infer_many(sel, hints)
            except model.Ambiguous:
                ctx.stat("left_open")
                out.append(None)
                continue
            except model.HintError:
                ctx.stat("map_hint_on_other_kind")
                out.append(None if "err" in r else "a map hint on something that is not an object was accepted: %s -> %s" % (
                    json.dumps(c)[:800], r["ok"][:300]))
                continue
            got, err = got_shape(r)
            if err or got != want:
                out.append("hints %r: inferred %s\nexpected %s\nsample %s" % (
                    c["hints"], err or model.show(got), model.show(want), c["input"][:1000]))
                continue
            ctx.stat("applied_positions", len(found))
            if found:
                ctx.seen(json.dumps(c, sort_keys=True))
                if ctx.rng.random() < 0.0005:
                    ctx.sample({"input": c["input"][:300], "hints": c["hints"], "inferred": model.show(want)[:200]})
            else:
                ctx.stat("hint_matched_nothing")
            out.append(None)
        return out

    def finish(self, m):
        for k in ("map_hint_on_other_kind", "applied_positions", "hint_matched_nothing"):
            if not m["stats"].get(k):
                raise Inconclusive("never observed: " + k)


def _at(doc, p):
    for t in p:
        doc = doc[int(t)] if isinstance(doc, list) else doc[t.replace("~1", "/").replace("~0", "~")]
    return doc
