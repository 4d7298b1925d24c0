"""C22: the options block grammar."""
import json

from .. import gen
from ..drv import Inconclusive, crashed, outcome
from .inference import FORMATS, MODES, STYLES, Driven, parse_json, paths, rust_str
from .languages import lang_doc

STRINGS = ("output_mode", "property_name_format", "import_style", "derives", "field_visibility", "unwrap", "infer_map_threshold",
           "input_mode")
BOOLS = ("deny_unknown_fields", "use_default_for_missing_fields", "allow_option_vec", "collect_additional")
NAMES = set(STRINGS + BOOLS)
CANON = {"PascalCase": "pascalcase", "camelCase": "camelcase", "snake_case": "snakecase", "SCREAMING_SNAKE_CASE": "screamingsnakecase",
         "kebab-case": "kebabcase", "SCREAMING-KEBAB-CASE": "screamingkebabcase", "UPPERCASE": "uppercase", "uppercamelcase": "pascalcase"}
# settings the library exposes as fields; the others only exist in blocks
SETTABLE = ("output_mode", "property_name_format", "import_style", "derives", "field_visibility", "unwrap", "infer_map_threshold",
            "deny_unknown_fields", "use_default_for_missing_fields", "collect_additional")


def random_items(rng, doc):
    items = []
    for name in STRINGS:
        if rng.random() > 0.35:
            continue
        if name == "output_mode":
            v = rng.choice(MODES + ["kotlin"])
        elif name == "property_name_format":
            v = rng.choice(FORMATS + ["pascalcase", "camelcase", "snakecase", "screamingsnakecase", "kebabcase", "uppercamelcase",
                                      "screamingkebabcase", "uppercase", "UPPERCASE", "lowercase"])
        elif name == "import_style":
            v = rng.choice(STYLES)
        elif name == "derives":
            v = rng.choice(["Debug", "", "Debug, Clone", "serde::Serialize, a::b::C", "\u00e9", "a\\b\"c", "Debug,\n  Clone", "X // y",
                            "/* x", "{", "}", ",", "Debug }", "r#\"x\"#", "true", "\t"])
        elif name == "field_visibility":
            v = rng.choice(["", "pub", "pub(crate)", "pub(in a::b)", "pub(super)"])
        elif name == "unwrap":
            p = rng.choice(list(paths(doc)))
            v = "".join("/" + t for t in p)
            if rng.random() < 0.2:
                v = rng.choice(["/nope", "/-", ""])
            if v == "/":
                v = ""
        elif name == "infer_map_threshold":
            v = rng.choice(["0", "1", "2", "7", "100"])
        else:
            v = "json"
        items.append([name, v])
    for name in BOOLS:
        if rng.random() < 0.3:
            items.append([name, rng.random() < 0.6])
    used = set()
    for _ in range(rng.choice([0, 0, 0, 1, 2, 3])):
        p = list(rng.choice(list(paths(doc))))
        if p and rng.random() < 0.3:
            p[rng.randrange(len(p))] = rng.choice(["-", "0", "nope", "", "~1", "\u00e9", "a b", "\""])
        ptr = "".join("/" + t for t in p)
        if ptr in used:
            continue
        used.add(ptr)
        items.append([ptr, [["use_type", rng.choice(["Opaque", "crate::T<X>", "Foo", "x y"])]]])
    rng.shuffle(items)
    return items


def movable(items):
    """Hints that could meet keep their relative order."""
    ptrs = [k for k, v in items if isinstance(v, list)]
    return len(ptrs) <= 1 or not any(t == "-" or t.isdigit() for p in ptrs for t in p.split("/"))


def rearrange(rng, items):
    if movable(items):
        out = list(items)
        rng.shuffle(out)
        return out
    hints = [x for x in items if isinstance(x[1], list)]
    order = list(items)
    rng.shuffle(order)
    it = iter(hints)
    return [next(it) if isinstance(x[1], list) else x for x in order]


def spell(rng, s, style):
    if style == "json":
        return json.dumps(s, ensure_ascii=False)
    r = rng.random()
    if r < 0.6:
        return rust_str(s)
    if r < 0.8 and "\r" not in s:
        h = "#" * rng.choice([1, 1, 2])
        if '"' + h not in s:
            return "r%s\"%s\"%s" % (h, s, h)
    out = []
    for c in s:
        if rng.random() < 0.4:
            out.append("\\x%02x" % ord(c) if ord(c) < 128 and rng.random() < 0.5 else "\\u{%x}" % ord(c))
        else:
            out.append(rust_str(c)[1:-1])
    return '"%s"' % "".join(out)


def word(rng, name, style):
    ident = name.replace("_", "a").isalnum() and name.isascii() and not name[:1].isdigit() and name != ""
    if style == "bare" and ident or style == "mixed" and ident and rng.random() < 0.5:
        return name
    if style == "json":
        return json.dumps(name, ensure_ascii=False)
    return spell(rng, name, style) if rng.random() < 0.3 else rust_str(name)


def tokens(rng, items, style):
    out = ["{"]
    for i, (k, v) in enumerate(items):
        if i:
            out.append(",")
        out.append(word(rng, k, style))
        if v is True and style != "json" and rng.random() < 0.5:
            continue
        out.append(":")
        if isinstance(v, list):
            out += tokens(rng, v, style)
        elif isinstance(v, bool):
            out.append("true" if v else "false")
        else:
            out.append(spell(rng, v, style))
    if items and style != "json" and rng.random() < 0.4:
        out.append(",")
    out.append("}")
    return out


def join(rng, toks, style=None):
    r = rng.random()
    if r < 0.3:
        return "".join(toks)
    if r < 0.6:
        return " ".join(toks)
    return "".join(rng.choice(["", "", " ", "\n", "\t", "\r\n", "  \n "]) + t for t in toks) + rng.choice(["", " ", "\n"])


def canonical(items):
    """(block with what only blocks can set, library settings)"""
    rest, sets = [], {}
    for k, v in items:
        if k in SETTABLE:
            if k == "infer_map_threshold":
                v = int(v)
            elif k == "property_name_format":
                v = CANON.get(v, v)
            sets[k] = v
        else:
            rest.append("%s: %s" % (rust_str(k), "{ %s }" % ", ".join("%s: %s" % (a, rust_str(b)) for a, b in v) if isinstance(v, list)
                                    else str(v).lower() if isinstance(v, bool) else rust_str(v)))
    return "{ " + ", ".join(rest) + " }", sets


def corrupt(rng, items):
    """-> (what, tokens) of a block that must be refused"""
    kind = rng.choice(["name", "name", "hint name", "kind", "kind", "kind", "cut", "after", "structure", "structure", "no block"])
    style = rng.choice(["bare", "quoted", "mixed"])
    if kind == "name":
        base = rng.choice(sorted(NAMES))
        i = rng.randrange(len(base))
        bad = rng.choice([base[:i] + base[i + 1:], base[:i] + base[i] + base[i:], base.upper(), base.capitalize(), base + "s", "x" + base,
                          base.replace("_", ""), base.replace("_", "-"), "hints", "name", "foo", "use_type", "type_name", "rename",
                          " " + base, base + " ", "~1a", "-", "0", "a/b", "#/a", "serde"])
        if bad in NAMES or bad.startswith("/") or bad == "":
            bad = "unknown_option"
        v = rng.choice(["x", True, False, [], [["use_type", "map"]]])
        i = rng.randint(0, len(items))
        return "unknown option %r" % bad, tokens(rng, items[:i] + [[bad, v]] + items[i:], style)
    if kind == "hint name":
        bad = rng.choice(["use_typ", "type", "rename", "Use_type", "derives", "deny_unknown_fields", "", "/a", "map"])
        i = rng.randint(0, len(items))
        sub = [["use_type", "map"]] if rng.random() < 0.5 else []
        sub.insert(rng.randint(0, len(sub)), [bad, rng.choice(["x", True, []])])
        return "unknown option %r for a field" % bad, tokens(rng, items[:i] + [["/a", sub]] + items[i:], style)
    if kind == "kind":
        name = rng.choice(STRINGS + BOOLS + ("/a", "", "use_type"))
        if name in BOOLS:
            v = rng.choice(['"true"', '""', "1", "0", "null", "{}", "[]", "True", "yes", "truee", "t", "'t'", ""])
        elif name in STRINGS or name == "use_type":
            v = rng.choice(["true", "3", "null", "{}", "[]", "[\"x\"]", "Debug", "'x'", "1.5", None, ""])
        else:
            v = rng.choice(["true", "3", "null", '"map"', "[]", "map", None, ""])
        a = [word(rng, name, style)] + ([] if v is None else [":"] + [x for x in [v] if x])
        if name == "use_type":
            a = ['"/a"', ":", "{"] + a + ["}"]
        before, after = tokens(rng, items, "quoted"), []
        if before[-2] != "," and before[-2] != "{":
            before.insert(-1, ",")
        if rng.random() < 0.5:
            after = [","]
        return "%s given as %s" % (name or "root hint", v), before[:-1] + a + after + ["}"]
    if kind == "cut":
        t = tokens(rng, items, style)
        return "a block cut off", t[:rng.randrange(1, len(t))]
    if kind == "after":
        t = tokens(rng, items, style)
        return "something after the block", t + [rng.choice(["}", ",", "x", "{", "{}", ";", '"a"', ")", "true", "\u00e9", "\x00", ":", "/", "#"])]
    if kind == "structure":
        t = tokens(rng, items + [["derives", "Debug"], ["unwrap", ""]], style)
        sep = [i for i, x in enumerate(t) if x in (",", ":") and not (x == "," and t[i + 1] == "}")]
        i = rng.choice(sep)
        how = rng.choice(["drop", "double", "replace"])
        bad = {"drop": t[:i] + t[i + 1:], "double": t[:i] + [t[i]] + t[i:], "replace": t[:i] + [rng.choice(["=", ";", "=>", "."])] + t[i + 1:]}[how]
        return "%s %s" % (how, t[i]), bad
    return "no block", [rng.choice(["", " ", "derives", "[]", "null", "true", "\"derives\"", "derives: \"Debug\"", "(", "}", ": {}", "{ {} }",
                                    "{\"\"}", "{:}", "{,}"])]


class C22(Driven):
    id = "C22"
    technique = "online comparison of options blocks in random spellings with the same settings made through the library, and a must-refuse monitor"
    level_note = ("exploration; the oracle is the library configured directly with the same settings (explicit enum values, no parsing), so the "
                  "meaning of each option is left to C10-C25. Strings are spelled as Rust literals (or as JSON without \\u escapes)")
    rule = ("random option sets in 4 spellings each, and corrupted blocks; non-trivial: distinct blocks with two or more options, and distinct "
            "corrupted blocks")
    counts = (150000, 4000000)

    def cases(self, ctx):
        rng = ctx.rng
        for _ in range(ctx.count(*self.counts)):
            doc = lang_doc(rng, 60)
            if not isinstance(doc, (dict, list)):
                doc = {"a": doc}
            if rng.random() < 0.4:
                what, t = corrupt(rng, random_items(rng, doc))
                yield {"bad": what, "block": join(rng, t), "input": gen.dump(doc)}
                continue
            items = random_items(rng, doc)
            blocks = []
            styles = ["bare", "quoted", "mixed"]
            if not any(ord(ch) < 32 and ch not in "\n\r\t" for k, v in items for ch in k + (v if isinstance(v, str) else "")):
                styles.append("json")    # otherwise JSON would need escapes that Rust literals lack
            for style in rng.sample(styles, rng.choice([1, 2])):
                order = rearrange(rng, items)
                t = tokens(rng, order, style)
                text = join(rng, t)
                if style == "json":
                    json.loads(text)
                blocks.append([style, text, [k for k, v in order if isinstance(v, list)] == [k for k, v in items if isinstance(v, list)]])
            yield {"items": items, "blocks": blocks, "input": gen.dump(doc), "mode": rng.choice(MODES)}

    def judge(self, ctx, cases):
        return [self.one(ctx, c) for c in cases]

    def one(self, ctx, c):
        if "bad" in c:
            for op, req in (("block", {"op": "optdebug", "options": c["block"]}),
                            ("macro", {"op": "macro_input", "input": '"Root", "{}", %s' % c["block"]}),
                            ("macro with a string", {"op": "macro_input", "input": '"Root", "{}", %s' % rust_str(c["block"])})):
                if op == "macro" and c["bad"] == "no block" and (c["block"].strip() == "" or c["block"].strip().startswith('"')):
                    continue
                r = self.s.request(req)
                if "err" not in r:
                    return "%s (%s): %r was accepted: %s" % (op, c["bad"], c["block"], json.dumps(r)[:600])
                ctx.stat("refused " + op)
            ctx.stat("corrupted: " + c["bad"].split(" given")[0][:0] + " ".join(c["bad"].split()[:2]))
            ctx.seen(c["block"])
            return None
        base, sets = canonical(c["items"])
        want_dbg = self.s.request({"op": "optdebug", "options": base, "set": sets})
        if "ok" not in want_dbg:
            return "the options %s are refused: %s" % (base, want_dbg)
        want = outcome(self.s.codegen(c["input"], options=base, **sets))
        want2 = outcome(self.s.codegen(c["input"], options=base, **dict(sets, output_mode=c["mode"])))
        if want[0] in ("panic", "died", "hang"):
            return "the library crashed with the settings %r (rest: %s): %r\ninput %s" % (sets, base, want, c["input"][:800])
        for style, block, same_order in c["blocks"]:
            if same_order:
                got = self.s.request({"op": "optdebug", "options": block})
                if got.get("ok") != want_dbg["ok"]:
                    return "block %r\nshould mean the settings %r (rest: %s)\nexpected %s\nobserved %s" % (block, sets, base, want_dbg, got)
            got = outcome(self.s.codegen(c["input"], options=block))
            got2 = outcome(self.s.codegen(c["input"], options=block, output_mode=c["mode"]))
            for g, w in ((got, want), (got2, want2)):
                if g != w:
                    return "block %r\nshould mean the settings %r (rest: %s)\ninput %s\nexpected %.1500s\nobserved %.1500s" % (
                        block, sets, base, c["input"][:500], w[-1], g[-1])
            ctx.stat("spelling " + style)
            if len(c["items"]) >= 2:
                ctx.seen(block)
            ctx.sample({"block": block, "code": got[-1][:300]})
        for k, v in c["items"]:
            ctx.stat("option " + (k if k in NAMES else "pointer"))
        ctx.stat("code generated" if want[0] == "ok" else "generation failed alike")
        return None

    def finish(self, m):
        for k in NAMES | {"pointer"}:
            if not m["stats"].get("option " + k):
                raise Inconclusive("option %s was never used" % k)
        return {}
