"""Workload generation: hostile JSON samples and their spellings."""
import random

I64_MIN, I64_MAX = -(1 << 63), (1 << 63) - 1


class Num:
    """A JSON number, kept as its spelling."""
    __slots__ = ("text",)

    def __init__(self, text):
        self.text = str(text)

    def is_int(self):
        t = self.text
        body = t[1:] if t.startswith("-") else t
        if not body.isdigit():
            return False
        return t != "-0" and I64_MIN <= int(t) <= I64_MAX

    def __eq__(self, o):
        return isinstance(o, Num) and o.text == self.text

    def __hash__(self):
        return hash(self.text)

    def __repr__(self):
        return "Num(%s)" % self.text


PLAIN = ["id", "name", "value", "items", "tags", "user", "createdAt", "is_active", "address", "x", "y",
         "data", "children", "count", "price", "firstName", "last_name", "URL", "userId", "http2Server",
         "line1", "line2", "geo", "lat", "meta", "parent", "next", "a", "b", "c", "d"]
KEYWORDS = ["type", "class", "fn", "self", "Self", "super", "crate", "dyn", "async", "await", "gen", "try", "in",
            "is", "as", "None", "True", "False", "def", "from", "lambda", "object", "val", "var", "fun", "when",
            "typealias", "typeof", "interface", "package", "null", "true", "false", "enum", "default", "function",
            "new", "let", "const", "static", "yield", "struct", "impl", "trait", "match", "mod", "move", "mut",
            "ref", "return", "where", "while", "loop", "if", "else", "for", "do", "break", "continue", "use",
            "unsafe", "extern", "pub", "box", "priv", "macro", "virtual", "abstract", "final", "override",
            "become", "unsized", "union", "auto", "and", "or", "not", "pass", "raise", "with", "global",
            "nonlocal", "del", "elif", "except", "finally", "assert", "import", "throw", "this", "void",
            "delete", "export", "extends", "instanceof", "switch", "case", "catch", "debugger", "private",
            "protected", "public", "implements", "Type", "Class", "Object", "Fn", "IF", "Async", "_type", "type_"]
TYPENAMES = ["string", "String", "option", "Option", "vec", "Vec", "Value", "hash_map", "HashMap", "any", "Any",
             "optional", "Optional", "base_model", "BaseModel", "field", "Field", "list", "List", "map", "Map",
             "long", "Long", "double", "boolean", "Boolean", "pair", "Pair", "triple", "int", "Int", "str", "Str",
             "float", "Float", "bool", "Bool", "dict", "Dict", "tuple", "Tuple", "json", "JSON", "copy", "schema",
             "validate", "construct", "fields", "number", "Number", "Object", "array", "Array", "record", "Record",
             "z", "serde", "std", "root", "Root", "root2", "Root2", "GeneratedType", "generated_type", "generatedType",
             "additional_fields", "additionalFields", "model_config", "typing", "Typing", "pydantic", "Pydantic",
             "json_property", "serializable", "Default", "default", "debug", "clone", "Serialize", "Deserialize",
             "undefined", "unknown", "never", "symbol", "i64", "f64", "u8", "usize", "Some", "none", "Ok", "Err",
             "partial", "readonly", "pick"]
COLLIDE = ["fooBar", "foo_bar", "foo-bar", "FooBar", "FOO_BAR", "foo bar", "foobar", "foo.bar", "foo", "Foo", "FOO",
           "foo2", "foo_2", "Foo2", "foo3", "foo_bar2", "fooBar2", "a", "A", "x1", "x_1", "X1", "n1", "1", "f_o_o",
           "item", "Item", "items", "Items", "ITEMS", "cookie", "cookies"]
SYNTAX = ['a"b', "a\\b", "\\", '"', "a\nb", "a\tb", "a\rb", "$ref", "${x}", "$", "$a", "a$b", "@type", "#", "a/b",
          "m~n", "~1", "-", "", " ", "  lead", "trail ", "1foo", "123", "0", "+1", "_1foo", "_", "__", "é", "日本", "😀",
          "a\u2028b", "\u0000", "\u0007", "\u007f", "\u0085", "a*/b", "//c", "/*", "a'b", "'", "`q`", "{", "}", "{}",
          "<T>", "a:b", "a.b", "a,b", "constructor", "toString", "hasOwnProperty", "ünï", "ſ", "Ünder", "été",
          "\u0301x", "a\u0301", "ﬀ", "İ", "ß", "%s", "{0}", "\\u0041", "\\n", "#{x}", "a=b", "a;b", "[0]", "&amp;",
          "!", "*", "?", "a?", "|", "^", "(", ")", "\ufeff", "\u00a0", "\u200b", "\u3000", "foo\u00a0bar"]
PLURAL = ["movies", "series", "boxes", "statuses", "news", "cities", "classes", "children", "types", "tables",
          "pipes", "bus", "class", "analysis", "s", "S", "es", "ies", "Cookies", "photos", "IDs", "ids", "CATEGORIES",
          "\u0130\u0130tems", "\u212a\u212a\u212as", "\u1e9e\u1e9eies", "\u0130\u0130s", "\u00c5ngstr\u00f6ms", "\U0001f600s", "\u65e5\u672cies"]
FRESH = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-"
UNI = "éæøå日本語кириллица😀\U0001f468\u200d\U0001f469ßİſ\u0301"


class Profile:
    """Knobs for one document."""

    def __init__(self, rng, hostile=None, avoid=(), ascii_only=False, max_depth=None, conflict=None, max_fields=None,
                 fixed=()):
        self.hostile = rng.choice([0.0, 0.2, 0.6, 1.0]) if hostile is None else hostile
        self.avoid = set(avoid)
        self.max_depth = rng.choice([1, 2, 3, 3, 4, 5]) if max_depth is None else max_depth
        self.conflict = rng.choice([0, 0, 0.05, 0.3]) if conflict is None else conflict
        self.missing = rng.choice([0, 0.1, 0.4])
        self.null = rng.choice([0, 0.1, 0.3])
        self.reuse = rng.choice([0, 0, 0.4])
        self.max_fields = rng.choice([2, 4, 7]) if max_fields is None else max_fields
        self.tuples = rng.choice([0.05, 0.3])
        self.structs = []


def gen_key(rng, pf, used):
    for _ in range(50):
        if rng.random() < pf.hostile:
            r = rng.random()
            if r < 0.25:
                k = rng.choice(KEYWORDS)
            elif r < 0.45:
                k = rng.choice(TYPENAMES)
            elif r < 0.62:
                k = rng.choice(COLLIDE)
            elif r < 0.82:
                k = rng.choice(SYNTAX)
            elif r < 0.9:
                k = rng.choice(PLURAL)
            elif r < 0.915:
                k = number_key(rng)
            elif r < 0.95:
                k = "".join(rng.choice(FRESH) for _ in range(rng.randint(1, 9)))
            elif r < 0.994:
                k = "".join(rng.choice(FRESH + UNI) for _ in range(rng.randint(1, 6)))
            else:
                k = long_key(rng)
        else:
            k = rng.choice(PLAIN + PLURAL[:8])
        if k not in used and k not in pf.avoid:
            return k
    n = 0
    while "key%d" % n in used:
        n += 1
    return "key%d" % n


def number_key(rng):
    """A key that reads as a number, which languages may spell in another way."""
    return rng.choice(["0", "1", "7", "10", "007", "010", "08", "00", "1e3", "1E3", "1e21", "1.0", "1.50", ".5", "5.", "-1", "-0", "+1", "0x1F", "0b1",
                       "0o7", "1_000", "1n", "NaN", "Infinity", "-Infinity", "1L", "2u8", "1f", "123456789012345678901234567890",
                       "9007199254740993", "4294967295", "18446744073709551616", "1" + "0" * 21, "1.0000000000000000001"])


def long_key(rng):
    """A key so long that whatever cuts names shortens it, next to others that differ only at the end."""
    n = rng.choice([33, 65, 129, 130, 257, 300, 1025])
    base = rng.choice(["aVeryLongKey", "long_key_", "x", "Ab", "\u00e9t", "k-"])
    return (base * n)[:n] + rng.choice(["", "1", "2", "a", "B", "_", "s"])


PARTS = ["foo", "bar", "a", "b", "x", "id", "url", "user", "name", "2", "1", "12", "3d", "x1", "is", "type", "http2", "get", "\u00e9t\u00e9"]


def styled_key(rng):
    """A key in one of the usual styles, so that it is, or is almost, what some renaming rule makes of another style."""
    ps = [rng.choice(PARTS) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    cap = [p[:1].upper() + p[1:] for p in ps]
    k = rng.choice(["_".join(ps), ps[0] + "".join(cap[1:]), "".join(cap), "_".join(ps).upper(), "-".join(ps), "-".join(ps).upper(),
                    "".join(ps), "".join(ps).upper(), "_".join(cap), "-".join(cap), " ".join(ps), "__".join(ps), "_" + "_".join(ps)])
    return k + rng.choice(["", "", "", "", "2", "1", "_", "_2", "10", "-", "-2", "X", "x"])


def scaled(rng, top=300):
    """A sample that is large in one way: many keys, many records, many structures, long names or long texts."""
    n = max(1, rng.choice([top, top // 2, top // 3, top // 20, 13, 40]))
    leaf = rng.choice([lambda i: Num(i), lambda i: "s%d" % i, lambda i: rng.choice([Num(i), "x", None, True]), lambda i: [Num(i)],
                       lambda i: Num("%d.5" % i) if i == n - 1 else Num(i), lambda i: None if i == n - 1 else "t"])
    key = rng.choice([lambda i: "k%d" % i, lambda i: "key_%d" % i, lambda i: "item %d" % i, lambda i: str(i), lambda i: "aB" * (i % 7) + "c%d" % i])
    kind = rng.choice(["keys", "keys", "records", "rare", "lists", "types", "text", "names", "chain"])
    if kind == "keys":
        d = {key(i): leaf(i) for i in range(n)}
        return rng.choice([d, {"m": d, "z": Num(1)}, [d, dict(list(d.items())[::-1])], [d, dict(list(d.items())[:n - 1])]])
    if kind == "records":
        return [{"id": Num(i), "v": leaf(i)} for i in range(n)]
    if kind == "rare":
        at = rng.randrange(n)
        return [dict({"id": Num(i)}, **({"rare": leaf(n - 1), "id": rng.choice([Num(i), "x"])} if i == at else {})) for i in range(n)]
    if kind == "lists":
        return {"l": [leaf(i) for i in range(n)], "ll": [[leaf(j) for j in range(i % 15)] for i in range(max(1, n // 10))]}
    if kind == "types":
        m = max(1, min(n, 120) // 2)
        return {key(i): {"f%d" % i: leaf(i), "g": [{"h%d" % i: Num(i)}]} for i in range(m)}
    if kind == "text":
        return {"a": rng.choice(["x", "\u00e9", "\U0001f600", '"', "\\", "line\n"]) * min(20 * n, 8000), "b": leaf(0)}
    if kind == "names":
        return {k: rng.choice([{"x" + k: Num(1)}, [{k: "a"}], Num(1)]) for k in (long_key(rng) for _ in range(rng.choice([1, 2, 4])))}
    d = {"end": leaf(0)}
    for i in range(min(n, rng.choice([20, 60, 60, 100]))):
        d = {key(i): d} if rng.random() < 0.8 else [d]
    return d if isinstance(d, dict) else {"top": d}


def variant(rng, v, p=0.15):
    """Nearly the same value: here and there less, more or differently specific."""
    if rng.random() < p:
        r = rng.random()
        if isinstance(v, list):
            return [] if r < 0.5 else v[:-1] if r < 0.65 else v + v[:1] if r < 0.8 else [None] + v if r < 0.9 else None
        if isinstance(v, dict):
            return {} if r < 0.15 else None if r < 0.3 else dict(list(v.items())[::-1]) if r < 0.6 else dict(list(v.items())[:-1]) if r < 0.8 else [v]
        return None if r < 0.4 else Num("1.5") if isinstance(v, Num) and r < 0.6 else "x" if r < 0.7 else []
    if isinstance(v, list):
        return [variant(rng, x, p) for x in v]
    if isinstance(v, dict):
        return {k: variant(rng, x, p) for k, x in v.items()}
    return v


def cousins(rng, pf):
    """Objects of almost one structure at several positions, so that types are shared, or must not be."""
    keys = []
    while len(keys) < 3:
        keys.append(gen_key(rng, pf, keys))

    def val(d):
        r = rng.random()
        if d <= 0 or r < 0.25:
            return rng.choice([Num(1), "s", True, Num("0.5"), None, []])
        if r < 0.65:
            return [val(d - 1) for _ in range(rng.choice([0, 1, 2, 2, 3]))]
        return {rng.choice(keys + ["m", "n", "k"]): val(d - 1) for _ in range(rng.choice([1, 1, 2, 3]))}
    base = {rng.choice(keys + ["m", "n"]): val(3) for _ in range(rng.choice([1, 1, 2]))}
    out = [base]
    for _ in range(rng.choice([1, 1, 2, 3])):
        out.append(variant(rng, rng.choice(out), rng.choice([0.05, 0.15, 0.3])))
    r = rng.random()
    d = {}
    for i, v in enumerate(out):
        d[rng.choice(keys + ["p", "q", "r", "v%d" % i])] = v if rng.random() < 0.6 else [v]
    return d if r < 0.8 else [d, variant(rng, d)] if r < 0.9 else {"w": d, "z": variant(rng, d)}


def pointer_doc(rng):
    """A sample in which positions are far down or far along."""
    leaf = lambda: gen_scalar(rng, rng.choice(SCALARS))
    if rng.random() < 0.5:
        d, forks = {"end": leaf()}, 0
        for i in range(rng.choice([7, 10, 17, 33, 60])):
            k = rng.choice(["k%d" % i, "next", "a", "0", "é/~"])
            r = rng.random()
            if r > 0.85 and forks < 4:  # few: a tuple is read in two ways, so the model's time doubles with each
                forks += 1
                d = [leaf(), d, leaf()]
            else:
                d = {k: d} if r < 0.5 else [d] if r < 0.6 else {"o": leaf(), k: d, "z": leaf()}
        return d if isinstance(d, dict) else {"top": d}
    n = rng.choice([13, 20, 101, 120, 257, 300])
    odd = {rng.randrange(n): rng.choice([leaf(), {"x": leaf()}, {"v": leaf(), "w": leaf()}, [leaf()]]) for _ in range(3)}
    rows = [odd.get(i, {"v": Num(i)}) for i in range(n)]
    return rng.choice([rows, {"rows": rows}, {"k%d" % i: v for i, v in enumerate(rows)}, [rows, rows[::-1]]])


# templates: ("scalar", kind) ("obj", [(key, tmpl, p_missing, p_null)]) ("arr", tmpl, lo, hi) ("tup", [tmpl])
SCALARS = ["int", "int", "str", "str", "bool", "float", "null", "bigint", "datelike"]


def gen_template(rng, pf, depth):
    r = rng.random()
    if depth <= 0 or r < 0.35:
        return ("scalar", rng.choice(SCALARS))
    if r < 0.7:
        if pf.structs and rng.random() < pf.reuse:
            return rng.choice(pf.structs)
        n = rng.choice([0] + list(range(1, pf.max_fields + 1)) * 2)
        used, fields = set(), []
        for _ in range(n):
            k = gen_key(rng, pf, used)
            used.add(k)
            fields.append((k, gen_template(rng, pf, depth - 1),
                           pf.missing if rng.random() < 0.5 else 0, pf.null if rng.random() < 0.5 else 0))
        t = ("obj", fields)
        pf.structs.append(t)
        return t
    if r < 0.7 + 0.3 * pf.tuples:
        n = rng.choice([2, 2, 3, 3, 4, 11, 12, 13])
        return ("tup", [gen_template(rng, pf, depth - 1 if n < 5 else min(depth - 1, 1)) for _ in range(n)])
    lo, hi = rng.choice([(0, 0), (0, 1), (0, 3), (1, 1), (1, 4), (2, 2), (3, 5), (11, 14)])
    return ("arr", gen_template(rng, pf, depth - 1 if hi < 6 else min(depth - 1, 2)), lo, hi)


INTS = ["0", "1", "-1", "42", "127", "255", "-128", "65535", "2147483648", "9007199254740993"]
BIG = [str(I64_MAX), str(I64_MIN), str(I64_MAX + 1), str(I64_MIN - 1), "18446744073709551615",
       "18446744073709551616", "123456789012345678901234567890"]
FLOATS = ["0.5", "1.0", "-2.25", "1e5", "1E+2", "2e-3", "-0", "-0.0", "0e0", "3.0e2", "1.5E3", "123456.789", "-1e2",
          "0.1", "1e15"]
STRS = ["", "a", "hello world", "2020-01-01", "null", "true", "0", 'q"uote', "back\\slash", "new\nline", "é日本😀",
        "\u2028", "{}", "[1]", "https://example.com/a?b=c&d=e", "\u0000", "x" * 40,
        'json_typegen!("A", "{}");', "see json_typegen!(x), below", "CREATE TABLE t (a INT);", "http://a.b/c", "Error: x", "-", "/", "#[serde]",
        "*/", "//", "${x}", "$ref", "%s", "--help", "unsafe"]


def gen_scalar(rng, kind):
    if kind == "int":
        return Num(rng.choice(INTS)) if rng.random() < 0.7 else Num(rng.randint(-10**6, 10**6))
    if kind == "bigint":
        return Num(rng.choice(BIG)) if rng.random() < 0.5 else Num(rng.choice(INTS))
    if kind == "float":
        r = rng.random()
        return Num(rng.choice(FLOATS)) if r < 0.7 else Num(rng.choice(INTS)) if r < 0.85 else \
            Num("%d.%d" % (rng.randint(-99, 99), rng.randint(1, 999)))
    if kind == "str":
        return rng.choice(STRS)
    if kind == "datelike":
        return "2024-0%d-1%dT00:00:00Z" % (rng.randint(1, 9), rng.randint(0, 9))
    if kind == "bool":
        return rng.random() < 0.5
    return None


def instantiate(rng, pf, t, depth=0):
    if rng.random() < pf.conflict * 0.3:
        return gen_scalar(rng, rng.choice(SCALARS)) if rng.random() < 0.8 else rng.choice([{}, []])
    if t[0] == "scalar":
        return gen_scalar(rng, t[1])
    if t[0] == "obj":
        items = []
        for k, sub, pm, pn in t[1]:
            if rng.random() < pm:
                continue
            items.append((k, None if rng.random() < pn else instantiate(rng, pf, sub, depth + 1)))
        if rng.random() < 0.2:
            rng.shuffle(items)
        return dict(items)
    if t[0] == "tup":
        return [instantiate(rng, pf, s, depth + 1) for s in t[1]]
    n = rng.randint(t[2], t[3])
    return [None if rng.random() < pf.null * 0.3 else instantiate(rng, pf, t[1], depth + 1) for _ in range(n)]


def gen_doc(rng, pf=None, records=None):
    """A sample document: an object, or an array of records following one template."""
    pf = pf or Profile(rng)
    t = gen_template(rng, pf, pf.max_depth)
    tries = 0
    while t[0] == "scalar":
        t = gen_template(rng, pf, pf.max_depth)
        tries += 1
        if tries > 20:
            t = ("obj", [("a", ("scalar", "int"), 0, 0)])
    if t[0] == "obj" and (records or rng.random() < 0.6):
        n = records or rng.choice([1, 2, 2, 3, 4, 13])
        return [instantiate(rng, pf, t) for _ in range(n)]
    d = instantiate(rng, pf, t)
    while not isinstance(d, (dict, list)):
        d = instantiate(rng, pf, t)
    return d


def size(d):
    if isinstance(d, dict):
        return 1 + sum(size(v) for v in d.values())
    if isinstance(d, list):
        return 1 + sum(size(v) for v in d)
    return 1


def small_doc(rng, mk, limit=400):
    for _ in range(200):
        d = mk()
        if size(d) <= limit:
            return d
    return {"a": Num(1)}


# ---------------------------------------------------------------- spelling
SHORT = {'"': '\\"', "\\": "\\\\", "\n": "\\n", "\r": "\\r", "\t": "\\t", "\b": "\\b", "\f": "\\f"}


EDGES = ([0, 7, 8, 9, 0xa, 0xb, 0xc, 0xd, 0x1b, 0x1f, 0x20, 0x22, 0x2f, 0x5c, 0x7e, 0x7f, 0x80, 0x85, 0xa0, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0x2028,
          0x2029, 0xd7ff, 0xe000, 0xfdd0, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x103ff, 0x10400, 0x1f600, 0x1ffff, 0x3ffff, 0xffffd, 0x100000,
          0x10fbff, 0x10fc00, 0x10ffff])


def edge_char(rng):
    """A character at the edge of a range: control characters, UTF-8 lengths, the halves of surrogate pairs"""
    r = rng.random()
    if r < 0.5:
        return chr(rng.choice(EDGES))
    if r < 0.75:
        return chr(rng.randrange(0x20))
    c = rng.choice(EDGES) + rng.randint(-2, 2)
    return chr(c) if 0 <= c <= 0x10ffff and not 0xd800 <= c <= 0xdfff else "x"


def _u(c):
    n = ord(c)
    if n < 0x10000:
        return "\\u%04x" % n
    n -= 0x10000
    return "\\u%04x\\u%04X" % (0xD800 + (n >> 10), 0xDC00 + (n & 0x3FF))


def spell_str(s, rng=None, p=0.0):
    out = ['"']
    for c in s:
        if rng is not None and rng.random() < p:
            if c == "/" and rng.random() < 0.5:
                out.append("\\/")
            else:
                out.append(_u(c))
        elif c in SHORT:
            out.append(SHORT[c])
        elif ord(c) < 0x20:
            out.append(_u(c))
        else:
            out.append(c)
    out.append('"')
    return "".join(out)


def spell_num(n, rng, vary):
    t = n.text
    if not vary or n.is_int():
        return t
    if rng.random() < 0.3 and "e" in t:
        return t.replace("e", "E")
    if rng.random() < 0.3 and ("." in t) and "e" not in t.lower():
        return t + "0"
    return t


def dump(d, rng=None, vary=False):
    """JSON text of d. With vary, randomly chosen white space, escapes and key order is kept."""
    out = []

    def ws():
        if vary:
            r = rng.random()
            if r < 0.3:
                out.append(rng.choice([" ", "\n", "\t", "\r\n", "  \n\t "]))

    p = rng.choice([0, 0.1, 1.0]) if vary else 0

    def go(v):
        ws()
        if v is None:
            out.append("null")
        elif v is True:
            out.append("true")
        elif v is False:
            out.append("false")
        elif isinstance(v, Num):
            out.append(spell_num(v, rng, vary))
        elif isinstance(v, str):
            out.append(spell_str(v, rng if vary else None, p))
        elif isinstance(v, list):
            out.append("[")
            for i, x in enumerate(v):
                if i:
                    out.append(",")
                go(x)
            ws()
            out.append("]")
        else:
            out.append("{")
            for i, (k, x) in enumerate(v.items()):
                if i:
                    out.append(",")
                ws()
                out.append(spell_str(k, rng if vary else None, p))
                ws()
                out.append(":")
                go(x)
            ws()
            out.append("}")
        ws()

    go(d)
    return "".join(out)


def plain(d):
    """Python value as json.loads would give it (numbers as int/float)."""
    if isinstance(d, Num):
        t = d.text
        return int(t) if t.lstrip("-").isdigit() and t != "-0" else float(t)
    if isinstance(d, list):
        return [plain(x) for x in d]
    if isinstance(d, dict):
        return {k: plain(v) for k, v in d.items()}
    return d
