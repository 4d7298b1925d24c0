"""Observers of generated code: each reads one output language back into declared types.

A Module has declarations (name -> struct fields or alias) in order, imports, and type
expressions as small ASTs. `view` resolves one level of a type to a language-neutral form:
 ("any",) ("anynn",) ("int",) ("float",) ("num",) ("str",) ("bool",) ("list", t) ("tuple", [t], exact)
 ("map", t) ("struct", [Field], declared name or None) ("nullable", t) ("name", text) ("other", text)
A Malformed exception means that the text is not legal in its language (as far as the observer knows).
"""
import ast
import json
import re
import unicodedata


class Malformed(Exception):
    pass


class Field:
    __slots__ = ("key", "opt", "type", "ident", "default")

    def __init__(self, key, opt, type, ident=None, default=False):
        self.key, self.opt, self.type, self.ident, self.default = key, opt, type, ident, default


class Module:
    lang = None
    collapse = True      # null and absent are one thing (Option, T?, Optional)

    def __init__(self):
        self.order = []      # declared names in order
        self.structs = {}    # name -> [Field]
        self.aliases = {}    # name -> type
        self.imports = []    # fully qualified
        self.problems = []
        self.attrs = {}      # name -> anything language specific
        self.used = []       # type names used (as written)

    def declare(self, name):
        if name in self.order:
            raise Malformed("%s is declared twice" % name)
        self.order.append(name)


# ------------------------------------------------------------------ tokens
def lex(text, spec, what):
    out, i = [], 0
    rx = re.compile("|".join("(?P<%s>%s)" % kv for kv in spec), re.S)
    while i < len(text):
        m = rx.match(text, i)
        if not m or m.end() == i:
            raise Malformed("%s: unexpected text at %r" % (what, text[i:i + 30]))
        if m.lastgroup not in ("ws", "comment"):
            out.append((m.lastgroup, m.group()))
        i = m.end()
    out.append(("end", ""))
    return out


class Parser:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    @property
    def kind(self):
        return self.t[self.i][0]

    @property
    def text(self):
        return self.t[self.i][1]

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def at(self, text):
        return self.kind in ("punct", "id") and self.text == text

    def accept(self, text):
        if self.at(text):
            self.i += 1
            return True
        return False

    def expect(self, text):
        if not self.accept(text):
            raise Malformed("expected %r, found %r after %r" % (text, self.text, " ".join(x[1] for x in self.t[max(0, self.i - 6):self.i])))

    def ident(self):
        if self.kind != "id":
            raise Malformed("expected an identifier, found %r after %r" % (
                self.text, " ".join(x[1] for x in self.t[max(0, self.i - 6):self.i])))
        return self.next()[1]


# ------------------------------------------------------------------ Rust
RUST_SPEC = [("ws", r"\s+"), ("comment", r"//[^\n]*|/\*.*?\*/"), ("str", r'"(?:[^"\\]|\\.)*"'),
             ("rawstr", r'r(?P<h>#*)".*?"(?P=h)'), ("id", r"(?:r#)?[^\W\d]\w*"), ("num", r"\d+"), ("life", r"'\w+(?!')"),
             ("punct", r"::|->|[^\w\s]")]
RUST_KEYWORDS = set("""as break const continue crate dyn else enum extern false fn for gen if impl in let loop match mod move
 mut pub ref return self Self static struct super trait true type unsafe use where while async await abstract become box do
 final macro override priv typeof unsized virtual yield try""".split())
RUST_PRIMS = {"bool": ("bool",), "i64": ("int",), "f64": ("float",)}
RUST_KNOWN = {"Option": "Option", "Vec": "Vec", "String": "String", "std::collections::HashMap": "HashMap",
              "serde_json::Value": "Value", "std::option::Option": "Option", "std::vec::Vec": "Vec",
              "std::string::String": "String"}


def rust_unescape(tok):
    if tok.startswith("r"):
        return tok[tok.index('"') + 1:tok.rindex('"')]
    out, i, s = [], 0, tok[1:-1]
    while i < len(s):
        c = s[i]
        if c != "\\":
            out.append(c)
            i += 1
            continue
        n = s[i + 1]
        i += 2
        if n == "u":
            j = s.index("}", i)
            out.append(chr(int(s[i + 1:j].replace("_", ""), 16)))
            i = j + 1
        elif n == "x":
            out.append(chr(int(s[i:i + 2], 16)))
            i += 2
        elif n == "\n":
            while i < len(s) and s[i] in " \t\n\r":
                i += 1
        else:
            out.append({"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\\": "\\", '"': '"', "'": "'"}[n])
    return "".join(out)


SERDE_RULES = ("lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case",
               "SCREAMING-KEBAB-CASE")


def serde_rename(rule, f):
    """serde's documented field renaming."""
    if rule is not None and rule not in SERDE_RULES:
        raise Malformed("serde has no rename_all rule %r" % (rule,))
    if rule in (None, "lowercase", "snake_case"):
        return f
    pascal = "".join(w[:1].upper() + w[1:] for w in f.split("_")) if f.isascii() else None
    if rule == "PascalCase":
        return pascal
    if rule == "camelCase":
        return pascal[:1].lower() + pascal[1:]
    return {"UPPERCASE": f.upper(), "SCREAMING_SNAKE_CASE": f.upper(), "kebab-case": f.replace("_", "-"),
            "SCREAMING-KEBAB-CASE": f.upper().replace("_", "-")}[rule]


def rust_type(p):
    if p.accept("("):
        items = []
        while not p.accept(")"):
            items.append(rust_type(p))
            if not p.accept(","):
                p.expect(")")
                break
        return ("tuple", tuple(items))
    if p.accept("&"):
        return ("ref", rust_type(p))
    if p.accept("["):
        t = rust_type(p)
        p.expect("]")
        return ("slice", t)
    lead = p.accept("::")
    segs = [p.ident()]
    args = ()
    while True:
        if p.accept("::"):
            segs.append(p.ident())
        elif p.at("<"):
            p.next()
            args = []
            while not p.accept(">"):
                args.append(rust_type(p))
                if not p.accept(","):
                    p.expect(">")
                    break
            args = tuple(args)
        else:
            break
    return ("path", ("::" if lead else "") + "::".join(segs), args)


class RustModule(Module):
    lang = "rust"

    def vis(self, p):
        if not p.accept("pub"):
            return ""
        if p.accept("("):
            parts = []
            while not p.accept(")"):
                parts.append(p.next()[1])
            return "pub(%s)" % " ".join(parts).replace(" :: ", "::")
        return "pub"

    def attribute(self, p):
        """#[name(...)] -> (name, [(key, value or None)] or token texts)"""
        p.expect("[")
        name = p.ident()
        args = []
        if p.accept("("):
            depth = 1
            cur = []
            while depth:
                k, t = p.next()
                if k == "end":
                    raise Malformed("unterminated attribute")
                if t == "(":
                    depth += 1
                elif t == ")":
                    depth -= 1
                    if not depth:
                        break
                if t == "," and depth == 1:
                    args.append(cur)
                    cur = []
                else:
                    cur.append((k, t))
            if cur:
                args.append(cur)
        p.expect("]")
        return name, args

    @classmethod
    def parse(cls, code):
        m = cls()
        p = Parser(lex(code, RUST_SPEC, "Rust"))
        m.short = {}
        while p.kind != "end":
            attrs = []
            while p.accept("#"):
                attrs.append(m.attribute(p))
            if p.accept("use"):
                m.use_tree(p, "")
                p.expect(";")
                continue
            vis = m.vis(p)
            if p.accept("type"):
                name = p.ident()
                p.expect("=")
                t = rust_type(p)
                p.expect(";")
                m.declare(name)
                m.aliases[name] = t
                m.attrs[name] = {"vis": vis}
                m.types_used(t)
                continue
            p.expect("struct")
            name = p.ident()
            m.declare(name)
            info = {"vis": vis, "derives": [], "serde": {}, "fieldvis": []}
            for an, args in attrs:
                if an == "derive":
                    info["derives"] += ["".join(t for _, t in a) for a in args]
                elif an == "serde":
                    info["serde"].update(m.serde(args))
                else:
                    raise Malformed("attribute " + an)
            rule = info["serde"].get("rename_all")
            p.expect("{")
            fields = []
            info["flatten"] = []
            while not p.accept("}"):
                fa = {}
                while p.accept("#"):
                    an, args = m.attribute(p)
                    if an != "serde":
                        raise Malformed("attribute " + an)
                    fa.update(m.serde(args))
                fvis = m.vis(p)
                ident = p.ident()
                if not ident.startswith("r#") and ident in RUST_KEYWORDS:
                    raise Malformed("keyword %s as a field name" % ident)
                p.expect(":")
                t = rust_type(p)
                m.types_used(t)
                bare = ident[2:] if ident.startswith("r#") else ident
                if "flatten" in fa:
                    info["flatten"].append((bare, t))
                else:
                    info["fieldvis"].append(fvis)
                    key = fa["rename"] if "rename" in fa else serde_rename(rule, bare)
                    fields.append(Field(key, False, t, bare, "default" in fa or "default" in info["serde"]))
                if any(f.ident == bare for f in fields[:-1]):
                    raise Malformed("field %s declared twice" % bare)
                if not p.accept(","):
                    p.expect("}")
                    break
            m.structs[name] = fields
            m.attrs[name] = info
        return m

    def serde(self, args):
        out = {}
        for a in args:
            key = a[0][1]
            if len(a) == 1:
                out[key] = True
            elif len(a) == 3 and a[1][1] == "=" and a[2][0] in ("str", "rawstr"):
                out[key] = rust_unescape(a[2][1])
            else:
                raise Malformed("serde attribute %r" % (a,))
            if key not in ("rename", "rename_all", "default", "deny_unknown_fields", "flatten"):
                raise Malformed("serde attribute " + key)
        return out

    def use_tree(self, p, prefix):
        p.accept("::")
        path = prefix
        while True:
            if p.accept("{"):
                while not p.accept("}"):
                    self.use_tree(p, path)
                    if not p.accept(","):
                        p.expect("}")
                        break
                return
            if p.accept("*"):
                self.imports.append(path + "*")
                return
            path += p.ident()
            if p.accept("::"):
                path += "::"
                continue
            break
        self.imports.append(path)
        self.short[path.rsplit("::", 1)[-1]] = path

    def types_used(self, t):
        if t[0] == "path":
            self.used.append(t[1])
            for x in t[2]:
                self.types_used(x)
        elif t[0] == "tuple":
            for x in t[1]:
                self.types_used(x)

    def parse_type(self, text):
        p = Parser(lex(text, RUST_SPEC, "Rust"))
        t = rust_type(p)
        if p.kind != "end":
            raise Malformed(text)
        return t

    def root(self, name):
        if name not in self.order:
            raise Malformed("the root type %s is not declared" % name)
        return ("path", name, ())

    def view(self, t):
        if t[0] == "tuple":
            return ("tuple", list(t[1]), True)
        if t[0] != "path":
            return ("other", repr(t))
        n, args = t[1], t[2]
        if n in self.structs and not args:
            return ("struct", self.structs[n], n)
        if n in self.aliases and not args:
            return self.view(self.aliases[n])
        if n in RUST_PRIMS and not args:
            return RUST_PRIMS[n]
        full = self.short.get(n, n[2:] if n.startswith("::") else n)
        if self.assume and full in ("HashMap", "Value"):
            full = {"HashMap": "std::collections::HashMap", "Value": "serde_json::Value"}[full]
        k = RUST_KNOWN.get(full)
        if k == "Option" and len(args) == 1:
            return ("nullable", args[0])
        if k == "Vec" and len(args) == 1:
            return ("list", args[0])
        if k == "String" and not args:
            return ("str",)
        if k == "Value" and not args:
            return ("any",)
        if k == "HashMap" and len(args) == 2 and self.view(args[0]) == ("str",):
            return ("map", args[1])
        return ("name", t)

    assume = False


# ------------------------------------------------------------------ Kotlin
KT_SPEC = [("ws", r"\s+"), ("comment", r"//[^\n]*|/\*.*?\*/"), ("str", r'"(?:[^"\\\n]|\\.)*"'), ("id", r"[^\W\d]\w*|`[^`\n]+`"),
           ("num", r"\d+"), ("punct", r"::|[^\w\s]")]
KT_HARD = set("""as break class continue do else false for fun if in interface is null object package return super this throw
 true try typealias typeof val var when while""".split())
KT_BUILTIN = {"Any": 0, "Boolean": 0, "String": 0, "Long": 0, "Int": 0, "Double": 0, "List": 1, "Map": 2, "Pair": 2, "Triple": 3}
KT_LETTER = ("Lu", "Ll", "Lt", "Lm", "Lo", "Nl")


def kt_ident(s):
    if s.startswith("`"):
        body = s[1:-1]
        if re.search(r"[.;:\\/\[\]<>\r\n`]", body):
            raise Malformed("quoted identifier " + s)
        return body
    if s in KT_HARD:
        raise Malformed("hard keyword %s as an identifier" % s)
    for i, c in enumerate(s):
        if not (c == "_" or unicodedata.category(c) in KT_LETTER or (i and unicodedata.category(c) == "Nd")):
            raise Malformed("identifier " + s)
    if set(s) == {"_"}:
        raise Malformed("identifier " + s)
    return s


def kt_string(tok):
    out, i, s = [], 0, tok[1:-1]
    while i < len(s):
        c = s[i]
        if c == "$" and i + 1 < len(s) and (s[i + 1] == "{" or s[i + 1] == "_" or s[i + 1] == "`" or s[i + 1].isalpha()):
            raise Malformed("string template in " + tok)
        if c == "\r":
            raise Malformed("line break in string literal")
        if c != "\\":
            out.append(c)
            i += 1
            continue
        n = s[i + 1]
        i += 2
        if n == "u":
            h = s[i:i + 4]
            if not re.fullmatch("[0-9a-fA-F]{4}", h):
                raise Malformed("escape in " + tok)
            out.append(chr(int(h, 16)))
            i += 4
        elif n in 'tbnr\'"\\$':
            out.append({"t": "\t", "b": "\b", "n": "\n", "r": "\r"}.get(n, n))
        else:
            raise Malformed("escape \\%s in %s" % (n, tok))
    return "".join(out).encode("utf-16", "surrogatepass").decode("utf-16", "surrogatepass")


def jackson_translate(strategy, name):
    """com.fasterxml.jackson.databind.PropertyNamingStrategies, re-implemented from its documentation and source."""
    if strategy in (None, "LowerCamelCaseStrategy"):
        return name
    if strategy == "LowerCaseStrategy":
        return name.lower()
    if strategy == "UpperCamelCaseStrategy":
        return name[:1].upper() + name[1:]
    if strategy == "SnakeCaseStrategy":
        out = []
        prev = False
        for i, c in enumerate(name):
            if i > 0 or c != "_":
                if c.isupper():
                    if not prev and out and out[-1] != "_":
                        out.append("_")
                    c = c.lower()
                    prev = True
                else:
                    prev = False
                out.append(c)
        return "".join(out)
    if strategy == "KebabCaseStrategy":
        if not name:
            return name
        out = []
        upper = 0
        for i, c in enumerate(name):
            lower = c.lower()
            if lower == c:
                if upper > 1:
                    out.insert(len(out) - 1, "-")
                upper = 0
            else:
                if upper == 0 and i > 0:
                    out.append("-")
                upper += 1
            out.append(lower)
        return "".join(out)
    raise Malformed("naming strategy %s" % strategy)


def kt_type(p):
    segs = [p.ident()]
    args = []
    while p.accept("."):
        segs.append(p.ident())
    if p.accept("<"):
        while True:
            args.append(kt_type(p))
            if not p.accept(","):
                break
        p.expect(">")
    for s in segs:
        kt_ident(s)
    t = ("path", ".".join(segs), tuple(args))
    while p.accept("?"):
        t = ("q", t)
    return t


class KotlinModule(Module):
    lang = "kotlin"
    KNOWN = {"com.fasterxml.jackson.annotation.JsonProperty", "kotlinx.serialization.SerialName",
             "kotlinx.serialization.Serializable", "com.fasterxml.jackson.databind.annotation.JsonNaming",
             "com.fasterxml.jackson.databind.PropertyNamingStrategies",
             "com.fasterxml.jackson.annotation.JsonAnySetter", "com.fasterxml.jackson.annotation.JsonAnyGetter"}

    def annotation(self, p):
        """after @ -> (site, full name, arg)"""
        site = None
        name = p.ident()
        if p.accept(":"):
            site, name = name, p.ident()
        while p.accept("."):
            name += "." + p.ident()
        arg = None
        if p.accept("("):
            if p.kind == "str":
                arg = kt_string(p.next()[1])
            else:
                arg = p.ident()
                while p.accept("."):
                    arg += "." + p.ident()
                p.expect("::")
                p.expect("class")
                head, last = arg.rsplit(".", 1)
                self.external.append(head)
                arg = last
            p.expect(")")
        self.external.append(name)
        return site, name.rsplit(".", 1)[-1], arg

    @classmethod
    def parse(cls, code):
        m = cls()
        m.external = []      # names of annotations etc. as written
        m.short = {}
        # imports end at the end of a line
        lines = code.split("\n")
        rest = []
        head = True
        for ln in lines:
            s = ln.strip()
            if head and s.startswith("import "):
                path = s[len("import "):].rstrip(";").strip()
                for seg in path.split("."):
                    kt_ident(seg)
                m.imports.append(path)
                m.short[path.rsplit(".", 1)[-1]] = path
                continue
            if s:
                head = False
            rest.append(ln)
        p = Parser(lex("\n".join(rest), KT_SPEC, "Kotlin"))
        while p.kind != "end":
            if p.accept("typealias"):
                name = kt_ident(p.ident())
                p.expect("=")
                t = kt_type(p)
                p.accept(";")
                m.declare(name)
                m.aliases[name] = t
                m.types_used(t)
                continue
            strategy = None
            serializable = False
            while p.accept("@"):
                site, an, arg = m.annotation(p)
                if an == "JsonNaming":
                    strategy = arg
                elif an == "Serializable":
                    serializable = True
                else:
                    raise Malformed("annotation %s on a class" % an)
            data = p.accept("data")
            p.expect("class")
            name = kt_ident(p.ident())
            m.declare(name)
            p.expect("(")
            fields, idents = [], []
            info = {"strategy": strategy, "serializable": serializable, "any": None}
            while not p.accept(")"):
                key = None
                anyset = anyget = False
                while p.accept("@"):
                    site, an, arg = m.annotation(p)
                    if an in ("JsonProperty", "SerialName") and arg is not None:
                        key = arg
                        info.setdefault("keyed", set()).add(an)
                    elif an == "JsonAnySetter":
                        anyset = True
                    elif an == "JsonAnyGetter" and site == "get":
                        anyget = True
                    else:
                        raise Malformed("annotation %s on a property" % an)
                if not p.accept("val"):
                    p.expect("var")
                ident = kt_ident(p.ident())
                if ident in idents:
                    raise Malformed("property %s is declared twice in %s" % (ident, name))
                idents.append(ident)
                p.expect(":")
                t = kt_type(p)
                m.types_used(t)
                if p.accept("="):
                    p.ident()
                    p.expect("(")
                    p.expect(")")
                if anyset or anyget:
                    info["any"] = (ident, anyset, anyget)
                else:
                    fields.append(Field(key if key is not None else jackson_translate(strategy, ident), False, t, ident))
                if not p.accept(","):
                    p.expect(")")
                    break
            p.accept(";")
            if data and not idents:
                raise Malformed("data class %s without properties" % name)
            m.structs[name] = fields
            m.attrs[name] = info
        return m

    def types_used(self, t):
        if t[0] == "q":
            return self.types_used(t[1])
        self.used.append((t[1], len(t[2])))
        for x in t[2]:
            self.types_used(x)

    def parse_type(self, text):
        p = Parser(lex(text, KT_SPEC, "Kotlin"))
        t = kt_type(p)
        if p.kind != "end":
            raise Malformed(text)
        return t

    def root(self, name):
        if name not in self.order:
            raise Malformed("the root type %s is not declared" % name)
        return ("path", name, ())

    def view(self, t):
        if t[0] == "q":
            inner = self.view(t[1])
            return ("any",) if inner in (("anynn",), ("any",)) else ("nullable", t[1])
        n, args = t[1], t[2]
        if n in self.structs and not args:
            return ("struct", self.structs[n], n)
        if n in self.aliases and not args:
            return self.view(self.aliases[n])
        if KT_BUILTIN.get(n) == len(args):
            if n == "Any":
                return ("anynn",)
            if n == "List":
                return ("list", args[0])
            if n == "Map" and self.view(args[0]) == ("str",):
                return ("map", args[1])
            if n in ("Pair", "Triple"):
                return ("tuple", list(args), True)
            return {"Boolean": ("bool",), "String": ("str",), "Long": ("int",), "Double": ("float",)}.get(n, ("other", n))
        return ("name", t)


# ------------------------------------------------------------------ Python
PY_BUILTIN = {"bool": ("bool",), "str": ("str",), "int": ("int",), "float": ("float",)}


class PythonModule(Module):
    lang = "python"

    @classmethod
    def parse(cls, code):
        m = cls()
        m.modules = []
        m.short = {}
        try:
            tree = ast.parse(code)
        except (SyntaxError, ValueError) as e:
            raise Malformed("Python syntax: %s" % e)
        for node in tree.body:
            if isinstance(node, ast.ImportFrom):
                for a in node.names:
                    m.imports.append(node.module + "." + a.name)
                    m.short[a.asname or a.name] = node.module + "." + a.name
            elif isinstance(node, ast.Import):
                for a in node.names:
                    m.modules.append(a.name)
            elif isinstance(node, ast.ClassDef):
                m.declare(node.name)
                if len(node.bases) != 1 or m.full(node.bases[0]) not in ("pydantic.BaseModel", "BaseModel"):
                    raise Malformed("bases of class %s" % node.name)
                m.used.append(ast.unparse(node.bases[0]))
                fields = []
                for st in node.body:
                    if isinstance(st, ast.Pass):
                        continue
                    if not isinstance(st, ast.AnnAssign) or not isinstance(st.target, ast.Name):
                        raise Malformed("class %s contains %s" % (node.name, ast.unparse(st)))
                    key, ident = st.target.id, st.target.id
                    if st.value is not None:
                        if not isinstance(st.value, ast.Call) or m.full(st.value.func) not in ("pydantic.Field", "Field"):
                            raise Malformed("value %s" % ast.unparse(st))
                        m.used.append(ast.unparse(st.value.func))
                        for kw in st.value.keywords:
                            if kw.arg != "alias" or not isinstance(kw.value, ast.Constant):
                                raise Malformed("value %s" % ast.unparse(st))
                            key = kw.value.value
                        if st.value.args:
                            raise Malformed("value %s" % ast.unparse(st))
                    if any(f.ident == ident for f in fields):
                        raise Malformed("field %s is declared twice in %s" % (ident, node.name))
                    m.types_used(st.annotation)
                    fields.append(Field(key, False, st.annotation, ident))
                m.structs[node.name] = fields
            elif isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
                m.declare(node.targets[0].id)
                m.types_used(node.value)
                m.aliases[node.targets[0].id] = node.value
            else:
                raise Malformed("statement %s" % ast.unparse(node)[:80])
        return m

    def types_used(self, t):
        if isinstance(t, ast.Constant) and isinstance(t.value, str):
            try:
                t = ast.parse(t.value, mode="eval").body
            except SyntaxError:
                raise Malformed("forward reference %r" % t.value)
        if isinstance(t, ast.Subscript):
            self.types_used(t.value)
            for x in (t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]):
                self.types_used(x)
        elif isinstance(t, (ast.Name, ast.Attribute)):
            self.used.append(ast.unparse(t))

    def full(self, node):
        n = ast.unparse(node)
        return self.short.get(n, n)

    def parse_type(self, text):
        return ast.parse(text, mode="eval").body

    def root(self, name):
        if name not in self.order:
            raise Malformed("the root type %s is not declared" % name)
        return ast.Name(id=name)

    def view(self, t):
        if isinstance(t, ast.Constant) and isinstance(t.value, str):
            t = ast.parse(t.value, mode="eval").body
        if isinstance(t, ast.Name) and t.id in self.structs:
            return ("struct", self.structs[t.id], t.id)
        if isinstance(t, ast.Name) and t.id in self.aliases:
            return self.view(self.aliases[t.id])
        if isinstance(t, (ast.Name, ast.Attribute)):
            f = self.full(t)
            if f in ("typing.Any", "Any"):
                return ("any",)
            if f in PY_BUILTIN:
                return PY_BUILTIN[f]
            return ("name", t)
        if isinstance(t, ast.Subscript):
            f = self.full(t.value)
            args = t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]
            if f in ("typing.Optional", "Optional") and len(args) == 1:
                return ("nullable", args[0])
            if f == "list" and len(args) == 1:
                return ("list", args[0])
            if f == "tuple":
                return ("tuple", args, True)
            if f == "dict" and len(args) == 2 and self.view(args[0]) == ("str",):
                return ("map", args[1])
        return ("name", t)


# ------------------------------------------------------------------ JSON Schema
class SchemaModule(Module):
    lang = "json_schema"
    collapse = False

    @classmethod
    def parse(cls, code):
        m = cls()

        def pairs(ps):
            d = dict(ps)
            if len(d) != len(ps):
                raise Malformed("duplicate key in the schema: %s" % [k for k, _ in ps][:20])
            return d
        try:
            m.doc = json.loads(code, object_pairs_hook=pairs)
        except ValueError as e:
            raise Malformed("not JSON: %s" % e)
        return m

    def root(self, name):
        return self.doc

    def view(self, s):
        ann = {"$schema", "title", "description"}
        keys = set(s) - ann
        if not keys:
            return ("any",)
        t = s.get("type")
        if isinstance(t, list):
            rest = [x for x in t if x != "null"]
            if len(rest) == 1 and len(t) == 2:
                inner = {k: v for k, v in s.items() if k not in ann}
                inner["type"] = rest[0]
                return ("nullable", inner)
            return ("other", str(t))
        if t in ("string", "number", "integer", "boolean") and keys == {"type"}:
            return {"string": ("str",), "number": ("num",), "integer": ("int",), "boolean": ("bool",)}[t]
        if t == "null" and keys == {"type"}:
            return ("nulltype",)
        if t == "array":
            it = s.get("items", {})
            if isinstance(it, list):
                return ("tuple", it, s.get("additionalItems") is False)
            if keys <= {"type", "items"}:
                return ("list", it)
        if t == "object":
            if "properties" in s and keys <= {"type", "properties", "required"}:
                req = s.get("required", [])
                if len(set(req)) != len(req) or not set(req) <= set(s["properties"]):
                    raise Malformed("required: %r" % req)
                return ("struct", [Field(k, k not in req, v) for k, v in s["properties"].items()], None)
            if isinstance(s.get("additionalProperties"), dict) and keys == {"type", "additionalProperties"}:
                return ("map", s["additionalProperties"])
        return ("other", json.dumps(s)[:80])


# ------------------------------------------------------------------ TypeScript / Zod (dumped by node/tsz.mjs)
class DumpModule(Module):
    collapse = False

    def __init__(self, lang, root, types=None):
        super().__init__()
        self.lang, self._root, self.types = lang, root, types or {}

    def root(self, name):
        return self._root

    def view(self, t):
        if t[0] == "ref":
            inner = self.types[t[1]]
            v = self.view(inner)
            return ("struct", v[1], t[1]) if v[0] == "struct" else v
        k = t[0]
        if k in ("any", "unknown"):
            return ("any",)
        if k in ("num", "str", "bool"):
            return (k,)
        if k == "list":
            return ("list", t[1])
        if k == "tuple":
            return ("tuple", t[1], t[2])
        if k == "map":
            return ("map", t[1]) if t[2] in ("string", "string | number") and not t[3] else ("other", str(t))
        if k == "struct":
            return ("struct", [Field(f[0], f[1], f[2]) for f in t[1]], None)
        if k == "nullable":
            return ("nullable", t[1])
        return ("other", json.dumps(t)[:80])


# ------------------------------------------------------------------ comparison with the inferred structure
class Mismatch(Exception):
    pass


class Compare:
    """Declared types against an inferred structure."""

    def __init__(self, mod, allow_option_vec=False, default_missing=False, ordered=False, only=None):
        """only: None (everything), "keys" (the keys of all structures), "root" (kind and keys of the outermost type)"""
        self.m = mod
        self.only = only
        self.allow_option_vec, self.default_missing, self.ordered = allow_option_vec, default_missing, ordered
        self.uses = {}
        self.bottoms = []
        self.structs = []       # (structure, name of its declaration, path)
        self.visited = 0

    def run(self, n, t):
        if self.only:
            return self.partial(n, t, "")
        self.go(n, t, "", None)
        for path, decl, got in self.bottoms:
            # an empty list is a list of anything, but only a shared type has a reason to say more
            if decl is None or self.uses.get(decl, 0) < 2:
                raise Mismatch("%s: nothing was seen there, but it is declared as %s" % (path or "/", got))

    def partial(self, n, t, path):
        while n[0] == "nullable":
            n = n[1]
        _, _, v = self.strip(t)
        self.visited += 1
        k = n[0]
        if k not in ("list", "map", "tuple", "struct"):
            return
        if k == "struct" and self.m.lang == "kotlin" and not n[1]:
            return
        if k == "tuple" and self.m.lang == "kotlin" and len(n[1]) > 3:
            return
        if v[0] != k:
            if self.only == "root":
                raise Mismatch("%s: declared as %s, expected %s" % (path or "/", self.text(v), k))
            return
        if k in ("list", "map"):
            self.partial(n[1], v[1], path + ("/[]" if k == "list" else "/{}"))
        elif k == "tuple":
            for i, (a, b) in enumerate(zip(n[1], v[1])):
                if self.only == "keys":
                    self.partial(a, b, path + "/%d" % i)
        else:
            self.keys(n, v, path)
            if self.only == "keys":
                for f in v[1]:
                    self.partial(n[1][f.key][1], f.type, path + "/" + f.key)

    def keys(self, n, v, path):
        got = [f.key for f in v[1]]
        if len(set(got)) != len(got):
            raise Mismatch("%s: two fields have the same key: %r" % (path or "/", sorted(got)))
        if set(got) != set(n[1]):
            raise Mismatch("%s: fields differ: declared only %r, missing %r" % (
                path or "/", sorted(set(got) - set(n[1])), sorted(set(n[1]) - set(got))))

    def strip(self, t):
        layers = 0
        v = self.m.view(t)
        while v[0] == "nullable":
            layers += 1
            t = v[1]
            v = self.m.view(t)
        return layers, t, v

    def field(self, n, f, opt, path, decl):
        lang = self.m.lang
        if not self.m.collapse:
            if bool(f.opt) != bool(opt):
                raise Mismatch("%s: %s" % (path, "not optional" if opt else "optional"))
            return self.go(n, f.type, path, decl)
        layers, t, v = self.strip(f.type)
        null = n[0] == "nullable"
        base = n[1] if null else n
        if base[0] in ("any", "null"):
            if opt and lang == "rust" and not layers and not f.default:
                raise Mismatch("%s: must be optional" % path)
            if v != ("any",):
                raise Mismatch("%s: declared as %s, expected anything" % (path, self.text(v)))
            return
        if lang == "rust" and not opt and f.default and not self.default_missing:
            raise Mismatch("%s: has a default, but is always there" % path)
        if lang == "rust" and opt and not null and not layers and f.default:
            if self.default_missing or (base[0] == "list" and not self.allow_option_vec):
                return self.go(base, t, path, decl)
        if lang == "rust" and opt and not null and base[0] == "list" and not self.allow_option_vec and not self.default_missing:
            raise Mismatch("%s: an optional list should be a list with a default" % path)
        if base[0] == "bottom":
            return self.go(base, f.type, path, decl)
        if v != ("any",) and bool(layers) != bool((opt and not self.default_missing) or null):
            raise Mismatch("%s: %s" % (path, "optional or null, but declared as %s" % self.text(v) if opt or null
                                       else "declared as optional, but always there and never null"))
        self.go(base, t, path, decl)

    def text(self, v):
        if v[0] in ("struct",):
            return "a structure"
        if v[0] == "name":
            return "name %s" % (v[1],)
        return v[0]

    def go(self, n, t, path, decl):
        self.visited += 1
        lang = self.m.lang
        layers, inner, v = self.strip(t)
        if n[0] == "bottom":
            if v != ("any",):
                self.bottoms.append((path, decl, self.text(v)))
            return
        if n[0] in ("any", "null"):
            if v != ("any",):
                raise Mismatch("%s: declared as %s, expected anything" % (path or "/", self.text(v)))
            return
        if n[0] == "nullable":
            if n[1][0] in ("any", "null", "bottom"):
                return self.go(n[1], inner, path, decl)
            if not layers:
                raise Mismatch("%s: null occurs, but it is declared as %s" % (path or "/", self.text(v)))
            return self.go(n[1], inner, path, decl)
        if layers:
            raise Mismatch("%s: declared nullable, but null does not occur" % (path or "/"))
        k = n[0]
        if k == "opaque":
            want = n[1]
            if lang == "json_schema":
                ok = inner.get("type") == want and set(inner) <= {"type", "$schema", "title"}
            else:
                ok = self.same_name(inner, want)
            if not ok:
                raise Mismatch("%s: declared as %s, expected the type %s verbatim" % (path or "/", self.text(v), want))
            return
        if k in ("int", "float"):
            ok = v[0] == (k if lang in ("rust", "kotlin", "python") else "num")
            if not ok:
                raise Mismatch("%s: declared as %s, expected %s" % (path or "/", self.text(v), k))
            return
        if k in ("str", "bool"):
            if v[0] != k:
                raise Mismatch("%s: declared as %s, expected %s" % (path or "/", self.text(v), k))
            return
        if k == "tuple" and lang == "kotlin" and len(n[1]) > 3:
            n, k = ("list", ("any",)), "list"
        if k == "struct" and lang == "kotlin" and not n[1]:
            if v[0] != "map" or self.m.view(v[1])[0] not in ("any", "anynn"):
                raise Mismatch("%s: declared as %s, expected a map of anything" % (path or "/", self.text(v)))
            return
        if v[0] != k:
            raise Mismatch("%s: declared as %s, expected %s" % (path or "/", self.text(v), k))
        if k in ("list", "map"):
            self.go(n[1], v[1], path + ("/[]" if k == "list" else "/{}"), decl)
        elif k == "tuple":
            if len(v[1]) != len(n[1]) or not v[2]:
                raise Mismatch("%s: a tuple of %d (%s), expected exactly %d places" % (
                    path or "/", len(v[1]), "closed" if v[2] else "open", len(n[1])))
            for i, (a, b) in enumerate(zip(n[1], v[1])):
                self.go(a, b, path + "/%d" % i, decl)
        else:
            decl = v[2]
            if decl is not None:
                self.uses[decl] = self.uses.get(decl, 0) + 1
            self.structs.append((n, decl, path))
            self.keys(n, v, path)
            for f in v[1]:
                opt, sub = n[1][f.key]
                self.field(sub, f, opt, path + "/" + f.key, decl)

    def same_name(self, t, want):
        if isinstance(self.m, DumpModule):
            return self.m.view(t) == ("name", want) or list(t) == ["other", want.replace("z.", "").replace("()", "")]
        w = self.m.parse_type(want)
        if isinstance(t, ast.AST):
            return ast.unparse(t) == ast.unparse(w)
        return t == w


def mismatch(n, mod, t, **kw):
    """-> None or a description"""
    c = Compare(mod, **kw)
    try:
        c.run(n, t)
    except (Mismatch, Malformed) as e:
        return str(e)
    return None


# ------------------------------------------------------------------ does a sample conform to declared types?
def nonconforming(v, mod, t, path=""):
    """-> None or a description (collapsing languages only: absent is allowed where null is)"""
    from .gen import Num
    k = mod.view(t)
    if k[0] == "nullable":
        return None if v is None else nonconforming(v, mod, k[1], path)
    if k[0] == "any":
        return None
    if k[0] == "anynn":
        return None if v is not None else "%s: null" % path
    if k[0] == "int":
        ok = isinstance(v, Num) and v.is_int()
    elif k[0] == "float":
        ok = isinstance(v, Num)
    elif k[0] == "str":
        ok = isinstance(v, str)
    elif k[0] == "bool":
        ok = isinstance(v, bool)
    elif k[0] == "list":
        if not isinstance(v, list):
            return "%s: not a list" % path
        for i, x in enumerate(v):
            r = nonconforming(x, mod, k[1], path + "/%d" % i)
            if r:
                return r
        return None
    elif k[0] == "tuple":
        if not isinstance(v, list) or len(v) != len(k[1]):
            return "%s: not a tuple of %d" % (path, len(k[1]))
        for i, (x, s) in enumerate(zip(v, k[1])):
            r = nonconforming(x, mod, s, path + "/%d" % i)
            if r:
                return r
        return None
    elif k[0] == "map":
        if not isinstance(v, dict):
            return "%s: not an object" % path
        for key, x in v.items():
            r = nonconforming(x, mod, k[1], path + "/" + key)
            if r:
                return r
        return None
    elif k[0] == "struct":
        if not isinstance(v, dict):
            return "%s: not an object" % path
        keys = set()
        for f in k[1]:
            keys.add(f.key)
            if f.key in v:
                r = nonconforming(v[f.key], mod, f.type, path + "/" + f.key)
                if r:
                    return r
            elif mod.view(f.type)[0] not in ("nullable", "any"):
                return "%s: %r is missing, but not nullable" % (path, f.key)
        extra = set(v) - keys
        if extra:
            return "%s: no field for %r" % (path, sorted(extra))
        return None
    else:
        return "%s: declared as %s" % (path, k)
    return None if ok else "%s: %r is not %s" % (path, v, k[0])


# ------------------------------------------------------------------ a reader that trips over a text has not read it
def tolerant(f):
    def g(*a):
        try:
            return f(*a)
        except (Malformed, Mismatch):
            raise
        except (LookupError, ValueError, TypeError, AttributeError, AssertionError, RecursionError) as e:
            raise Malformed("not understood: %s: %s" % (type(e).__name__, e)) from e
    return g


for _c in (RustModule, KotlinModule, PythonModule, SchemaModule):
    _c.parse = classmethod(tolerant(_c.__dict__["parse"].__func__))
    if "parse_type" in _c.__dict__:
        _c.parse_type = tolerant(_c.__dict__["parse_type"])
Compare.run = tolerant(Compare.run)
