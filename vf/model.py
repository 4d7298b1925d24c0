"""Reference model of inference, written from the documented lattice, not from the code.

It is a per-position summary ("which kinds were seen, how often was each key
present, which array lengths occurred"), so it is independent of the order of
observation by construction.

Structures ("N") are tuples:
 ("any",) ("null",) ("bottom",) ("bool",) ("str",) ("int",) ("float",) ("opaque", name)
 ("list", N) ("tuple", (N,...)) ("map", N) ("struct", {key: (optional, N)}) ("nullable", N)
"""
from .gen import Num


class HintError(Exception):
    pass


class Ambiguous(Exception):
    """The documented rules leave the result open for this input."""


class Acc:
    __slots__ = ("null", "kinds", "nobj", "fields", "lens", "idx", "elem", "vals", "opaque")

    def __init__(self):
        self.null = False
        self.kinds = set()
        self.nobj = 0
        self.fields = {}      # key -> [Acc, count]
        self.lens = set()
        self.idx = []
        self.elem = None
        self.vals = None      # Acc of map values
        self.opaque = None

    def add(self, v, hints=(), threshold=None):
        """hints: list of (path tuple, kind) relative to this value."""
        for path, h in hints:
            if not path:
                if h == "map":
                    if not isinstance(v, dict):
                        raise HintError()
                    self.kinds.add("map")
                    if self.vals is None:
                        self.vals = Acc()
                    for k, x in v.items():
                        self.vals.add(x, step(hints, k), threshold)
                    return
                self.kinds.add("opaque")
                self.opaque = h
                return
        if v is None:
            self.null = True
        elif isinstance(v, bool):
            self.kinds.add("bool")
        elif isinstance(v, str):
            self.kinds.add("str")
        elif isinstance(v, Num):
            self.kinds.add("int" if v.is_int() else "float")
        elif isinstance(v, list):
            self.kinds.add("arr")
            self.lens.add(len(v))
            if self.elem is None:
                self.elem = Acc()
            for i, x in enumerate(v):
                h = step_index(hints, i)
                self.elem.add(x, h, threshold)
                if i < 12 and 2 <= len(v) <= 12:      # only those can end up as tuples
                    while len(self.idx) <= i:
                        self.idx.append(Acc())
                    self.idx[i].add(x, h, threshold)
        elif threshold is not None and len(v) > threshold:
            self.kinds.add("map")
            if self.vals is None:
                self.vals = Acc()
            for k, x in v.items():
                self.vals.add(x, step(hints, k), threshold)
        else:
            self.kinds.add("obj")
            self.nobj += 1
            for k, x in v.items():
                f = self.fields.get(k)
                if f is None:
                    f = self.fields[k] = [Acc(), 0]
                f[0].add(x, step(hints, k), threshold)
                f[1] += 1

    def result(self):
        kinds = set(self.kinds)
        if "int" in kinds and "float" in kinds:
            kinds.discard("int")
        if not kinds:
            return ("null",) if self.null else ("bottom",)
        if "opaque" in kinds:
            if self.null and self.open():
                # conflicting values ("any") seen next to values of the hinted type:
                # "any" includes null, so whether the result is marked nullable is open
                raise Ambiguous()
            base = ("opaque", self.opaque)
        elif len(kinds) > 1:
            return ("any",)
        else:
            k = next(iter(kinds))
            if k in ("bool", "str", "int", "float"):
                base = (k,)
            elif k == "arr":
                base = self.array()
            elif k == "map":
                base = ("map", self.vals.result() if self.vals else ("bottom",))
            else:
                fs = {}
                for key, (acc, count) in self.fields.items():
                    r = acc.result()
                    if count < self.nobj and acc.open():
                        raise Ambiguous()
                    # a position with conflicting values is "any", which is not refined further
                    fs[key] = (count < self.nobj and r != ("any",), r)
                base = ("struct", fs)
        return ("nullable", base) if self.null else base

    def open(self):
        """An opaque position whose other values conflict among themselves."""
        return "opaque" in self.kinds and len(self.kinds - ({"int"} if "float" in self.kinds else set())) > 2

    def array(self):
        if len(self.lens) == 1:
            n = next(iter(self.lens))
            if 2 <= n <= 12 and self.elem.result() == ("any",):
                parts = tuple(a.result() for a in self.idx)
                if any(p != ("any",) for p in parts):
                    return ("tuple", parts)
        return ("list", self.elem.result())


def _unescape(tok):
    return tok.replace("~1", "/").replace("~0", "~")


def step(hints, key):
    return [(p[1:], h) for p, h in hints if p and (p[0] == "-" or _unescape(p[0]) == key)]


def step_index(hints, i):
    return [(p[1:], h) for p, h in hints if p and (p[0] == "-" or p[0] == str(i))]


def infer(doc, hints=(), threshold=None):
    a = Acc()
    a.add(doc, list(hints), threshold)
    return a.result()


def infer_many(docs, hints=(), threshold=None):
    a = Acc()
    for d in docs:
        a.add(d, list(hints), threshold)
    return a.result()


def unwrap(doc, tokens):
    """The values a JSON pointer (with - as a wildcard) selects."""
    if not tokens:
        return [doc]
    t, rest = tokens[0], tokens[1:]
    out = []
    if isinstance(doc, dict):
        for k, v in doc.items():
            if t == "-" or _unescape(t) == k:
                out += unwrap(v, rest)
    elif isinstance(doc, list):
        for i, v in enumerate(doc):
            if t == "-" or t == str(i):
                out += unwrap(v, rest)
    return out


def parse_shape(v):
    """Normal form of the tool's own `shape` output (a parsed JSON value)."""
    if v is None:
        return ("null",)
    if isinstance(v, str):
        return {"any": ("any",), "bottom": ("bottom",), "bool": ("bool",), "string": ("str",), "integer": ("int",),
                "floating": ("float",)}.get(v, ("opaque", v))
    if isinstance(v, list):
        assert len(v) == 1, v
        return ("list", parse_shape(v[0]))
    t = v.get("__type__")
    if t == "nullable":
        return ("nullable", parse_shape(v["item"]))
    if t == "optional":
        return ("optional", parse_shape(v["item"]))
    if t == "map":
        return ("map", parse_shape(v["values"]))
    if t == "tuple":
        return ("tuple", tuple(parse_shape(x) for x in v["items"]))
    fs = {}
    for k, x in v.items():
        if k.endswith("?"):
            fs[k[:-1]] = (True, parse_shape(x))
        else:
            fs[k] = (False, parse_shape(x))
    return ("struct", fs)


def show(n, depth=0):
    if n[0] == "struct":
        return "{" + ", ".join("%r%s: %s" % (k, "?" if o else "", show(t)) for k, (o, t) in sorted(n[1].items())) + "}"
    if n[0] == "list":
        return "[%s]" % show(n[1])
    if n[0] == "tuple":
        return "(%s)" % ", ".join(show(x) for x in n[1])
    if n[0] == "map":
        return "map<%s>" % show(n[1])
    if n[0] in ("nullable", "optional"):
        return "%s %s" % (n[0], show(n[1]))
    if n[0] == "opaque":
        return "opaque:%s" % n[1]
    return n[0]


def stats(n, acc):
    """Counts constructors, for the evidence files."""
    acc[n[0]] = acc.get(n[0], 0) + 1
    if n[0] == "struct":
        for o, t in n[1].values():
            if o:
                acc["optional"] = acc.get("optional", 0) + 1
            stats(t, acc)
    elif n[0] in ("list", "map", "nullable", "optional"):
        stats(n[1], acc)
    elif n[0] == "tuple":
        for t in n[1]:
            stats(t, acc)
    return acc
