"""C39: the error text says what is wrong."""
import json
import os
import shutil
import socket
import subprocess
import tempfile

from .. import build, gen
from ..drv import Inconclusive, Server, crashed
from .delivery import Http, cli_env
from .inference import Driven, paths, rust_str, tok
from .languages import lang_doc
from .optblock import BOOLS, NAMES, STRINGS, join, random_items, tokens, word

CUT, UTF8, ESCAPE, JSON, DEEP = ("Reached end of input while parsing", "Sample contained invalid UTF-8", "Sample contained an invalid escape",
                                 "Sample contained invalid JSON", "Sample is too deeply nested")
NO_MATCH, BAD_HINT, IO = "Unwrap pointer matched no values", "Hint is not valid for the matched value", "IO-related error"
PARSING, READING, FETCHING = ("An error occurred while parsing JSON", "An error occurred while reading JSON from file",
                              "An error occurred while fetching JSON")
SQL, MACRO = "An error occurred while parsing SQL", "An error occurred while parsing a macro or macro input"
SAMPLE = (CUT, UTF8, ESCAPE, JSON, DEEP, NO_MATCH, BAD_HINT, IO)
ALL = SAMPLE + (PARSING, READING, FETCHING, SQL, MACRO)


def lex(text):
    """Tokens of a valid JSON text: [(start, end, kind)]"""
    out, i = [], 0
    while i < len(text):
        c = text[i]
        if c in " \t\r\n":
            i += 1
            continue
        j = i + 1
        if c == '"':
            while text[j] != '"':
                j += 2 if text[j] == "\\" else 1
            j += 1
            kind = "string"
        elif c in "{}[],:":
            kind = c
        else:
            while j < len(text) and text[j] not in " \t\r\n,]}:":
                j += 1
            kind = "word" if c in "tfn" else "number"
        out.append((i, j, kind))
        i = j
    return out


def fault(rng, text):
    """-> (kind, bytes with exactly one thing wrong, expected cause) or None"""
    toks = lex(text)
    kind = rng.choice(["cut", "cut", "utf8", "escape", "deep", "control", "comma", "colon", "word", "number", "after", "close", "swap", "byte"])
    strings = [t for t in toks if t[2] == "string"]

    def into(t, new):
        # anywhere in the string, but not within an escape
        places, i = [], t[0] + 1
        while i < t[1]:
            places.append(i)
            pair = text[i:i + 4].lower() in ("\\ud8", "\\ud9", "\\uda", "\\udb")
            i += 1 if text[i] != "\\" else 12 if pair else 6 if text[i + 1] == "u" else 2
        i = rng.choice(places)
        return text[:i].encode() + new + text[i:].encode()

    if kind == "cut":
        b = text.rstrip(" \t\r\n").encode()
        i = rng.randrange(1, len(b))
        # within a number it depends on the place whether it is cut or malformed
        before = b[:i].decode("utf8", "ignore")
        for s, e, k in toks:
            if k == "number" and s < len(before) <= e:
                return None
        return kind, b[:i], CUT
    if kind == "utf8":
        if not strings:
            return None
        return kind, into(rng.choice(strings), rng.choice([b"\xff", b"\xc0\xaf", b"\x80", b"\xed\xa0\x80", b"\xe9", b"\xf5\x80\x80\x80"])), UTF8
    if kind == "escape":
        if not strings:
            return None
        return kind, into(rng.choice(strings), rng.choice([b"\\q", b"\\x41", b"\\'", b"\\0", b"\\u12G4", b"\\u+123", b"\\U0041", b"\\ n", b"\\a", b"\\u 041"])), ESCAPE
    if kind == "deep":
        n = rng.choice([200, 1000, 20000])
        leaf = [t for t in toks if t[2] in ("word", "number") or t[2] == "string" and text[t[1]:].lstrip()[:1] != ":"]
        if not leaf:
            return None
        s, e, _ = rng.choice(leaf)
        o, c = rng.choice([("[", "]"), ('{"a":', "}")])
        return kind, (text[:s] + o * n + text[s:e] + c * n + text[e:]).encode(), DEEP
    if kind == "control":
        if not strings:
            return None
        return kind, into(rng.choice(strings), bytes([rng.choice([0, 1, 9, 10, 13, 31])])), JSON
    if kind in ("comma", "colon"):
        k = "," if kind == "comma" else ":"
        ts = [t for t in toks if t[2] == k]
        if not ts:
            return None
        s, e, _ = rng.choice(ts)
        new = rng.choice(["", k + k, ";", "=", ":" if k == "," else ","])
        out = text[:s] + " " + new + " " + text[e:]
        return kind, out.encode(), JSON
    if kind == "word":
        ts = [t for t in toks if t[2] == "word"]
        if not ts:
            return None
        s, e, _ = rng.choice(ts)
        w = text[s:e]
        return kind, (text[:s] + rng.choice([w.upper(), w.capitalize(), w + "x", w[:-1], w[0] + w, "undefined", "NaN", "nil", "'x'", "x"]) + text[e:]).encode(), JSON
    if kind == "number":
        ts = [t for t in toks if t[2] == "number"]
        if not ts:
            return None
        s, e, _ = rng.choice(ts)
        return kind, (text[:s] + rng.choice(["01", "-", "+1", ".5", "1.", "1e", "1e+", "0x1", "--1", "-01", "1.e1", "1..2", "1e1.5", "Infinity", "-a", "1_0"]) + text[e:]).encode(), JSON
    if kind == "after":
        return kind, (text + rng.choice([" ", "", "\n"]) + rng.choice(["x", "{}", "[]", "]", "}", ",", "1", "null", '"a"', ";", "//"])).encode(), JSON
    if kind == "close":
        ts = [t for t in toks if t[2] in "]}"]
        s, e, k = rng.choice(ts)
        return kind, (text[:s] + ("]" if k == "}" else "}") + text[e:]).encode(), JSON
    if kind == "swap":
        ts = [t for t in toks if t[2] == "string" and text[t[1]:].lstrip()[:1] == ":"]
        if not ts:
            return None
        s, e, _ = rng.choice(ts)
        return kind, (text[:s] + rng.choice(["1", "null", "a", "'a'", "[]", "{}"]) + text[e:]).encode(), JSON
    if kind == "byte":
        s, e, _ = rng.choice(toks[1:])
        b = rng.choice([b"\xff", b"\x00", b"\x0b", b"\xc2\xa0", b"\xef\xbb\xbf", b"\x7f", b"#", b"\\"])
        return kind, text[:s].encode() + b + text[s:].encode(), JSON
    return None


class C39(Driven):
    id = "C39"
    technique = "online monitor of error texts over inputs with exactly one injected fault of a known kind, through the library, the CLI and the web wrapper"
    level_note = "exploration; the oracle is the kind of the injected fault"
    rule = ("valid samples, options blocks, SQL texts and sources with one injected fault each; non-trivial: distinct faulty inputs")

    def setup(self):
        super().setup()
        self.cli = os.path.join(build.build("cli"), "json_typegen")
        self.wasm_exe = os.path.join(build.build("wasm_driver"), "vf_wasm_driver")

    def open(self, ctx):
        super().open(ctx)
        self.wasm = Server(exe=self.wasm_exe)
        self.dir = tempfile.mkdtemp(prefix="vf39")
        self.http = Http()
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        self.closed = s.getsockname()[1]    # (bound, but nothing listens)
        self.keep = s
        for k in list(os.environ):
            if k.lower().endswith("_proxy"):
                del os.environ[k]

    def close(self, ctx):
        super().close(ctx)
        self.wasm.close()
        self.http.close()
        self.keep.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def cases(self, ctx):
        rng = ctx.rng
        for _ in range(ctx.count(360000, 7200000)):
            r = rng.random()
            if r < 0.62:
                doc = lang_doc(rng, 60)
                f = fault(rng, gen.dump(doc, rng, rng.random() < 0.5).lstrip(" \t\r\n"))
                if f is None:
                    continue
                opts = None
                if rng.random() < 0.25:
                    # the fault counts, also in what an option throws away
                    p = rng.choice(list(paths(doc)))
                    opts = "{ unwrap: %s }" % rust_str("".join("/" + x for x in p)) if rng.random() < 0.5 else "{ unwrap: \"/no where\" }" if rng.random() < 0.5 else \
                        "{ %s: { use_type: \"Opaque\" } }" % rust_str("".join("/" + x for x in p))
                yield {"kind": "sample", "fault": f[0], "bytes": f[1].decode("latin1"), "want": f[2], "options": opts,
                       "via": rng.choices(["inline", "wasm", "file", "cli", "stdin"], [60, 30, 4, 1, 1])[0]}
            elif r < 0.70:
                doc = lang_doc(rng, 60)
                yield {"kind": "unwrap", "input": gen.dump(doc), "pointer": rng.choice(["/no such key", "/-/no such key", "/-" * 110]),
                       "via": rng.choice(["inline", "wasm"])}
            elif r < 0.78:
                doc = lang_doc(rng, 60)
                ps = [(p, v) for p, v in located(doc) if p and not isinstance(v, dict) and v is not None]
                if ps:
                    p, v = rng.choice(ps)
                    yield {"kind": "hint", "input": gen.dump(doc), "pointer": "".join("/" + x for x in p), "via": rng.choice(["inline", "wasm"])}
            elif r < 0.90:
                items = random_items(rng, lang_doc(rng, 30))
                style = rng.choice(["bare", "quoted", "mixed"])
                if rng.random() < 0.5:
                    bad = rng.choice(["derive", "outputmode", "Derives", "name", "hints", "x", "deny-unknown-fields", "unwraps", "a b", "\u00e9t\u00e9", "use_type",
                                      "type_name", "renames_all", "0"])
                    i = rng.randint(0, len(items))
                    t = tokens(rng, items[:i] + [[bad, rng.choice(["x", True])]] + items[i:], "quoted" if not bad.isidentifier() else style)
                    yield {"kind": "option", "block": join(rng, t), "want": ["Unknown option: " + bad], "via": rng.choice(["inline", "wasm", "macro"])}
                else:
                    name = rng.choice(STRINGS + BOOLS)
                    v, want = (rng.choice(['"true"', "1", "null", "{}"]), "a boolean literal") if name in BOOLS else (rng.choice(["true", "3", "null", "{}", "[]"]), "a string literal")
                    before = tokens(rng, items, "quoted")
                    if before[-2] != "," and before[-2] != "{":
                        before.insert(-1, ",")
                    t = before[:-1] + [word(rng, name, style), ":", v] + ["}"]
                    yield {"kind": "option", "block": join(rng, t), "want": ["'%s'" % name, want], "via": rng.choice(["inline", "wasm", "macro"])}
            elif r < 0.985:
                text, want = rng.choice([
                    ("SELECT 1", "no CREATE TABLE"), ("", "no CREATE TABLE"), ("DROP TABLE t;", "no CREATE TABLE"), ("-- CREATE TABLE t (a INT)", "no CREATE TABLE"),
                    ("INSERT INTO t VALUES ('CREATE TABLE t (a INT)')", "no CREATE TABLE"), ("  \n ", "no CREATE TABLE"),
                    ("CREATE TABLE t (a INT", "sql parser error"), ("CREATE TABLE t (a INT b)", "sql parser error"), ("CREATE TABEL t (a INT)", "sql parser error"),
                    ("CREATE TABLE t (a INT); nonsense", "sql parser error"), ("CREATE TABLE (a INT)", "sql parser error"), ("CREATE TABLE t (a 'x')", "sql parser error"),
                    ("{\"a\": 1}", "sql parser error")])
                if text and rng.random() < 0.5:
                    text = rng.choice(["SELECT %d; " % rng.randrange(1000), "/* %d */" % rng.randrange(1000), "\n" * rng.randrange(1, 30)]) + text
                yield {"kind": "sql", "input": text, "want": want, "via": rng.choice(["inline", "wasm"])}
            else:
                yield {"kind": "source", "how": rng.choice(["missing", "directory", "status", "refused", "cut", "nofile in dir", "permission", "long"]),
                       "status": rng.choice([400, 403, 404, 410, 500, 503]), "via": rng.choice(["inline", "cli"])}

    def judge(self, ctx, cases):
        return [self.one(ctx, c) for c in cases]

    def text(self, c, source, options=None, mode=None):
        """-> the error text this interface gives, or (None, what happened)"""
        via = c["via"]
        if via in ("cli", "stdin"):
            args = [self.cli, "-" if via == "stdin" else source] + (["--options", options] if options else [])
            p = subprocess.run(args, input=source.encode() if via == "stdin" else b"", cwd=self.dir, env=cli_env(), stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=300)
            err = p.stderr.decode("utf8", "replace")
            # (the progress bar goes to standard error, too)
            i = err.find("Error: ")
            if p.returncode != 1 or i < 0:
                return None, "exit status %d, %s" % (p.returncode, err[-800:])
            return err[i + 7:], None
        if via == "wasm":
            r = self.wasm.request({"name": "Root", "input": source, "options": options or "{}"})
            t = r.get("ok", "")
            if not t.startswith("Error: "):
                return None, json.dumps(r)[:800]
            return t[7:], None
        if via == "macro":
            r = self.s.request({"op": "macro_input", "input": "\"Root\", %s, %s" % (rust_str(source), options)})
        else:
            r = self.s.codegen(source, options=options)
        if "err" not in r:
            return None, json.dumps(r)[:800]
        return r["err"], None

    def one(self, ctx, c):
        f = getattr(self, "do_" + c["kind"])
        r = f(ctx, c)
        if r is None:
            ctx.stat("kind " + c["kind"])
            ctx.stat("through " + c["via"])
        return r

    def check(self, c, t, want, source):
        text, bad = t
        if text is None:
            return "no error for %r: %s" % (source[:600], bad)
        for w in want:
            if w not in text:
                return "error text for %s fault in %r (%s): %r\nexpected to say %r" % (c.get("fault", c["kind"]), source[:600], c.get("options"), text[:600], w)
        for other in ALL:
            if other not in want and other in text and not any(other in w for w in want):
                return "error text for %s fault in %r (%s): %r\nexpected %r only" % (c.get("fault", c["kind"]), source[:600], c.get("options"), text[:600], want)
        return None

    def do_sample(self, ctx, c):
        b = c["bytes"].encode("latin1")
        try:
            source = b.decode()
        except UnicodeDecodeError:
            source = None
        via = c["via"]
        if source is None or via == "file":
            # bytes that are not a text can only come from a file
            with open(os.path.join(self.dir, "s.json"), "wb") as f:
                f.write(b)
            c = dict(c, via="cli" if via in ("cli", "stdin") else "inline")
            source = os.path.join(self.dir, "s.json")
        elif via == "cli" and (source.startswith("-") or "\0" in source or len(source) > 100000):
            c = dict(c, via="stdin")
        r = self.check(dict(c, kind="sample " + via), self.text(c, source, c["options"]), [PARSING, c["want"]], c["bytes"])
        if r is None:
            ctx.stat("fault " + c["fault"])
            ctx.seen(c["bytes"])
            ctx.sample({"bytes": c["bytes"][:200], "says": c["want"]})
        return r

    def do_unwrap(self, ctx, c):
        ctx.seen([c["input"], c["pointer"]])
        return self.check(c, self.text(c, c["input"], "{ unwrap: %s }" % rust_str(c["pointer"])), [PARSING, NO_MATCH], c["input"])

    def do_hint(self, ctx, c):
        ctx.seen([c["input"], c["pointer"]])
        o = "{ %s: { use_type: \"map\" } }" % rust_str(c["pointer"])
        return self.check(dict(c, options=o), self.text(c, c["input"], o), [PARSING, BAD_HINT], c["input"])

    def do_option(self, ctx, c):
        ctx.seen(c["block"])
        t = self.text(c, '{"a": 1}', c["block"])
        want = list(c["want"]) + ([MACRO] if c["via"] == "macro" else [])
        return self.check(dict(c, options=c["block"]), t, want, c["block"])

    def do_sql(self, ctx, c):
        ctx.seen(c["input"])
        return self.check(c, self.text(c, c["input"], '{ input_mode: "sql" }'), [SQL, c["want"]], c["input"])

    def do_source(self, ctx, c):
        how = c["how"]
        body = b'{"a": [1, 2, 3], "b": "' + b"x" * 3000 + b'"}'
        if how == "missing":
            src, want = "missing.json", [READING, "No such file"]
        elif how == "nofile in dir":
            src, want = os.path.join(self.dir, "none", "a.json"), [READING, "No such file"]
        elif how == "permission":
            open(os.path.join(self.dir, "plain"), "w").close()
            src, want = os.path.join(self.dir, "plain", "a.json"), [READING, "Not a directory"]
        elif how == "long":
            src, want = "x" * 300, [READING, "File name too long"]
        elif how == "directory":
            src, want = self.dir, [PARSING, IO]
        elif how == "status":
            src = self.http.add({"body": body, "mode": "length", "status": c["status"], "sizes": [4096]})
            want = [FETCHING, str(c["status"])]
        elif how == "refused":
            src, want = "http://127.0.0.1:%d/x" % self.closed, [FETCHING, "Connection refused"]
        else:
            src = self.http.add({"body": body, "mode": "length", "status": 200, "sizes": [500], "cut": 1500})
            want = [PARSING, None]
        t = self.text(c, src)
        if how == "cut":
            # the client may see the cut as an end or as an error
            if t[0] is None:
                return "no error for a response that was cut: %s" % t[1]
            if PARSING not in t[0] or not (IO in t[0] or CUT in t[0]):
                return "error text for a response that was cut: %r" % t[0][:600]
            ctx.stat("source cut")
            return None
        ctx.stat("source " + how)
        return self.check(c, t, want, src)

    def finish(self, merged):
        st = merged["stats"]
        need = ["kind " + k for k in ("sample", "unwrap", "hint", "option", "sql", "source")]
        need += ["fault " + k for k in ("cut", "utf8", "escape", "deep", "control", "comma", "colon", "word", "number", "after", "close", "swap", "byte")]
        need += ["through " + k for k in ("inline", "wasm", "macro", "cli", "stdin")]
        for k in need:
            if not merged["violations"] and not st.get(k):
                raise Inconclusive("never observed: " + k)
        return {}


def located(doc, prefix=()):
    yield prefix, doc
    if isinstance(doc, dict):
        for k, v in doc.items():
            yield from located(v, prefix + (tok(k),))
    elif isinstance(doc, list):
        for i, v in enumerate(doc):
            yield from located(v, prefix + (str(i),))
