"""C32: the macro, and macro-style input."""
import json
import os
import re
import shutil
import subprocess
import tempfile

from .. import build, gen
from ..drv import Inconclusive, crashed
from .delivery import Http, cli_env
from .inference import Driven, mutate, rust_str
from .languages import lang_doc
from .optblock import canonical, corrupt, join, random_items, spell, tokens

NAMES = ["Root", "root", "Foo", "pub Foo", "pub(crate) Bar", "pub(self) baz", "my_type", "\u00e9t\u00e9", "GeneratedType", "X1"]
DERIVES = ["Debug", "", "Debug, Clone", "Default, Debug, ::serde_derive::Serialize, ::serde_derive::Deserialize", "Debug,\n PartialEq", "Clone /* c */"]
TYPES = ["Opaque", "crate::Opaque", "super::super::Opaque", "::std::string::String", "Vec<crate::Opaque>", "Option<Box<str>>", "&'static str"]

PRELUDE = """#![allow(warnings)]
pub struct Opaque;
macro_rules! lits { ($n:literal, $s:literal $(, $($o:tt)*)?) => { json_typegen::json_typegen!($n, $s $(, $($o)*)?); } }
macro_rules! exprs { ($n:expr, $s:expr, $o:expr) => { json_typegen::json_typegen!($n, $s, $o); } }
macro_rules! toks { ($($t:tt)*) => { json_typegen::json_typegen! { $($t)* } } }
mod modules;
"""


class Invocations:
    """Real invocations of the real macro, many modules per crate."""

    def __init__(self, externs, cwd):
        self.externs, self.cwd, self.crates = externs, cwd, 0

    def rustc(self, mods, flags):
        """mods: [(id, module text)] -> (status, stdout, {id: [messages]})"""
        parts, spans, line = [], [], 1
        for i, text in mods:
            text = "mod %s {\n%s\n}\n" % (i, text)
            n = text.count("\n")
            spans.append((line, line + n - 1, i))
            line += n
            parts.append(text)
        src = os.path.join(self.cwd, "invocations.rs")
        # (the compiler's printer repeats comments of the main file, but not of others)
        with open(src, "w") as f:
            f.write(PRELUDE)
        with open(os.path.join(self.cwd, "modules.rs"), "w", newline="") as f:
            f.write("".join(parts))
        e = build.env()
        e["RUSTC_BOOTSTRAP"] = "1"
        for k in ("http_proxy", "HTTP_PROXY", "https_proxy", "HTTPS_PROXY", "ALL_PROXY", "all_proxy"):
            e.pop(k, None)
        cmd = ["rustc", "--edition", "2021", "--crate-type", "lib", "--error-format=json", "-Zdeduplicate-diagnostics=no"] + flags + [src] + self.externs
        p = subprocess.run(cmd, cwd=self.cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        self.crates += 1
        errs = {}
        for ln in p.stderr.decode("utf8", "replace").split("\n"):
            try:
                m = json.loads(ln)
            except ValueError:
                continue
            if m.get("level") not in ("error", "error: internal compiler error"):
                continue
            text = m["message"]
            for ch in m.get("children", ()):
                if ch["level"] == "help":
                    text += " [%s]" % ch["message"]
            where = None
            for s in m["spans"]:
                while s:
                    if s["file_name"].endswith("modules.rs"):
                        for a, b, i in spans:
                            if a <= s["line_start"] <= b:
                                where = i
                    s = (s.get("expansion") or {}).get("span")
            if "proc macro panicked" not in text:
                text = m["message"]
            errs.setdefault(where, []).append(text)
        return p.returncode, p.stdout.decode("utf8"), errs

    def expanded(self, mods):
        """-> ({id: expanded text}, {id: [errors]})"""
        rc, out, errs = self.rustc(mods, ["-Zunpretty=expanded"])
        texts, cur = {}, None
        for ln in out.split("\n"):
            m = re.match(r"    mod ([ab][0-9]+) \{", ln)
            if m:
                cur = m.group(1)
                texts[cur] = []
                ln = ln[m.end():]
            if cur and ln.strip():
                texts[cur].append(ln)
                if ln == "    }":
                    cur = None
        return {k: "\n".join(v) for k, v in texts.items()}, errs


class C32(Driven):
    id = "C32"
    technique = ("differential monitoring of rustc's expansion of real invocations of the real macro against library code, of rustc's diagnostics "
                 "for failing ones, and of the library's and CLI's treatment of macro-style text")
    level_note = ("exploration; two expansions are compared as the compiler prints them after all macros and derives, so the compiler is trusted "
                  "to print different items differently. `derives` with unbalanced brackets make rustc 1.99.1 itself panic and are left out")
    rule = "invocations over names, samples (inline, local, remote), literal forms, option blocks and corruptions; non-trivial: distinct invocations"
    batch = 140
    counts = (16000, 400000)

    def setup(self):
        super().setup()
        self.cli = os.path.join(build.build("cli"), "json_typegen")
        self.externs = build.macro_externs()

    def open(self, ctx):
        self.dir = tempfile.mkdtemp(prefix="vfm")
        from ..drv import Server
        self.s = Server(exe=self.exe, cwd=self.dir)
        self.http = Http()
        self.inv = Invocations(self.externs, self.dir)
        for f in ("sub", "sub dir"):
            os.mkdir(os.path.join(self.dir, f))

    def close(self, ctx):
        super().close(ctx)
        self.http.stop = True
        self.http.sock.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def cases(self, ctx):
        rng = ctx.rng
        for n in range(ctx.count(*self.counts)):
            doc = lang_doc(rng, 40)
            if not isinstance(doc, (dict, list)):
                doc = {"value": doc}
            text = gen.dump(doc, rng, vary=rng.random() < 0.3)
            c = {"name": rng.choice(NAMES), "sample": text}
            r = rng.random()
            c["deliver"] = "inline" if r < 0.7 else rng.choice(["local", "local", "remote"])
            items = []
            if rng.random() < 0.75:
                items = random_items(rng, doc)
                keep = []
                for it in items:
                    if it[0] == "output_mode":
                        if rng.random() < 0.7:
                            continue
                        it[1] = rng.choice(["rust", "rust", it[1]])
                    elif it[0] == "derives":
                        it[1] = rng.choice(DERIVES)
                    elif isinstance(it[1], list):
                        it[1] = [["use_type", rng.choice(TYPES + ["map"])]]
                    keep.append(it)
                items = keep
                c["options"] = items
            if rng.random() < 0.04:
                c["sample"] = "CREATE TABLE t (id INT NOT NULL, name VARCHAR(20), \"a b\" BOOLEAN);"
                c["deliver"] = "inline"
                c["options"] = [["input_mode", "sql"]]
            lit = "mixed" if "options" in c else None
            block = None
            r = rng.random()
            if "options" in c:
                style = rng.choice(["bare", "quoted", "mixed"])
                toks = tokens(rng, c["options"], style)
                if r < 0.12:
                    kind, bad = corrupt(rng, c["options"])
                    if self.balanced(bad):
                        toks, c["bad"] = bad, "options: " + kind
                        c.pop("options")
                block = join(rng, toks) if "bad" not in c else " ".join(toks)
                if rng.random() < 0.35:
                    block = spell(rng, block, "mixed")
                    c["string"] = True
            if rng.random() < 0.06 and "bad" not in c:
                c["sample"] = mutate(rng, text)
                c["deliver"] = rng.choice(["inline", "local", "remote"])
                c["bad"] = "sample"
            if rng.random() < 0.03 and "bad" not in c:
                c["deliver"] = rng.choice(["no file", "no host", "status"])
                c["bad"] = "source"
            args = [spell(rng, c["name"], "mixed"), None] + ([block] if block is not None else [])
            if rng.random() < 0.05 and "bad" not in c:
                c["bad"] = "arguments"
                k = rng.choice(["none", "one", "order", "number", "comma", "ident", "extra", "trailing", "byte", "semi", "doc"])
                c["corrupt"] = k
            c["args"] = args
            c["spell"] = rng.choice(["mixed", "mixed", "json"]) if "\\" not in c["sample"] and not re.search("[\\x00-\\x1f]", c["sample"]) else "mixed"
            c["seed"] = rng.randrange(1 << 30)
            c["form"] = rng.choice(["item", "item", "item", "braces", "brackets", "fn", "lits", "toks"] + (["exprs"] if c.get("string") else []))
            yield c

    @staticmethod
    def balanced(toks):
        """Whether the compiler can read the tokens at all."""
        depth = 0
        for t in toks:
            if t == "{":
                depth += 1
            elif t == "}":
                depth -= 1
                if depth < 0:
                    return False
            elif not re.fullmatch(r'[:,]|[A-Za-z_][A-Za-z_0-9]*|[0-9]+|"(?:[^"\\\r]|\\.)*"|r#"[^\r]*"#', t, re.S) or re.search(r'\\[^nrt0\\"\'xu]', t):
                return False
        return depth == 0

    def source(self, c, n):
        """The text of the second argument."""
        import random
        rng = random.Random(c["seed"])
        d = c["deliver"]
        if d == "inline":
            return c["sample"]
        if d == "no file":
            return rng.choice(["nothing.json", "sub/nothing.json", "", " ", "sub"])
        if d == "no host":
            return "http://127.0.0.1:9/x.json"
        data = c["sample"].encode()
        if d == "local":
            name = rng.choice(["s%d.json", "sub/s%d.json", "./s%d.json", "sub dir/\u00e9 %d.json", "s%d"]) % n
            with open(os.path.join(self.dir, name), "wb") as f:
                f.write(data)
            return name
        return self.http.add({"body": data, "mode": rng.choice(["length", "chunked"]), "status": 404 if d == "status" else 200,
                              "sizes": [1000]})

    def invocation(self, c, src):
        import random
        rng = random.Random(c["seed"] + 1)
        lit = rust_str(src) if c["spell"] == "json" else spell(rng, src, "mixed")
        a = list(c["args"])
        a[1] = lit
        k = c.get("corrupt")
        if k == "none":
            a = []
        elif k == "one":
            a = a[:1]
        elif k == "order":
            a = [a[1], "{ deny_unknown_fields }"]
        elif k == "number":
            a[rng.randrange(2)] = rng.choice(["1", "-1.5", "'c'", "true"])
        elif k == "comma":
            a = [a[0] + " " + a[1]] + a[2:]
        elif k == "ident":
            a[rng.randrange(2)] = rng.choice(["Foo", "concat!(\"a\")", "(\"a\")", "[]"])
        elif k == "extra":
            a = a[:2] + [rng.choice(["{}, {}", "{} {}", "{}, \"x\"", "\"{}\" \"{}\"", "\"{}\", 1"])]
        elif k == "trailing":
            a = a[:2] + [""]
        elif k == "byte":
            a[rng.randrange(2)] = rng.choice(["b\"a\"", "c\"a\"", "b'a'"])
        elif k == "semi":
            a = [a[0] + "; " + a[1]]
        elif k == "doc":
            a[0] = "#[doc = \"x\"] " + a[0]
        if "args_only" in c:
            return ", ".join(a)
        sep = rng.choice([", ", ",", ",\n", " , ", ", /* c */ ", ", // c\n"])
        return rng.choice(["", " ", "\n", "/* x */"]) + sep.join(a) + rng.choice(["", "", " ", "\n"])

    @staticmethod
    def module(form, args):
        if form == "braces":
            return "json_typegen::json_typegen! {%s}" % args
        if form == "brackets":
            return "json_typegen::json_typegen! [%s];" % args
        if form == "fn":
            return "fn f() {\njson_typegen::json_typegen!(%s);\n}" % args
        if form in ("lits", "toks", "exprs"):
            return "%s!(%s);" % (form, args)
        return "use json_typegen::json_typegen;\njson_typegen!(%s);" % args

    def judge(self, ctx, cases):
        out = [None] * len(cases)
        good, bad = [], []
        for i, c in enumerate(cases):
            src = self.source(c, i)
            args = self.invocation(c, src)
            plain = self.invocation(dict(c, args_only=1), src)
            what = None
            lib = None
            if "bad" not in c or c["bad"] in ("sample", "source"):
                block, sets = canonical(c.get("options", []))
                sets.setdefault("import_style", "qualified_paths")
                lib = self.s.codegen(src, name=c["name"], options=block, **sets)
            m = self.s.request({"op": "macro_input", "input": plain})
            if crashed(m) or lib is not None and crashed(lib):
                what = "the library crashed: %r" % (m if crashed(m) else lib)
            elif lib is not None:
                if m.get("ok") != lib.get("ok") or ("err" in lib) != ("err" in m) or lib.get("err") != m.get("err"):
                    what = "macro arguments and library code differ:\n%s\n---\n%s" % (m, lib)
                ctx.stat("library: macro arguments, " + ("code" if "ok" in m else "error"))
            elif "ok" in m:
                what = "a malformed invocation (%s) generates code" % c["bad"]
            if what is None and c["seed"] % 4 == 0 and "\r" not in plain:
                what = self.text(ctx, c, plain, m)
            if what:
                out[i] = "%s\ninvocation %s\ncase %s" % (what, plain[:1500], json.dumps(c)[:1500])
                continue
            ctx.seen(plain)
            if "\r" in args:
                continue  # not possible within Rust source text
            form = c["form"]
            if "ok" in m:
                mode = dict((k, v) for k, v in c.get("options", []) if isinstance(v, str)).get("output_mode", "rust")
                if mode != "rust":
                    bad.append((i, form, args, None))
                else:
                    good.append((i, form, args, lib["ok"]))
            else:
                if form in ("lits", "exprs") and c.get("bad") == "arguments" or form == "exprs":
                    form = "toks"
                if form == "lits" and c.get("bad", "").startswith("options"):
                    form = "toks"
                bad.append((i, form, args, m["err"]))
        self.good(ctx, cases, good, out)
        self.bad(ctx, cases, bad, out)
        ctx.stats["crates compiled"] = self.inv.crates
        return out

    def text(self, ctx, c, plain, m):
        """Macro-style text given to the library and to the CLI."""
        full = "json_typegen!(%s);" % plain
        r = self.s.request({"op": "macro", "input": full})
        if r.get("ok") != m.get("ok") or r.get("err") != m.get("err"):
            return "macro text is treated differently from its arguments:\n%.600r\n---\n%.600r" % (r, m)
        ctx.stat("library: macro text")
        if c["seed"] % 16 == 0 and "\0" not in full:
            p = subprocess.run([self.cli, full], cwd=self.dir, env=cli_env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if "ok" in m:
                if p.returncode != 0 or p.stdout.decode() != m["ok"]:
                    return "the CLI answers macro text differently: status %d\n%s%s\n---\n%s" % (p.returncode, p.stdout.decode(), p.stderr.decode(), m["ok"])
            elif p.returncode == 0 or p.stdout or m["err"].split("\n")[0] not in p.stderr.decode():
                return "the CLI answers failing macro text differently: status %d\n%s%s\n---\n%s" % (p.returncode, p.stdout.decode(), p.stderr.decode(), m["err"])
            ctx.stat("CLI: macro text, " + ("code" if "ok" in m else "error"))
        return None

    def good(self, ctx, cases, good, out):
        for _ in range(30):
            if not good:
                return
            mods = []
            for i, form, args, code in good:
                mods.append(("a%d" % i, self.module(form, args)))
                mods.append(("b%d" % i, "use json_typegen::json_typegen;\n" + code if form == "item" else "fn f() {\n%s\n}" % code if form == "fn" else code))
            texts, errs = self.inv.expanded(mods)
            broken = {int(k[1:]): k[0] for k in errs if k}
            sole = {}
            for k, v in errs.items():
                if k:
                    sole.setdefault(int(k[1:]), {})[k[0]] = v
            done = []
            for item in good:
                i, form, args, code = item
                a, b = texts.get("a%d" % i), texts.get("b%d" % i)
                if a is None or b is None:
                    continue
                done.append(i)
                e = sole.get(i, {})
                if a != b:
                    out[i] = "the macro defines other items than the library's code:\n%s\n---\n%s\nerrors %s\ninvocation %s" % (a[:900], b[:900], e, self.module(form, args)[:1200])
                elif sorted(e.get("a", [])) != sorted(e.get("b", [])):
                    out[i] = "the macro's items are refused differently: %s\ninvocation %s" % (e, self.module(form, args)[:1200])
                else:
                    ctx.stat("rustc: same items")
                    ctx.stat("rustc: same items, " + form)
                    ctx.stat("rustc: same items, sample " + cases[i]["deliver"])
                    ctx.stat("rustc: same items, options as " + ("a string" if cases[i].get("string") else "a block" if "options" in cases[i] else "nothing"))
                    if ctx.rng.random() < 0.002:
                        ctx.sample({"invocation": args, "expanded": a[:600]})
            if len(done) == len(good):
                return
            if not sole:
                raise Inconclusive("rustc printed nothing: %s" % errs)
            # errors that keep the compiler from printing: judge those modules and go on without them
            rest = []
            for item in good:
                i = item[0]
                if i in done:
                    continue
                e = sole.get(i)
                if e is None:
                    rest.append(item)
                elif sorted(e.get("a", [])) != sorted(e.get("b", [])):
                    out[i] = "the macro fails where the library's code is accepted, or otherwise: %s\ninvocation %s" % (e, self.module(item[1], item[2])[:1200])
                else:
                    ctx.stat("rustc: both refused alike")
            good = rest
        if good:
            raise Inconclusive("rustc does not print these modules: %s" % [x[0] for x in good][:5])

    def bad(self, ctx, cases, bad, out):
        if not bad:
            return
        mods = [("a%d" % i, self.module(form, args)) for i, form, args, _ in bad]
        rc, _, errs = self.inv.rustc(mods, ["--emit=metadata", "-o", os.path.join(self.dir, "x.rmeta")])
        if None in errs:
            errs[None] = [x for x in errs[None] if not x.startswith("aborting due to")]
        for i, form, args, err in bad:
            got = errs.get("a%d" % i, [])
            if any("panicked" in x for x in got):
                out[i] = "the macro panicked: %s\ninvocation %s" % (got, self.module(form, args)[:1200])
                continue
            if err is None:
                ctx.stat("rustc: output in another language, no panic")
                continue
            want = norm(err)
            if not any(norm(x) == want for x in got):
                out[i] = "the failing invocation is not a compile error with the library's message\n%r\nbut %r %r\ninvocation %s" % (
                    err, got, errs.get(None), self.module(form, args)[:1200])
                continue
            if len(got) > 1:
                out[i] = "the failing invocation gives further errors: %r\ninvocation %s" % (got, self.module(form, args)[:1200])
                continue
            ctx.stat("rustc: error message, bad " + cases[i].get("bad", "unwrap").split(":")[0])

    def finish(self, m):
        for k in ("rustc: same items, options as a string", "rustc: same items, options as a block", "rustc: same items, options as nothing",
                  "rustc: same items, sample local", "rustc: same items, sample remote", "rustc: error message, bad options",
                  "rustc: error message, bad sample", "rustc: error message, bad source", "rustc: error message, bad arguments",
                  "library: macro text", "CLI: macro text, code", "CLI: macro text, error", "rustc: output in another language, no panic"):
            if not m["stats"].get(k):
                raise Inconclusive("never observed: " + k)
        return {}


def norm(s):
    """The compiler prints tokens with its own spacing, and quotes rest of the input in messages."""
    s = re.sub(r"(remaining input was ').*", r"\1", s, flags=re.S)
    return " ".join(s.split())
