"""C38: the Cargo features of the library and the macro crate decide only which sources and interfaces exist."""
import itertools
import json
import os
import shutil
import subprocess
import tempfile

from .. import build, gen
from ..core import Check
from ..drv import Inconclusive, Server, crashed
from .delivery import Http, cli_env
from .inference import FORMATS, MODES, STYLES, WS, mutate, parse_json, paths, random_options, random_sql, rust_str
from .languages import lang_doc

SHARED = ["remote-samples", "local-samples", "option-parsing", "progress"]
MACRO = ["remote-samples", "local-samples"]


def combos(fs):
    return [c for n in range(len(fs) + 1) for c in itertools.combinations(fs, n)]


def label(c):
    return "+".join(c) or "none"


class C38(Check):
    id = "C38"
    technique = ("differential monitor over builds: the library built with each of the 16 feature sets (and the macro with each of 4) runs the same "
                 "requests, next to a counting HTTP server and real files")
    level_note = "exploration; equality between the builds is the oracle for inline samples, delivery of the same sample for files and URLs"
    rule = ("16 builds of the library and 4 of the macro x samples (valid, malformed, SQL) inline, in a file, over HTTP, under random settings; "
            "non-trivial: distinct cases that give code in at least one build")
    shards = 8

    def setup(self):
        self.exes, self.failed, self.macros = {}, {}, {}
        # the default build is the reference: if that fails there is nothing to compare
        build.build("driver")
        for c in combos(SHARED):
            try:
                self.exes[label(c)] = build.build_features("driver", "vf_driver", c)
            except build.BuildError as e:
                self.failed["library " + label(c)] = str(e)
        for c in combos(MACRO):
            try:
                self.macros[label(c)] = build.macro_features(c)
            except build.BuildError as e:
                self.failed["macro " + label(c)] = str(e)

    def open(self, ctx):
        self.dir = tempfile.mkdtemp(prefix="vf38")
        self.http = Http()
        for k in list(os.environ):
            if k.lower().endswith("_proxy"):
                del os.environ[k]
        self.servers = {k: Server(exe=e, cwd=self.dir) for k, e in self.exes.items()}

    def close(self, ctx):
        for s in self.servers.values():
            s.close()
        self.http.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def cases(self, ctx):
        rng = ctx.rng
        if ctx.shard == 0:
            yield {"kind": "build"}
        for c in ctx.mine([{"kind": "macro", "features": k, "seed": i} for i in range(4 if ctx.quick else 40) for k in self.macros]):
            yield c
        for _ in range(ctx.count(12000, 200000)):
            doc = lang_doc(rng, 120)
            text = gen.dump(doc, rng, rng.random() < 0.5)
            sets = {"output_mode": rng.choice(MODES)}
            if rng.random() < 0.3:
                sets["property_name_format"] = rng.choice(FORMATS)
            if rng.random() < 0.3:
                sets["import_style"] = rng.choice(STYLES)
            if rng.random() < 0.2:
                sets["infer_map_threshold"] = rng.choice([0, 1, 3])
            if rng.random() < 0.2:
                sets["unwrap"] = "/" + "/".join(rng.choice(list(paths(doc)))) if rng.random() < 0.8 else "/nowhere"
                if sets["unwrap"] == "/":
                    del sets["unwrap"]
            for k in ("deny_unknown_fields", "use_default_for_missing_fields", "collect_additional"):
                if rng.random() < 0.1:
                    sets[k] = True
            r = rng.random()
            if r < 0.2:
                text = mutate(rng, text)
            name = rng.choice(["Root", "Root", "pub Root", "a", "pub(crate) Thing"])
            if rng.random() < 0.1:
                b = text.encode("utf8", "surrogatepass")
                for _ in range(rng.choice([1, 1, 2])):
                    i = rng.randrange(len(b) + 1)
                    b = b[:i] + rng.choice([b"\xff", b"\xc3", b"\xe2\x80", b"\xef\xbb\xbf", b"\0", b"\r\n", b"\x0b", b"\x1a", "\u2028".encode(), "\u00a0".encode(), b"\x80"]) + b[i:]
                yield {"kind": "bytes", "bytes": b.decode("latin1"), "set": sets, "name": name, "via": rng.choice(["file", "http"])}
                continue
            if rng.random() < 0.2:
                yield {"kind": "block", "text": rng.choice([text, random_sql(rng)]), "options": rng.choice(["", random_options(rng, doc)]) or '{ input_mode: "sql" }',
                       "op": rng.choice(["codegen", "macro_input"]), "name": name}
                continue
            yield {"kind": "run", "text": text, "set": sets, "name": name, "pad": rng.choice(["", "", " ", "\n\t"]),
                   "via": rng.choice(["inline", "inline", "file", "http"]), "word": rng.choice(["", "nonsense", "a b", "-", "nul", "a.json", "ftp://a.b/c"]) if rng.random() < 0.05 else None}

    def judge(self, ctx, cases):
        return [self.judge_one(ctx, c) for c in cases]

    def judge_one(self, ctx, c):
        if c["kind"] == "build":
            for k, e in self.failed.items():
                return "the %s build does not compile:\n%s" % (k, e[-2500:])
            ctx.stat("library_builds", len(self.exes))
            ctx.stat("macro_builds", len(self.macros))
            return None
        if c["kind"] == "macro":
            return self.macro(ctx, c)
        if c["kind"] == "block":
            return self.block(ctx, c)
        if c["kind"] == "bytes":
            return self.bytes(ctx, c)
        text = c["text"].encode("utf8", "surrogatepass").decode("utf8", "replace")
        inline = self.all(ctx, text, c)
        ref = inline.get(label(tuple(SHARED))) or next(iter(inline.values()))
        looks_inline = text.strip()[:1] in ("{", "[") if text.strip() else False
        if looks_inline:
            for k, r in inline.items():
                if crashed(r):
                    return "%s: %s" % (k, r)
                if r.get("ok") != ref.get("ok") or r.get("err") != ref.get("err"):
                    return "inline sample: built with %s:\n%s\nwith %s:\n%s" % (k, show(r), label(tuple(SHARED)), show(ref))
            ctx.stat("inline_runs", len(inline))
            if "ok" in ref:
                ctx.seen([text, c["set"], c["name"]])
                ctx.sample({"text": text[:200], "set": c["set"], "builds": len(inline)})
        if c["word"] is not None:
            # neither a sample nor a file nor a URL
            for k, r in self.all(ctx, c["word"], c).items():
                if crashed(r):
                    return "%s: %s" % (k, r)
                if "ok" in r:
                    return "built with %s, %r gave code" % (k, c["word"])
            ctx.stat("not_a_source")
        if c["via"] == "inline" or not looks_inline or text.strip(WS) != text.strip(" \t\r\n"):
            return None
        if c["via"] == "file":
            path = os.path.join(self.dir, "sample.json")
            with open(path, "wb") as f:
                f.write(text.encode())
            arg, need = ctx.rng.choice([path, "sample.json", "./sample.json", " sample.json"]), "local-samples"
        else:
            arg = self.http.add({"body": text.encode(), "mode": "length", "status": 200, "sizes": [4096]})
            need = "remote-samples"
        for k in inline:
            before = self.http.served
            r = self.run(k, arg, c)
            if crashed(r):
                return "%s: %s: %s" % (k, c["via"], r)
            asked = self.http.served - before
            if need in k.split("+"):
                if r.get("ok") != ref.get("ok"):
                    return "built with %s, sample from %s:\n%s\ninline:\n%s" % (k, c["via"], show(r), show(ref))
                if c["via"] == "http" and asked != 1:
                    return "built with %s: %d requests for one sample" % (k, asked)
                ctx.stat("fetched" if need[0] == "r" else "read")
            else:
                if "ok" in r:
                    return "built with %s (without %s), the sample was read from %r nevertheless:\n%s" % (k, need, arg, show(r))
                if asked:
                    return "built with %s, the server was asked for %r" % (k, arg)
                ctx.stat("refused")
        return None

    def bytes(self, ctx, c):
        """A file or response with odd bytes is read alike by all builds that can read it"""
        b = c["bytes"].encode("latin1")
        if c["via"] == "file":
            arg = os.path.join(self.dir, "bytes.json")
            with open(arg, "wb") as f:
                f.write(b)
        else:
            arg = self.http.add({"body": b, "mode": "length", "status": 200, "sizes": [4096]})
        need = "local-samples" if c["via"] == "file" else "remote-samples"
        got = {k: self.run(k, arg, c) for k in self.servers if need in k.split("+")}
        ref = next(iter(got.values()))
        for k, r in got.items():
            if crashed(r):
                return "%s: %s" % (k, r)
            if r.get("ok") != ref.get("ok") or r.get("err") != ref.get("err"):
                return "the same %s: built with %s:\n%s\nwith %s:\n%s" % (c["via"], k, show(r), next(iter(got)), show(ref))
        ctx.stat("odd_bytes", len(got))
        return None

    def block(self, ctx, c):
        """Everything that reads options is the same in all builds that can"""
        text = c["text"].encode("utf8", "surrogatepass").decode("utf8", "replace")
        if c["op"] == "codegen":
            req = {"op": "codegen", "name": c["name"], "input": text, "options": c["options"]}
        else:
            req = {"op": "macro_input", "input": "%s, %s, %s" % (rust_str(c["name"]), rust_str(text), c["options"])}
        if text.strip()[:1] not in ("{", "[") and "sql" not in c["options"]:
            return None
        got = {k: s.request(req) for k, s in self.servers.items() if "option-parsing" in k.split("+")}
        ref = got[label(tuple(SHARED))] if label(tuple(SHARED)) in got else next(iter(got.values()))
        for k, r in got.items():
            if crashed(r):
                return "%s: %s" % (k, r)
            if r.get("ok") != ref.get("ok") or r.get("err") != ref.get("err"):
                return "options %s: built with %s:\n%s\nwith %s:\n%s" % (c["options"], k, show(r), label(tuple(SHARED)), show(ref))
        ctx.stat("with_options", len(got))
        if "ok" in ref:
            ctx.seen([text, c["options"]])
        return None

    def run(self, k, text, c):
        return self.servers[k].request({"op": "codegen", "name": c["name"], "input": text, "set": c["set"]})

    def all(self, ctx, text, c):
        return {k: self.run(k, c["pad"] + text + c["pad"], c) for k in self.servers}

    def macro(self, ctx, c):
        """Invocations with an inline sample, a file and a URL, in this build of the macro"""
        import random
        rng = random.Random("%s/%d" % (c["features"], c["seed"]))
        have = c["features"].split("+")
        doc = {"alpha": gen.Num(1), "beta": [{"gamma": "x"}], "delta": None if rng.random() < 0.5 else True}
        text = gen.dump(doc)
        with open(os.path.join(self.dir, "macro sample.json"), "w") as f:
            f.write(text)
        for via in ("inline", "file", "http"):
            before = self.http.served
            arg = text if via == "inline" else "macro sample.json" if via == "file" else \
                self.http.add({"body": text.encode(), "mode": "length", "status": 200, "sizes": [4096]})
            block = rng.choice(["", ", { derives: \"Debug\" }", ", { unwrap: \"/beta/-\" }"])
            field = "gamma" if "unwrap" in block else "beta"
            src = os.path.join(self.dir, "m.rs")
            with open(src, "w") as f:
                f.write("extern crate json_typegen;\nuse json_typegen::json_typegen;\njson_typegen!(%s, %s%s);\n"
                        "pub fn used(x: &Sample) { let _ = &x.%s; }\n" % (rust_str("pub Sample"), rust_str(arg), block, field))
            e = build.env()
            e["RUSTC_BOOTSTRAP"] = "1"
            # (expansion alone: the generated code needs no serde then)
            p = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "-Zunpretty=expanded", "--extern",
                                "json_typegen=" + self.macros[c["features"]], src], cwd=self.dir, env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            err, out = p.stderr, p.stdout
            if "panicked" in err:
                return "macro built with %s, %s: %s" % (c["features"], via, err[-1500:])
            given = "struct Sample" in out and field + ":" in out
            failed = "error" in err and "An error occurred" in err
            need = {"inline": None, "file": "local-samples", "http": "remote-samples"}[via]
            if need is None or need in have:
                if not given or failed:
                    return "macro built with %s, sample from %s: no types:\n%s\n%s" % (c["features"], via, out[-800:], err[-1500:])
            elif given or not failed:
                return "macro built with %s (without %s): expected a compile error for %r:\n%s\n%s" % (c["features"], need, arg, out[-800:], err[-1500:])
            if via == "http" and self.http.served - before != ("remote-samples" in have):
                return "macro built with %s: %d requests for %s" % (c["features"], self.http.served - before, arg)
            ctx.stat("macro_expansions")
            ctx.seen([c["features"], via, block])
        return None

    def finish(self, merged):
        st = merged["stats"]
        for k in ("inline_runs", "with_options", "odd_bytes", "fetched", "read", "refused", "macro_expansions"):
            if not merged["violations"] and not st.get(k):
                raise Inconclusive("nothing observed: " + k)
        return {}


def show(r):
    return (r.get("ok") or "error: " + str(r.get("err")))[:700]
