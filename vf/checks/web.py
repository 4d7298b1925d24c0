"""C33, C35, C36: the WebAssembly entry point and the web interface's scripts."""
import json
import os
import socket
import tempfile

from .. import build, gen
from ..core import Check
from ..drv import Inconclusive, Server, crashed
from .inference import (Bad, Driven, FORMATS, MODES, NAMES, STYLES, Skip, mutate, parse_json, paths, random_options, random_sql, rust_str)
from .languages import lang_doc
from .optblock import canonical, join, random_items, tokens


def web_options(rng):
    """What the web page sends: every control, then what the user typed as extra options."""
    o = {"output_mode": rng.choice(MODES), "input_mode": "json", "property_name_format": rng.choice([""] + FORMATS),
         "import_style": rng.choice(STYLES), "unwrap": "", "collect_additional": rng.random() < 0.3,
         "infer_map_threshold": rng.choice(["", "", "3", "10"])}
    if rng.random() < 0.3:
        o.update(rng.choice([{"derives": "Debug"}, {"deny_unknown_fields": True}, {"allow_option_vec": True}, {"output_mode": "shape"},
                             {"/a": {"use_type": "map"}}, {"/-": {"use_type": "X"}}, {"nope": 1}, {"derives": None}, {"derives": 3},
                             {"/a": "map"}, {"collect_additional": "true"}]))
    return json.dumps(o, ensure_ascii=False, separators=(",", ":"))


class C33(Driven):
    id = "C33"
    technique = "differential monitor: the real wasm wrapper (built for the host, without file and network features) against the library"
    level_note = ("exploration; the wrapper is compiled for the host, not to WebAssembly (no wasm target is installed), so wasm-bindgen's glue is "
                  "not covered. A listening socket and an existing file observe that nothing is fetched")
    rule = ("valid, mutated and non-JSON inputs, SQL, block and JSON options, odd names; non-trivial: distinct (input, options) for which code "
            "was generated by both")
    counts = (200000, 4000000)

    def setup(self):
        super().setup()
        self.wexe = os.path.join(build.build("wasm_driver"), "vf_wasm_driver")

    def open(self, ctx):
        super().open(ctx)
        self.dir = tempfile.mkdtemp(prefix="vfw")
        with open(os.path.join(self.dir, "sample.json"), "w") as f:
            f.write('{"a": 1}')
        self.w = Server(exe=self.wexe, cwd=self.dir)
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(16)
        self.sock.setblocking(False)
        self.port = self.sock.getsockname()[1]

    def close(self, ctx):
        super().close(ctx)
        self.w.close()
        self.sock.close()
        os.unlink(os.path.join(self.dir, "sample.json"))
        os.rmdir(self.dir)

    def cases(self, ctx):
        rng = ctx.rng
        for _ in range(ctx.count(*self.counts)):
            name = rng.choice(NAMES) if rng.random() < 0.2 else rng.choice(["Root", "Foo", "my_type"])
            doc = lang_doc(rng, 80)
            if rng.random() < 0.5:
                opts = web_options(rng)
            elif rng.random() < 0.6:
                opts = join(rng, tokens(rng, random_items(rng, doc), rng.choice(["bare", "quoted", "mixed"])))
            else:
                opts = random_options(rng, doc)
            if rng.random() < 0.07:
                opts = mutate(rng, opts)
            r = rng.random()
            text = gen.dump(doc, rng, vary=rng.random() < 0.3)
            if r < 0.55:
                text = rng.choice(["", "", " ", "\n\t", "\r\n "]) + text + rng.choice(["", "", " \n"])
            elif r < 0.75:
                text = mutate(rng, text)
            elif r < 0.85:
                text = random_sql(rng)
                opts = json.dumps({"input_mode": "sql", "output_mode": rng.choice(MODES)})
            else:
                text = rng.choice(["sample.json", "./sample.json", os.path.join(self.dir, "sample.json"), "file://" + self.dir + "/sample.json",
                                   "http://127.0.0.1:%d/sample.json" % self.port, "http://localhost:%d/" % self.port,
                                   "https://127.0.0.1:%d/a" % self.port, " http://127.0.0.1:%d/x\n" % self.port, "", " ", "nope.json", "-",
                                   "/etc/hostname", "hello", "CREATE TABLE t (a INT)", "json_typegen!(\"A\", \"{}\");", "a: 1", "<xml/>",
                                   "\ufeff{}", "undefined", "NaN", "'a'", "tru", "1 2", "\"a", "null x", "{", "[", "42", "\"x\"", "true", "null"])
            yield {"name": name, "input": text, "options": opts}

    def judge(self, ctx, cases):
        out = []
        for c in cases:
            f = self.one(ctx, c)
            try:
                conn, _ = self.sock.accept()
                conn.close()
                f = f or "the wasm build opened a network connection for %r" % c["input"]
            except BlockingIOError:
                pass
            out.append(f)
        return out

    def one(self, ctx, c):
        r = self.w.request(c)
        if "ok" not in r:
            return "run panicked or died: %r\n%s" % (r, json.dumps(c)[:1500])
        got = r["ok"]
        inline = c["input"].strip()[:1] in ("{", "[")
        err = got.startswith("Error: ")
        sql = self.is_sql(c["options"])
        if not sql and not inline:
            try:
                # inline input may be surrounded by any Unicode white space
                parse_json(c["input"].strip(" \t\r\n\v\f\x85\xa0\u1680\u2028\u2029\u202f\u205f\u3000" + "".join(map(chr, range(0x2000, 0x200b)))))
            except Skip:
                return None
            except Bad:
                ctx.stat("input that is not JSON")
                if not err:
                    return "input that is not JSON gave code:\n%s\n%s" % (json.dumps(c)[:800], got[:800])
            return None
        w = self.s.codegen(c["input"], name=c["name"], options=c["options"])
        if crashed(w):
            return "the library crashed: %r\n%s" % (w, json.dumps(c)[:1500])
        want = w["ok"] if "ok" in w else "Error: " + w["err"]
        if got != want:
            return "run and the library differ\n%s\nrun: %s\nlibrary: %s" % (json.dumps(c)[:1500], got[:800], want[:800])
        if "ok" in w:
            if err:
                return "generated code looks like an error: %s" % got[:300]
            ctx.stat("same code")
            ctx.seen(c["input"] + c["options"])
            ctx.sample({"options": c["options"], "input": c["input"][:200], "result": got[:200]})
        else:
            ctx.stat("same error at " + w["stage"])
        return None

    def is_sql(self, opts):
        return "ok" in self.s.codegen("CREATE TABLE t (a INT)", options=opts)

    def finish(self, m):
        if not m["stats"].get("same code") or not m["stats"].get("same error at codegen") or not m["stats"].get("same error at options"):
            raise Inconclusive("some kind of outcome was never observed")
        return {}


TEXT = object()


class C35(Check):
    id = "C35"
    technique = "offline checker over event logs of the real worker script under a controlled event loop with injected read delays and failures"
    level_note = ("exploration; worker.ts is bundled by esbuild and run in node with stand-ins for the wasm module, postMessage and FileReader. "
                  "Task granularity is the browser's: one message or one finished read, then all microtasks")
    rule = ("random histories of requests, file selections, clears, and reads that end early, late, in another order, fail or never end; "
            "non-trivial: distinct histories in which a read ended after a newer selection or a clear, or with two reads open at once")
    batch = 50
    counts = (150000, 3000000)

    def setup(self):
        self.cmd = ["node", os.path.join(build.VERIF, "node", "worker.mjs"), build.REPO]

    def open(self, ctx):
        self.s = Server(exe=self.cmd, mem=None)

    def close(self, ctx):
        self.s.close()

    def cases(self, ctx):
        rng = ctx.rng
        for _ in range(ctx.count(*self.counts)):
            ops, fid, openreads, ready, asked = [], 0, [], False, []
            p = rng.choice([0.2, 0.4, 0.6])
            for _ in range(rng.choice([3, 6, 10, 16, 30])):
                r = rng.random()
                if not ready and rng.random() < 0.7:
                    ops.append(["ready"])
                    ready = True
                elif r < p and ready:
                    if asked and rng.random() < 0.4:
                        # the very same request again, or all but one part of it
                        again = list(rng.choice(asked))
                    else:
                        again = ["codegen", rng.choice(["Root", "Foo", "", "\u00e9", " Root", "Root ", "pub Foo", "\t\n", "a|b"]) + rng.choice(["", str(len(ops))]),
                                 rng.choice(["{}", "", "text%d" % len(ops), "[1]", " {} ", "\n", "\ufeff{}"]),
                                 rng.choice([{}, {"output_mode": "rust"}, {"unwrap": "/a", "n": len(ops)}, {"/a": {"use_type": "map"}},
                                             {"derives": "", "x": None, "y": [1, {"z": "\u2028"}]}])]
                    if rng.random() < 0.3 and asked:
                        k = rng.randint(1, 3)
                        again[k] = rng.choice(asked)[k]
                    asked.append(again)
                    ops.append(again)
                elif r < p + (1 - p) * 0.4:
                    ops.append(["load", fid, rng.choice(["", "file%d" % fid, "file%d" % fid, "same"])])
                    openreads.append(fid)
                    fid += 1
                elif r < p + (1 - p) * 0.85 and openreads:
                    f = rng.choice([openreads[-1], openreads[-1], openreads[0], rng.choice(openreads)])
                    openreads.remove(f)
                    ops.append(["fail" if rng.random() < 0.1 else "finish", f])
                elif r > 0.85:
                    ops.append(["clear"])
            if rng.random() < 0.6:
                rng.shuffle(openreads)
                ops += [["finish", f] for f in openreads]
            if not ready:
                ops.append(["ready"])
            for k in range(2):
                ops.append(["codegen", "Last%d" % k, "last text", {}])
            yield {"ops": ops}

    def judge(self, ctx, cases):
        r = self.s.request({"histories": [c["ops"] for c in cases]})
        if not isinstance(r, list):
            raise Inconclusive("worker could not be run: %r" % r)
        return [self.check(ctx, c["ops"], log) for c, log in zip(cases, r)]

    def check(self, ctx, ops, log):
        allowed, latest, openreads, content = [TEXT], None, set(), {}
        want, raced = [], False          # the messages expected, step by step
        for i, op in enumerate(ops):
            if op[0] == "ready":
                want.append((i, "WASM_READY", None))
            elif op[0] == "codegen":
                want.append((i, "CODEGEN_COMPLETE", (op, [op[2] if a is TEXT else a for a in allowed])))
            elif op[0] == "load":
                content[op[1]] = op[2]
                latest = op[1]
                openreads.add(op[1])
                allowed = allowed + [TEXT]
                if len(openreads) > 1:
                    raced = True
            elif op[0] == "clear":
                latest, allowed = None, [TEXT]
                if openreads:
                    raced = True
            elif op[0] == "finish":
                openreads.discard(op[1])
                if op[1] == latest:
                    allowed = [content[op[1]]]
                want.append((i, "LOAD_FILE_COMPLETE", None))
            else:
                # a file that can not be read is answered as well, or the page would wait for ever
                openreads.discard(op[1])
                if op[1] == latest:
                    allowed = [TEXT]
                want.append((i, "LOAD_FILE_COMPLETE", None))
        text = json.dumps(ops)
        for i, m in log:
            if "threw" in m:
                return "message handler threw %s at step %d of %s" % (m["threw"], i, text)
        got = [(i, m) for i, m in log if "warn" not in m]
        for k in range(max(len(got), len(want))):
            if k >= len(want):
                return "a message too many: %r\nhistory %s" % (got[k], text)
            i, typ, arg = want[k]
            if k >= len(got):
                return "step %d %r: no %s was sent\nhistory %s" % (i, ops[i], typ, text)
            j, m = got[k]
            if m.get("type") != typ or j != i:
                return "step %d %r: expected %s, the next message is %r at step %d\nhistory %s" % (i, ops[i], typ, m, j, text)
            if typ != "CODEGEN_COMPLETE":
                continue
            op, inputs = arg
            res = json.loads(m["result"])
            if m["typename"] != op[1] or m["options"] != op[3]:
                return "step %d: the answer echoes %r, %r for %r\nhistory %s" % (i, m["typename"], m["options"], op, text)
            if res["name"] != op[1] or json.loads(res["options"]) != op[3]:
                return "step %d: code was generated for %r instead of %r\nhistory %s" % (i, res, op, text)
            if res["input"] not in inputs:
                return "step %d: code was generated from %r, the current input is %s\nhistory %s" % (
                    i, res["input"], " or ".join(repr(x) for x in dict.fromkeys(inputs)), text)
            ctx.stat("requests answered")
            ctx.stat("answered from a file" if res["input"] != op[2] else "answered from the text")
        for op in ops:
            ctx.stat("op " + op[0])
        if raced:
            ctx.seen(text)
            ctx.sample({"history": ops[:12], "messages": [m for _, m in log][:6]})
        return None

    def finish(self, m):
        for k in ("answered from a file", "answered from the text", "op clear", "op fail", "op finish"):
            if not m["stats"].get(k):
                raise Inconclusive("never observed: " + k)
        return {}
