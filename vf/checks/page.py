"""C36, C37: the web page, with its worker, under a controlled event loop."""
import json
import os
import re

from .. import build, gen
from ..core import Check
from ..drv import Inconclusive, Server, crashed
from .inference import FORMATS, MODES, STYLES
from .languages import lang_doc

FIELDS = {"inputmode": "input_mode", "outputmode": "output_mode", "propertynameformat": "property_name_format",
          "importstyle": "import_style", "unwrappath": "unwrap", "collectadditional": "collect_additional",
          "infermapthreshold": "infer_map_threshold"}
DEFAULTS = {"property_name_format": "", "import_style": "assume_existing", "unwrap": "", "collect_additional": False,
            "infer_map_threshold": "", "input_mode": "json"}
EXTENSIONS = {"rust": "rs", "typescript": "ts", "typescript/typealias": "ts", "zod": "ts", "kotlin/jackson": "kt",
              "kotlin/kotlinx": "kt", "python": "py", "json_schema": "json", "shape": "json"}
EXAMPLES = 5
EXTRAS = ["", "", "{}", " ", "{\"derives\": \"Debug\"}", "{\"unwrap\": \"/x\"}", "{\"output_mode\": \"shape\"}", "{\"output_mode\": \"zod\"}",
          "{\"import_style\": \"add_imports\"}\n", "{\"/a\": {\"use_type\": \"map\"}}", "{\"n\": null, \"input_mode\": \"sql\"}"]
BAD_EXTRAS = ["{", "nope", "{derives: \"X\"}", "{\"a\": 1,}", "{} {}", "\"", "{'a': 1}", "[1"]
NAMES = ["Root", "Foo", "MyRoot", "", " x ", "a b", "\u00e9t\u00e9", "pub Foo", "X" * 40]


def number_text(rng):
    return rng.choice(["1.0", "1e2", "-0.0", "12345678901234567890", "0.1", "9007199254740993", "1E400", "3", "-7", "1.50"])


def raw_json(rng, d=0):
    """JSON text in which numbers, keys and escapes are written in ways a parse to JS values does not keep."""
    r = rng.random()
    ws = lambda: rng.choice(["", "", "", " ", "\n", "\t"])
    if d > 2 or r < 0.35:
        return rng.choice([number_text(rng), number_text(rng), "true", "null", "\"a\\u0041\\/\"", "\"\"", "\"{[,:]}\"", "\"q\\\"\\\\\"", "\"\u2028\u00e9\\ud83d\\ude00\"",
                           "[]", "{}", "\" : , \""])
    if r < 0.65:
        return "[" + ws() + ("," + ws()).join(raw_json(rng, d + 1) + ws() for _ in range(rng.randint(0, 3))) + "]"
    keys = [rng.choice(["a", "b", "2", "10", "1", "__proto__", "\\u0062", "", "a b", "constructor", "x\\\"y"]) for _ in range(rng.randint(0, 4))]
    return "{" + ws() + ("," + ws()).join("\"%s\"%s:%s%s%s" % (k, ws(), ws(), raw_json(rng, d + 1), ws()) for k in keys) + "}"


def squeeze(text):
    """The text without the white space outside of strings: what formatting may not change."""
    return re.sub(r'("(?:[^"\\]|\\.)*"?)|[ \t\r\n]+', lambda m: m.group(1) or "", text, flags=re.S)


class Bad(Exception):
    pass


class Page(Check):
    technique = "trace monitor over the real web page and its worker under a controlled event loop with injected delays and failures"
    level_note = ("exploration; App.svelte and its components are compiled by a small compiler of our own (node/svelte.mjs; Svelte is not installed) "
                  "and run in node, together with the real worker.ts, against stand-ins for the DOM, storage, file reads, the code highlighter and the "
                  "wasm module (which records its arguments). One task at a time: a user action, a delivered message or a finished read or load, then "
                  "all microtasks")
    batch = 8
    counts = (9000, 400000)
    controls = False

    def setup(self):
        self.cmd = ["node", os.path.join(build.VERIF, "node", "page.mjs"), build.REPO]
        self.wexe = os.path.join(build.build("wasm_driver"), "vf_wasm_driver")
        build.build("driver")

    def open(self, ctx):
        self.s = Server(exe=self.cmd, mem=None)
        self.w = Server(exe=self.wexe)
        self.lib = Server()

    def close(self, ctx):
        self.s.close()
        self.w.close()
        self.lib.close()

    # -- workloads --------------------------------------------------------
    def text(self, rng):
        r = rng.random()
        if r < 0.45:
            return gen.dump(lang_doc(rng, 25), rng)
        if r < 0.7:
            return raw_json(rng)
        return rng.choice(["", "{}", " ", "[", "{\"a\":", "nope", "CREATE TABLE t (a INT);", "42", "{\"a\": 1}", "{\"a\": 1} ", "\ufeff{}", "text%d" % rng.randint(0, 99)])

    def action(self, rng, n):
        r = rng.random()
        if r < 0.16:
            return ["type", "typename", rng.choice(NAMES) + rng.choice(["", "", str(n)])]
        if r < 0.32:
            return ["type", "input", self.text(rng)]
        if r < 0.40:
            return ["pick", "outputmode", rng.choice(MODES)]
        if r < 0.43:
            return ["pick", "inputmode", rng.choice(["json", "sql"])]
        if r < 0.46:
            return ["pick", "propertynameformat", rng.choice([""] + FORMATS)]
        if r < 0.49:
            return ["pick", "importstyle", rng.choice(STYLES)]
        if r < 0.51:
            return ["check", "collectadditional"]
        if r < 0.54:
            return ["type", "unwrappath", rng.choice(["", "/a", "/-/b", "/cards/-", " "])]
        if r < 0.57:
            return ["type", "infermapthreshold", rng.choice(["", "3", "10", "1"])]
        if r < 0.63:
            return ["type", "extraoptions", rng.choice(EXTRAS) if rng.random() < 0.6 else rng.choice(BAD_EXTRAS)]
        if r < 0.76:
            # contents are told apart by their names; a file of any content may be large or small
            size = rng.choice([1, 500, 499999, 500000, 500001, 600000, 5000000, 10**9])
            return ["file", {"name": "f%d.json" % n, "size": size, "content": "{\"file\": %d}" % n if rng.random() < 0.8 else raw_json(rng) or "{}"}]
        if r < 0.78:
            return ["nofile"]
        if r < 0.84:
            return ["button", "clear input"]
        if r < 0.89:
            return ["link", rng.choice(["hacker news", "magic cards", "steam", "world bank", "zalando", "point"])]
        if r < 0.94:
            return ["button", "format json"]
        return ["button", "copy to"]

    def cases(self, ctx):
        rng = ctx.rng
        for k in range(ctx.count(*self.counts)):
            spec = {"ops": []}
            r = rng.random()
            if r < 0.06:
                spec["storageMode"] = rng.choice(["full", "blocked", "denied"])
            elif r < 0.12:
                spec["storage"] = {"json_typegen_params": rng.choice(["", "{", "null", "{}", "nonsense", "[]", "{\"options\":null}", "{\"typename\":\"T\"}"])}
            ops = spec["ops"]
            if rng.random() < 0.5:
                ops += [["wasm"], ["toPage"], ["hl"]]
            n = 0
            busy = rng.choice([0.3, 0.5, 0.7])
            for _ in range(rng.choice([4, 8, 14, 24, 40])):
                n += 1
                if rng.random() < busy:
                    o = self.action(rng, n)
                    ops.append(o)
                    if self.controls and rng.random() < 0.01 and k % 20 == 0:
                        ops.append(["type", "input", "[%s1]" % ("1," * rng.choice([499998, 499999, 500000, 450000]))])
                    continue
                r = rng.random()
                if r < 0.3:
                    ops.append(["toWorker", rng.randint(0, 3)])
                elif r < 0.6:
                    ops.append(["toPage"])
                elif r < 0.8:
                    ops.append(["read", rng.randint(0, 5), rng.random() < 0.88])
                elif r < 0.85:
                    ops.append(["wasm"])
                elif r < 0.9:
                    ops.append(["hl"])
                elif r < 0.93:
                    ops.append(["reload"])
                else:
                    ops.append(["settle", rng.randint(1, 10**6)])
            ops.append(["settle", rng.randint(1, 10**6)])
            if self.controls and rng.random() < 0.7:
                ops += [["button", "copy to"], ["button", "format json"], ["settle", 7], ["reload"], ["settle", 5]]
            yield spec

    def judge(self, ctx, cases):
        r = self.s.request({"histories": cases})
        if isinstance(r, dict) and "hang" in r:
            return [self.alone(ctx, c) for c in cases]
        if not isinstance(r, list):
            raise Inconclusive("the page could not be run: %r" % r)
        return [self.verdict(ctx, c, x) for c, x in zip(cases, r)]

    def alone(self, ctx, c):
        r = self.s.request({"histories": [c]})
        if isinstance(r, dict) and "hang" in r:
            return "the page or its worker keeps computing without end: %s" % json.dumps(c)
        if not isinstance(r, list):
            raise Inconclusive("the page could not be run: %r" % r)
        return self.verdict(ctx, c, r[0])

    def verdict(self, ctx, c, r):
        if "error" in r:
            raise Inconclusive("the page could not be built or run: " + r["error"][:800])
        try:
            self.follow(ctx, c, r["ok"])
        except Bad as e:
            return "%s\nhistory %s" % (e, json.dumps(c)[:6000])
        return None

    # -- the monitor ------------------------------------------------------
    @staticmethod
    def extras(text):
        """-> (options, valid)"""
        try:
            o = json.loads(text.strip(" \t\r\n\v\f\xa0\ufeff\u2028\u2029") or "{}")
        except ValueError:
            return {}, False
        return (o if isinstance(o, dict) else {}), True

    def wanted(self, form, extra=None):
        """The options that the form shows, and the extra ones. Controls that are not shown are left out."""
        want = {}
        for k, opt in FIELDS.items():
            if k in form:
                want[opt] = form[k]
        want.update(self.extras(form.get("extraoptions", ""))[0])
        return want

    def matches(self, res, state):
        if res["name"] != state["name"] or res["input"] not in state["inputs"]:
            return False
        got = json.loads(res["options"])
        want = state["options"]
        for k in set(want) | set(got):
            if k not in want and k in FIELDS.values():
                continue                      # a control that is not shown
            if got.get(k, DEFAULTS.get(k)) != want.get(k, DEFAULTS.get(k)):
                return False
        return True

    def follow(self, ctx, spec, log):
        snap = {}
        storage = spec.get("storageMode", "ok")
        page = None
        moved = False
        for step, e in enumerate(log):
            before = dict(snap)
            snap.update({k: v for k, v in e.items() if k not in ("op", "done")})
            op, done = e["op"], e["done"]
            kind = op[0]
            if kind in ("open", "reload"):
                old, page = page, {"states": [], "at": -1, "large": None, "small": None, "failed": False, "shown": None, "touched": False}
            form = snap["form"]
            where = "step %d %s: " % (step, json.dumps(op)[:300])
            if "typename" not in form or "input" not in form or "outputmode" not in form:
                if kind in ("open", "reload"):
                    raise Bad(where + "the page did not start: %s" % snap["thrown"])
                raise Bad(where + "the form is gone")
            if snap.get("thrown"):
                raise Bad(where + "the page threw %s" % snap["thrown"])
            if done:
                ctx.stat("step " + kind)
            # what the step may change in the form
            if kind not in ("open", "reload"):
                may = set()
                if kind in ("type", "pick", "check"):
                    may = {op[1]}
                elif kind == "link":
                    may = {"input", "typename", "propertynameformat"}
                elif kind in ("file", "read", "settle", "button"):
                    may = {"input"}
                b = before["form"]
                for k in set(b) & set(form):
                    if b[k] != form[k] and k not in may:
                        raise Bad(where + "%s changed from %r to %r" % (k, b[k], form[k]))
                if done and kind in ("type", "pick") and form.get(op[1]) != op[2]:
                    raise Bad(where + "the field shows %r" % form.get(op[1]))
                if done and kind == "check" and form.get(op[1]) == b.get(op[1]):
                    raise Bad(where + "the box did not change")
            # which text is the input
            if kind == "type" and op[1] == "input" and done:
                page["touched"] = True
            if kind == "file" and done:
                f = op[1]
                page["failed"] = False
                if f["size"] > 500000:
                    page["large"], page["small"] = {"name": f["name"], "content": f["content"]}, None
                    if snap["overlay"] is None or f["name"] not in snap["overlay"] or not snap["spinner"]:
                        raise Bad(where + "the page does not show that %s is being loaded: %r" % (f["name"], snap["overlay"]))
                else:
                    page["large"], page["small"], page["touched"] = None, f, False
            if kind == "link" and done:
                page["large"], page["small"], page["failed"] = None, None, False
                try:
                    json.loads(form["input"])
                except ValueError:
                    raise Bad(where + "the example is not JSON: %r" % form["input"][:200])
            if kind == "button" and done and op[1].startswith("clear"):
                page["large"], page["small"], page["failed"] = None, None, False
                if snap["overlay"] is not None:
                    raise Bad(where + "the large file is still shown: %r" % snap["overlay"])
            if kind == "read" and done:
                moved = True
                ok = op[2]
                for s in page["states"]:
                    # a request may reach the worker after the reading of a file that was the choice, or might
                    # have been taken to be, when the request was made
                    s["inputs"] |= {f["content"] for f in s["larges"] if ok and f["name"] == done}
                if page["large"] and page["large"]["name"] == done:
                    if not ok:
                        page["failed"] = True
                        ctx.stat("failed reads of a large file")
                elif page["small"] and page["small"]["name"] == done:
                    if ok and not page["touched"] and form["input"] != page["small"]["content"]:
                        raise Bad(where + "the file contains %r, the input field %r" % (page["small"]["content"], form["input"]))
                    page["small"] = None
                elif form["input"] != before["form"]["input"]:
                    raise Bad(where + "%s, which is not the latest choice, replaced the input %r by %r" % (done, before["form"]["input"], form["input"]))
                else:
                    ctx.stat("late reads")
            # the state of the form and the inputs that code may be generated from in it
            text = form["input"] or "{}"
            large = page["large"]
            inputs, larges = {text}, []
            if large:
                inputs.add("{}")
                larges = [large]
                if page["states"]:
                    inputs |= page["states"][-1]["inputs"]
                    larges += [x for x in page["states"][-1]["larges"] if x is not large]
            elif page["small"]:
                inputs.add("{}")
            page["states"].append({"name": form["typename"], "options": self.wanted(form), "inputs": inputs, "larges": larges})
            # errors in the extra options
            valid = self.extras(form.get("extraoptions", ""))[1]
            if valid == bool(snap["errors"]):
                raise Bad(where + "extra options %r, but the errors shown are %r" % (form.get("extraoptions"), snap["errors"]))
            if not valid:
                ctx.stat("invalid extra options")
            # what is shown now was asked for by some state that is not older than what was shown before
            if snap["shown"] is not None and snap["shown"] != page["shown"]:
                res = None
                if snap["shown"]["vfcode"]:
                    try:
                        res = json.loads(snap["shown"]["vfcode"])
                    except ValueError:
                        raise Bad(where + "the page shows %r" % snap["shown"]["vfcode"][:300])
                if res is not None:
                    for i in range(max(page["at"], 0), len(page["states"])):
                        if self.matches(res, page["states"][i]):
                            page["at"] = i
                            break
                    else:
                        raise Bad(where + "the page shows code for %s, which was never asked for, or not since newer code was shown" % snap["shown"]["vfcode"][:600])
                    ctx.stat("codes shown")
                page["shown"] = snap["shown"]
            self.extra(ctx, where, op, done, before, snap, page, old if kind == "reload" else None, storage)
            page["form"] = form
            if kind == "settle" and done:
                self.idle(ctx, where, snap, page)
        if moved:
            ctx.seen(json.dumps(spec))
            ctx.sample({"steps": [x["op"] for x in log][:20], "last shown": snap["shown"] and snap["shown"]["vfcode"][:200]})

    def idle(self, ctx, where, snap, page):
        if snap["shown"] is None or not snap["shown"]["vfcode"]:
            raise Bad(where + "everything has been answered, and no code is shown")
        state = dict(page["states"][-1])
        large = page["large"]
        text = snap["form"]["input"] or "{}"
        if large and not page["failed"]:
            state["inputs"] = {large["content"]}
            if snap["overlay"] is None or large["name"] not in snap["overlay"]:
                raise Bad(where + "%s is the input, the page shows %r" % (large["name"], snap["overlay"]))
            ctx.stat("idle with a large file")
        elif large:
            state["inputs"] = {text, "{}"}
            ctx.stat("idle after a failed read")
        else:
            state["inputs"] = {text}
            if snap["overlay"] is not None:
                raise Bad(where + "no large file is the input, the page shows %r" % snap["overlay"])
            ctx.stat("idle with text")
        if snap["spinner"]:
            raise Bad(where + "nothing is being loaded any more, the page says it is")
        res = json.loads(snap["shown"]["vfcode"])
        if not self.matches(res, state):
            raise Bad(where + "everything has been answered, and the page shows code for\n%s\ninstead of\n%s" % (snap["shown"]["vfcode"][:800], json.dumps({
                "name": state["name"], "inputs": sorted(state["inputs"]), "options": state["options"]})[:800]))

    def extra(self, ctx, where, op, done, before, snap, page, old, storage):
        pass

    need = ()

    def finish(self, m):
        for k in self.need:
            if not m["stats"].get(k):
                raise Inconclusive("never observed: " + k)
        return {}


class C36(Page):
    id = "C36"
    rule = ("random sessions of edits, options, large and small files, examples and clears, interleaved with message deliveries and with reads and loads "
            "that end late, in another order or fail; non-trivial: distinct sessions in which a file read ended")
    need = ("idle with a large file", "idle with text", "idle after a failed read", "late reads", "invalid extra options", "codes shown")

    def idle(self, ctx, where, snap, page):
        super().idle(ctx, where, snap, page)
        form = snap["form"]
        if ctx.rng.random() > 0.1 or form.get("extraoptions", "").strip() not in ("", "{}"):
            return
        # the same settings, given to the library as an options block
        res = json.loads(snap["shown"]["vfcode"])
        got = self.w.request({"name": res["name"], "input": res["input"], "options": res["options"]})
        if "ok" not in got:
            return                            # C01, C33
        if not res["input"].strip()[:1] in ("{", "[") and form["inputmode"] != "sql":
            return
        block = []
        for k, opt in FIELDS.items():
            v = form.get(k)
            if v not in (None, "", False):
                block.append("%s: %s" % (opt, json.dumps(v) if v is not True else "true"))
        want = self.lib.codegen(res["input"], name=res["name"], options="{ %s }" % ", ".join(block))
        if crashed(want):
            return
        want = want["ok"] if "ok" in want else "Error: " + want["err"]
        if got["ok"] != want:
            raise Bad(where + "the page asks for\n%s\nand gets\n%s\nthe settings in the form give\n%s" % (json.dumps(res)[:800], got["ok"][:600], want[:600]))
        ctx.stat("compared with the library")


class C37(Page):
    id = "C37"
    controls = True
    rule = ("the sessions of C36 with more reloads, copies, downloads and formatting, and with storage that is corrupt, full or denied; non-trivial: "
            "distinct sessions in which a file read ended")
    need = ("step reload", "copied", "downloads", "restored", "formatted")

    def extra(self, ctx, where, op, done, before, snap, page, old, storage):
        form, shown = snap["form"], snap["shown"]
        if op[0] == "reload":
            if storage == "ok":
                b = before["form"]
                for k in set(b) | set(form):
                    want = b.get(k)
                    if k == "input" and want is not None and len(want.encode("utf-16-le")) // 2 >= 1000000:
                        want = ""
                        ctx.stat("too long to restore")
                    if k == "typename" and want == "":
                        continue              # a default name takes its place
                    if form.get(k) != want and k in b:
                        raise Bad(where + "%s was %r and is %r" % (k, b[k] if k != "input" else b[k][:300], form.get(k) if k != "input" else form[k][:300]))
                ctx.stat("restored")
            else:
                ctx.stat("without storage")
        if op[0] == "button" and done and op[1].startswith("format"):
            a, b = before["form"]["input"], form["input"]
            try:
                json.loads(a, parse_constant=lambda x: 1 / 0)
                ok = True
            except (ValueError, ZeroDivisionError, RecursionError):
                ok = False
            if a != b and (not ok or squeeze(a) != squeeze(b)):
                raise Bad(where + "formatting turned %r into %r" % (a[:500], b[:500]))
            ctx.stat("formatted" if a != b else "formatting changed nothing")
        if shown is None or snap["todo"]["hl"]:
            return
        if shown["vfcode"]:
            d = snap["download"]
            if d is None:
                raise Bad(where + "there is code, but no download link")
            if d["text"] != shown["vfcode"]:
                raise Bad(where + "the download contains\n%s\nand the page shows\n%s" % (str(d["text"])[:500], shown["vfcode"][:500]))
            res = json.loads(shown["vfcode"])
            mode = json.loads(res["options"]).get("output_mode")
            if mode in EXTENSIONS and d["name"] != res["name"] + "." + EXTENSIONS[mode]:
                raise Bad(where + "the download of %s code for %r is named %r" % (mode, res["name"], d["name"]))
            ctx.stat("downloads")
        if op[0] == "button" and done and op[1].startswith("copy"):
            if snap["clip"] != shown["vfcode"]:
                raise Bad(where + "copied\n%s\nbut the page shows\n%s" % (str(snap["clip"])[:500], shown["vfcode"][:500]))
            ctx.stat("copied")
