"""C07: the work grows in proportion to the sample."""
import json
import os
import random
import re
import shutil
import subprocess

from .. import build, gen
from ..drv import Inconclusive
from .delivery import cli_env
from .inference import C06, MODES


class C07(C06):
    id = "C07"
    technique = "instruction counting (valgrind) of the CLI on samples of 1, 2 and 4 times the length"
    level_note = ("exploration; exact instruction counts, so independent of the machine's load. Doubling the length twice must not cost more than "
                  "double the first doubling, within 15 %: terms that are not proportional show unless they are below that at these lengths")
    rule = ("record structures x position of the large array x unwrap/hints, and texts that are long in one way, at three lengths each; "
            "non-trivial: distinct (structure, position, options, mode)")
    shards = 8
    LONG = {
        "string": lambda n: '{"a":"' + "x" * n + '","b":1}',
        "string of escapes": lambda n: '{"a":"' + "\\n\\u00e9" * (n // 8) + '"}',
        "string of plain escapes": lambda n: '{"a":"' + "\\u0041" * (n // 6) + '"}',
        "string of pairs": lambda n: '{"a":"' + "\\ud83d\\ude00" * (n // 12) + '"}',
        "string of quotes": lambda n: '{"a":"' + "\\\"\\\\\\/" * (n // 6) + '"}',
        "strings with escapes": lambda n: "[" + ",".join('"a\\tb \\u00e9 %d"' % i for i in range(n // 20)) + "]",
        "key of escapes": lambda n: '{"' + "\\u0062_" * (n // 32) + '":1}',
        "string of dates": lambda n: '["' + "2020-01-01T10:11:12Z" * (n // 20) + '"]',
        "string of colons": lambda n: '["' + "1:" * (n // 2) + '"]',
        "string of digits": lambda n: '["' + "12" * (n // 2) + '"]',
        "many keys": lambda n: '{' + ",".join('"k%d":1' % i for i in range(n // 40)) + '}',
        "string of other letters": lambda n: '["' + "\u65e5\u00e9" * (n // 4) + '"]',
        "white space": lambda n: '{"a":' + " \n\t" * (n // 3) + '1}',
        "white space around": lambda n: "\n" * n + '{"a":1}' + " " * n,
        "number": lambda n: '{"a":1' + "0" * n + '}',
        "fraction": lambda n: '{"a":1.' + "25" * (n // 2) + 'e1}',
        "key": lambda n: '{"' + "abc_" * (n // 16) + '":1}',
        "strings": lambda n: "[" + ",".join('"text %d"' % i for i in range(n // 10)) + "]",
        "numbers": lambda n: '{"a":[' + ",".join(str(i * 7919 % 100003 - 5000) for i in range(n // 6)) + "]}",
        "floats": lambda n: '{"a":[' + ",".join("%d.5" % i for i in range(n // 8)) + "]}",
        "short arrays": lambda n: "[" + ",".join('[%d,"x"]' % i for i in range(n // 10)) + "]",
        "arrays of arrays": lambda n: "[" + ",".join("[[%d],[]]" % i for i in range(n // 10)) + "]",
        "arrays of all lengths": lambda n: "[" + ",".join("[" + ",".join("1" * (i % 30)) + "]" for i in range(n // 30)) + "]",
        "nothing but nulls": lambda n: "[" + ",".join(["null"] * (n // 5)) + "]",
        "anything": lambda n: "[" + ",".join(['1', '"a"', "[1]", "{}", "null", "true"] * (n // 20)) + "]",
        "empty objects": lambda n: "[" + ",".join(["{}"] * (n // 3)) + "]",
        "two long arrays": lambda n: '{"a":[' + ",".join(['{"x":1}'] * (n // 16)) + '],"b":[' + ",".join(['{"x":null}'] * (n // 16)) + "]}",
        "map": (lambda n: "{" + ",".join('"key%d":{"v":%d}' % (i, i) for i in range(n // 20)) + "}", '{"": {use_type: "map"}}'),
        "map by threshold": (lambda n: "{" + ",".join('"key%d":{"v":%d}' % (i, i) for i in range(n // 20)) + "}", '{infer_map_threshold: "9"}'),
        "maps in records": (lambda n: "[" + ",".join('{"m":{"k%d":1,"k%d":2}}' % (i, i + 1) for i in range(n // 24)) + "]", '{"/-/m": {use_type: "map"}}'),
        "maps by threshold": (lambda n: "[" + ",".join('{"k%d":1,"j%d":2}' % (i, i + 1) for i in range(n // 20)) + "]", '{infer_map_threshold: "1"}'),
        "opaque": (lambda n: '{"a":[' + ",".join(['{"x":1,"y":[2]}'] * (n // 16)) + "]}", '{"/a/-": {use_type: "Opaque"}}'),
        "unwrapped": (lambda n: '{"a":[' + ",".join(['{"x":1,"y":[2]}'] * (n // 16)) + "]}", '{unwrap: "/a/-/x"}'),
        "unwrapped arrays": (lambda n: '{"a":[' + ",".join(['[[1,2],"x"]'] * (n // 12)) + "]}", '{unwrap: "/a/-/0"}'),
        "passed over": (lambda n: '{"a":[' + ",".join(['{"x":1,"y":[2]}'] * (n // 16)) + '],"b":{"c":1}}', '{unwrap: "/b"}'),
        "hint in every record": (lambda n: "[" + ",".join('{"id":%d,"x":{"y":1}}' % i for i in range(n // 20)) + "]", '{"/-/x/y": {use_type: "T"}, "/-/id": {use_type: "Id"}}'),
    }

    def cases(self, ctx):
        rng = ctx.rng
        todo = []
        for name in self.LONG:
            for rep in range(1 if ctx.quick else 6):
                todo.append({"long": name, "n": 24000, "mode": random.Random("%d/%s/%d" % (ctx.seed, name, rep)).choice(MODES)})
        base = random.Random("c07/%d/%s" % (ctx.seed, ctx.tier))
        for i, e in enumerate(self.ELEMS):
            w, unwrap, opts = self.WRAP[base.choice([0, 0, 1, 2, 3, 6, 7, 8])]
            todo.append({"wrap": w, "unwrap": unwrap, "options": opts, "n": 1200, "elems": e, "mode": base.choice(MODES), "sep": ","})
        for rep in range(2 if ctx.quick else 30):
            for w, unwrap, opts in self.WRAP:
                todo.append({"wrap": w, "unwrap": unwrap, "options": opts, "n": 300, "seed": base.randrange(1 << 30), "mode": base.choice(MODES),
                             "sep": base.choice(self.SEPS), "vary": base.random() < 0.3})
        yield from ctx.mine(todo)

    def count(self, path, c):
        opts, o = c.get("options"), []
        if "long" in c and isinstance(self.LONG[c["long"]], tuple):
            opts = self.LONG[c["long"]][1]
        body = (opts or "{}").strip()[1:-1]
        if c.get("unwrap"):
            o.append('unwrap: "%s"' % c["unwrap"])
        if body.strip():
            o.append(body)
        o.append('output_mode: "%s"' % c["mode"])
        p = subprocess.run(["valgrind", "--tool=callgrind", "--callgrind-out-file=/dev/null", self.cli, path, "-o", os.path.join(self.dir, "out"),
                            "--options", "{" + ", ".join(o) + "}"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=cli_env(), text=True)
        m = re.search(r"Collected : (\d+)", p.stderr)
        if p.returncode != 0 and "Error:" in p.stderr:
            return None, p.stderr[-600:]
        if p.returncode != 0 or not m:
            raise Inconclusive("valgrind: status %d, %s" % (p.returncode, p.stderr[-600:]))
        return int(m.group(1)), None

    def judge(self, ctx, cases):
        return [self.one(ctx, c) for c in cases]

    def one(self, ctx, c):
        path = os.path.join(self.dir, "s.json")
        if "long" not in c:
            recs = c["elems"] if "elems" in c else self.records(c["seed"], c["vary"])
            recs = [recs[i % len(recs)] for i in range(60)]
        res = []
        for k in (1, 2, 4):
            if "long" in c:
                f = self.LONG[c["long"]]
                text = (f[0] if isinstance(f, tuple) else f)(k * c["n"])
                with open(path, "w") as fh:
                    fh.write(text)
                size = len(text.encode())
            else:
                size = self.write(path, c, 60 * (k * c["n"] // 60), recs)
            n, err = self.count(path, c)
            if n is None:
                return "no code for a valid sample of %d bytes: %s\n%s" % (size, err, json.dumps(c))
            res.append((size, n))
            ctx.stat("instructions_counted", n)
        (s1, i1), (s2, i2), (s4, i4) = res
        first, second = i2 - i1, i4 - i2
        g = int(100 * second / max(1, 2 * first)) // 5
        if second > 2.3 * max(first, 0) + 300_000:
            return "the work is not proportional to the length of the sample: %d instructions for %d bytes, %d for %d, %d for %d\n%s" % (
                i1, s1, i2, s2, i4, s4, json.dumps(c))
        ctx.stat("growth between %d and %d %%" % (5 * g, 5 * g + 4))
        ctx.stat("measured")
        ctx.seen(json.dumps(c, sort_keys=True))
        ctx.sample({"bytes": [s1, s2, s4], "instructions": [i1, i2, i4], "case": c})
        return None
