"""C30, C31: ways of delivering a sample, and the command line interface."""
import errno
import json
import os
import random
import resource
import shutil
import socket
import struct
import subprocess
import tempfile
import threading
import time

from .. import build, gen
from ..drv import Inconclusive, crashed, outcome
from .inference import Bad, Driven, FORMATS, MODES, Skip, STYLES, mutate, parse_json, random_options, random_sql, rust_str
from .languages import lang_doc
from .optblock import corrupt, join, random_items, tokens

CLI_MODES = [m for m in MODES if m != "zod"]


def shim():
    """The read fault injector, built once."""
    out = os.path.join(build.TARGET, "shim.so")
    src = os.path.join(build.VERIF, "native", "shim.c")
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        os.makedirs(build.TARGET, exist_ok=True)
        tmp = out + ".%d" % os.getpid()
        p = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", tmp, src, "-ldl"], stderr=subprocess.PIPE, text=True)
        if p.returncode:
            raise build.BuildError("shim: " + p.stderr)
        os.rename(tmp, out)
    return out


def stuck(p):
    """After a time-out: has this child computed for long, or is it waiting for something that will not come?"""
    def look():
        with open("/proc/%d/stat" % p.pid) as f:
            s = f.read().rsplit(")", 1)[1].split()
        return s[0], (int(s[11]) + int(s[12])) / os.sysconf("SC_CLK_TCK")
    try:
        a = look()
        time.sleep(5)
        b = look()
    except (OSError, IndexError):
        return None
    if b[1] > 30:
        return "%.0f s of CPU time used" % b[1]
    if a == b and b[0] == "S":
        return "it waits, after %.2f s of CPU time" % b[1]
    return None


class Http:
    """A loopback HTTP server that serves (and breaks off) according to a plan."""

    def __init__(self):
        self.sock = socket.socket()
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(64)
        self.port = self.sock.getsockname()[1]
        self.plans, self.n, self.served = {}, 0, 0
        self.stop = False
        self.thread = threading.Thread(target=self.loop, daemon=True)
        self.thread.start()

    def add(self, plan):
        self.n += 1
        self.plans["/%d" % self.n] = plan
        return "http://127.0.0.1:%d/%d" % (self.port, self.n)

    def loop(self):
        while not self.stop:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def serve(self, c):
        try:
            c.settimeout(60)
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            req = b""
            while b"\r\n\r\n" not in req:
                x = c.recv(4096)
                if not x:
                    return
                req += x
            path = req.split(b" ")[1].decode()
            plan = self.plans[path]
            self.served += 1
            self.reply(c, plan)
        except OSError:
            pass
        finally:
            try:
                c.close()
            except OSError:
                pass

    def reply(self, c, plan):
        body = plan["body"]
        mode, cut = plan["mode"], plan.get("cut")
        head = "HTTP/1.1 %d X\r\nContent-Type: %s\r\nConnection: close\r\n" % (plan["status"], plan.get("ctype", "application/json"))
        if plan.get("location"):
            head += "Location: %s\r\n" % plan["location"]
        if mode == "length":
            head += "Content-Length: %d\r\n" % len(body)
        elif mode == "chunked":
            head += "Transfer-Encoding: chunked\r\n"
        head = (head + "\r\n").encode()
        if cut == "head":
            c.sendall(head[:len(head) // 2])
            return
        c.sendall(head)
        sent, i = 0, 0
        end = len(body) if cut is None else cut
        sizes = plan["sizes"]
        while sent < end:
            n = min(sizes[i % len(sizes)], end - sent)
            i += 1
            piece = body[sent:sent + n]
            sent += n
            if mode == "chunked":
                piece = b"%x\r\n%s\r\n" % (len(piece), piece)
            c.sendall(piece)
            if plan.get("pause") and i % plan["pause"] == 0:
                time.sleep(0.001)
        if cut is None:
            if mode == "chunked":
                c.sendall(b"0\r\n\r\n")
            c.shutdown(socket.SHUT_WR)
            try:
                while c.recv(4096):
                    pass
            except OSError:
                pass
        elif plan.get("rst"):
            time.sleep(0.002)
            c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))

    def close(self):
        self.stop = True
        self.sock.close()


def feed(fd, data, sizes, pause):
    sent, i = 0, 0
    try:
        while sent < len(data):
            n = sizes[i % len(sizes)]
            i += 1
            os.write(fd, data[sent:sent + n])
            sent += n
            if pause and i % pause == 0:
                time.sleep(0.0005)
    except OSError:
        pass


def cli_env():
    e = {k: v for k, v in os.environ.items() if not k.lower().endswith("_proxy")}
    e["RUST_BACKTRACE"] = "0"
    return e


def big_doc(rng):
    rows = []
    text = "".join(rng.choice("ab\u00e9\u65e5\U0001f600 \\\"") for _ in range(60))
    for i in range(rng.choice([1500, 4000])):
        rows.append({"id": gen.Num(i), "name": text[i % 40:], "t": [gen.Num("1.5")] if i % 3 else None})
    return {"rows": rows}


def huge_text(seed, mb):
    """A sample of so many megabytes: long texts, of many characters or of one."""
    rng = random.Random(seed)
    unit = rng.choice(["x" * 1000, "".join(rng.choice("ab\u00e9\u65e5\U0001f600 ") for _ in range(700)), "y" * 200000])
    row = json.dumps({"id": 1, "text": unit}, ensure_ascii=False)
    n = int(mb * 1e6 / len(row.encode())) + 1
    rows = [row] * n
    rows[-1] = json.dumps({"id": 2.5, "last": True})
    return "[" + ",\n".join(rows) + "]"


FILES = ["httpd.json", "https.json", "http:a.json", "http", "my sample.json", "donn\u00e9es \u65e5\u672c.json", ".hidden", "sample", "a.sql", "a.json.gz",
         "dir/sub/x.json", "a{b}.json", "%7Bx%7D.json", "json_typegen.json", "pub x.json", "'q'.json", "a;b", "x" * 200 + ".json", "a\\b.json", "file.JSON",
         "-.json", "null", "1", "~"]


class C30(Driven):
    id = "C30"
    technique = ("differential monitor over delivery channels with injected faults: short reads, EINTR and EIO (LD_PRELOAD), chunked pipes and FIFOs, "
                 "a loopback HTTP server that splits, delays and cuts responses")
    level_note = ("exploration; equality of the generated code with the inline sample is the oracle, so nothing is assumed about the code itself. "
                  "HTTPS and compressed responses are not covered")
    rule = ("samples of 2 bytes to 400 KB through file, standard input, FIFO and HTTP, library and CLI, complete and broken off; non-trivial: "
            "distinct (sample, channel, fault) actually delivered")
    counts = (32000, 1000000)

    def setup(self):
        super().setup()
        self.cli = os.path.join(build.build("cli"), "json_typegen")
        self.shim = shim()

    def open(self, ctx):
        super().open(ctx)
        self.dir = tempfile.mkdtemp(prefix="vfd")
        self.http = Http()

    def close(self, ctx):
        super().close(ctx)
        self.http.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def cases(self, ctx):
        rng = ctx.rng
        fixed = []
        for i, ch in enumerate(["file", "file cli", "stdin", "fifo", "http", "http cli"]):
            for mb in (12, 40) if ctx.quick else (12, 18, 33, 70, 140):
                c = {"huge": [i + 10 * mb, mb], "channel": ch, "mode": CLI_MODES[(i + mb) % len(CLI_MODES)], "pause": 0, "sizes": [1 << 20]}
                if ch.startswith("http"):
                    c["http"] = ["length", "chunked", "close"][(i + mb) % 3]
                fixed.append(c)
        yield from ctx.mine(fixed)
        for i in range(ctx.count(*self.counts)):
            big = rng.random() < 0.03
            doc = big_doc(rng) if big else lang_doc(rng, 150)
            if not isinstance(doc, (dict, list)):
                doc = [doc]
            text = gen.dump(doc, rng, vary=not big and rng.random() < 0.5)
            if rng.random() < 0.1 and not big:
                text = mutate(rng, text)
                if text.strip(" \t\r\n")[:1] not in ("{", "[") or text.strip() != text.strip(" \t\r\n"):
                    continue
            pre, post = (rng.choice(["", "", " ", "\n", "\r\n\t ", " " * 50]) for _ in range(2))
            if big and rng.random() < 0.3:
                post = " " * 140000
            text = pre + text + post
            ch = rng.choice(["file", "file cli", "stdin", "fifo", "http", "http", "http cli", "shim", "shim", "shim stdin", "macro file", "arg"])
            c = {"input": text, "channel": ch, "mode": rng.choice(CLI_MODES)}
            if big:
                c["sizes"] = rng.choice([[1 << 20], [4096], [65536], [131072], [131071, 1], [1000, 30000]])
            else:
                c["sizes"] = rng.choice([[1 << 20], [1], [1, 2, 3], [7], [64], [1, 100], [rng.randint(1, max(1, len(text)))]])
            c["pause"] = rng.choice([0, 0, 5, 40])
            n = len(text.encode())
            if rng.random() < 0.35:
                if ch.startswith("http"):
                    c["fault"] = rng.choice(["cut", "cut", "cut", "status", "refused", "head"])
                    if c["fault"] == "cut":
                        c["at"] = rng.choice([rng.randrange(n), n - 1, 0, n if ch == "http" else n - 1])
                        c["rst"] = rng.random() < 0.3
                    elif c["fault"] == "status":
                        c["status"] = rng.choice([400, 401, 403, 404, 410, 418, 429, 500, 502, 503])
                elif ch in ("stdin", "fifo"):
                    c["fault"] = "cut"
                    c["at"] = rng.choice([rng.randrange(n), rng.randrange(n), n - 1, 0])
                elif ch.startswith("shim"):
                    c["fault"] = "eio"
                    c["at"] = rng.choice([rng.randrange(n + 1), 0, n, n - 1])
                elif ch in ("file", "file cli"):
                    c["fault"] = rng.choice(["missing", "directory", "denied parent"])
            if ch.startswith("http"):
                c["http"] = rng.choice(["length", "chunked", "close"])
                if c.get("fault") == "cut":
                    if c["http"] == "close":
                        c["http"] = "length"
                    if c["http"] == "length" and c["at"] == n:
                        c["at"] = n - 1
                c["redirect"] = rng.random() < 0.05
            if ch in ("file", "file cli", "shim", "macro file") and rng.random() < 0.3:
                c["file"] = rng.choice(FILES)
                c["relative"] = ch != "shim" and rng.random() < 0.6
            if ch.startswith("shim"):
                c["plan"] = [rng.choice([0, 1, 1, 2, 3, 5, 17, 100, 1 << 20]) for _ in range(rng.randint(1, 12))] if not big else \
                    [rng.choice([0, 4096, 1 << 20, 131072, 131071, 131073, 1]) for _ in range(rng.randint(1, 5))]
                if not any(c["plan"]):
                    c["plan"].append(3)
            yield c

    def run_cli(self, args, stdin=None, env=None, feeder=None):
        e = cli_env()
        e.update(env or {})
        rfd = wfd = None
        if stdin == "feed":
            rfd, wfd = os.pipe()
        p = subprocess.Popen([self.cli] + args, cwd=self.dir, env=e, stdin=rfd if rfd is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if rfd is not None:
            os.close(rfd)
            p.wfd = wfd
        if feeder:
            t = threading.Thread(target=feeder, args=(p,), daemon=True)
            t.start()
        try:
            so, se = p.communicate(timeout=120)
        except subprocess.TimeoutExpired:
            why = stuck(p)
            p.kill()
            p.communicate()
            if why:
                return {"hang": why}
            raise Inconclusive("the CLI did not finish in 120 s: %r" % args[:1])
        if feeder:
            t.join(60)
        return self.reply(p.returncode, so, se)

    def reply(self, rc, so, se):
        if rc == 0:
            return {"ok": so.decode("utf8", "replace")}
        if rc < 0 or rc == 101:
            return {"panic": "status %d: %s" % (rc, se[-300:].decode("utf8", "replace"))}
        if so:
            return {"panic": "exit status %d, but output: %.300r" % (rc, so)}
        return {"err": se.decode("utf8", "replace")}

    def judge(self, ctx, cases):
        return [self.one(ctx, c) for c in cases]

    def one(self, ctx, c):
        text, ch, mode, fault = c["input"] if "input" in c else huge_text(*c["huge"]), c["channel"], c["mode"], c.get("fault")
        data = text.encode()
        inline = self.s.codegen(text, output_mode=mode)
        if crashed(inline):
            return "the library crashed: %r\n%s" % (inline, text[:1500])
        want = outcome(inline)
        name = c.get("file", "sample.json")
        path = os.path.join(self.dir, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        left, got, extra = False, None, ""
        if ch in ("file", "file cli", "shim", "macro file"):
            with open(path, "wb") as f:
                f.write(data)
        src = path
        if c.get("relative"):
            # the library and the macro run in the server's directory, the CLI in this one
            src = os.path.relpath(path, self.dir if ch == "file cli" else os.getcwd())
            if ch == "file cli" and src.startswith("-"):
                src = "./" + src
            if ch != "file cli":
                src = "./" + src if c["pause"] else src
        if ch in ("file", "file cli"):
            if fault == "missing":
                src = src + "x"
            elif fault == "directory":
                src = self.dir
            elif fault == "denied parent":
                src = src + "/sample.json"
            got = self.s.codegen(src, output_mode=mode) if ch == "file" else self.run_cli([src, "-O", mode])
        elif ch == "macro file":
            a = 'json_typegen!("Root", %s, { output_mode: %s, import_style: "add_imports" });' % (rust_str(src), rust_str(mode))
            got = self.s.request({"op": "macro", "input": a})
        elif ch == "arg":
            if len(data) > 100000 or b"\0" in data:
                return None
            got = self.run_cli(["-O", mode, "--", text])
        elif ch == "stdin":
            part = data if fault is None else data[:c["at"]]
            got = self.run_cli(["-", "-O", mode], stdin="feed", feeder=lambda p: self.feed_stdin(p, part, c))
        elif ch == "fifo":
            part = data if fault is None else data[:c["at"]]
            fifo = os.path.join(self.dir, "fifo")
            os.mkfifo(fifo)
            try:
                got = self.run_cli([fifo, "-O", mode], feeder=lambda p: self.feed_fifo(p, fifo, part, c))
            finally:
                os.unlink(fifo)
        elif ch.startswith("shim"):
            log = os.path.join(self.dir, "log")
            env = {"LD_PRELOAD": self.shim, "VF_SHIM_LOG": log, "VF_SHIM_PLAN": ",".join(map(str, c["plan"]))}
            if fault == "eio":
                env["VF_SHIM_FAIL"] = str(c["at"])
            if ch == "shim":
                env["VF_SHIM_PATH"] = path
                got = self.run_cli([path, "-O", mode], env=env)
            else:
                env["VF_SHIM_STDIN"] = "1"
                got = self.run_cli(["-", "-O", mode], stdin="feed", env=env, feeder=lambda p: self.feed_stdin(p, data, {"sizes": [1 << 20], "pause": 0}))
            try:
                reads, intr, failed, off = map(int, open(log).read().split())
                os.unlink(log)
            except FileNotFoundError:
                raise Inconclusive("the read shim was not loaded: %r" % got)
            ctx.stat("shim: reads", reads)
            ctx.stat("shim: EINTR delivered", intr)
            ctx.stat("shim: EIO delivered", failed)
            if fault == "eio" and not failed:
                fault = None      # never reached
        elif ch.startswith("http"):
            plan = {"body": data, "mode": c["http"], "sizes": c["sizes"], "status": 200, "pause": c["pause"]}
            if fault == "cut":
                plan["cut"], plan["rst"] = c["at"], c.get("rst")
            elif fault == "head":
                plan["cut"] = "head"
            elif fault == "status":
                plan["status"] = c["status"]
            url = self.http.add(plan)
            if c.get("redirect"):
                url = self.http.add({"body": b"", "mode": "length", "sizes": [1], "status": 302, "location": url})
            if fault == "refused":
                with socket.socket() as s:
                    s.bind(("127.0.0.1", 0))
                    url = "http://127.0.0.1:%d/x" % s.getsockname()[1]
            url = c.get("pad", "") + url
            before = self.http.served
            got = self.s.codegen(url, output_mode=mode) if ch == "http" else self.run_cli([url, "-O", mode])
            if fault != "refused" and self.http.served == before:
                raise Inconclusive("the server was not asked: %r" % got)
        if fault == "cut" and ch in ("stdin", "fifo"):
            try:
                parse_json(data[:c["at"]].decode("utf8", "strict").strip(" \t\r\n"))
                want = outcome(self.s.codegen(data[:c["at"]].decode(), output_mode=mode))
                fault = "cut after the end"
            except (Bad, UnicodeDecodeError):
                want = ("err",)
            except Skip:
                return None
        elif fault is not None:
            want = ("err",)
        g = outcome(got)
        if g != want:
            show = dict(c)
            show["input"] = text if len(text) < 1500 else text[:300] + "...(%d bytes)" % len(data)
            return "delivered by %s with %s: expected %.600s, observed %.600s\n%s" % (
                ch, c.get("fault") or "no fault", "the inline result " + want[1] if want[0] == "ok" else "an error", json.dumps(got), json.dumps(show))
        ctx.stat("%s: %s" % (ch, fault or ("same code" if want[0] == "ok" else "same refusal")))
        if len(data) > 131072:
            ctx.stat("samples larger than the read buffer")
        ctx.seen(json.dumps([c[k] if k in c else None for k in ("input", "huge", "channel", "fault", "at", "sizes", "plan", "http", "status")]))
        if ctx.rng.random() < 0.002 and len(text) < 500:
            ctx.sample(c)
        return None

    def feed_stdin(self, p, data, c):
        feed(p.wfd, data, c["sizes"], c["pause"])
        os.close(p.wfd)

    def feed_fifo(self, p, fifo, data, c):
        t0 = time.time()
        while time.time() - t0 < 60:
            try:
                fd = os.open(fifo, os.O_WRONLY | os.O_NONBLOCK)
                break
            except OSError as e:
                if e.errno != errno.ENXIO or p.poll() is not None:
                    return
                time.sleep(0.0005)
        else:
            return
        os.set_blocking(fd, True)
        feed(fd, data, c["sizes"], c["pause"])
        os.close(fd)

    def finish(self, m):
        for k in ("file: same code", "arg: same code", "macro file: same code", "file cli: same code", "stdin: same code", "fifo: same code", "http: same code", "http cli: same code",
                  "shim: same code", "shim: eio", "http: cut", "http: status", "http: refused", "stdin: cut", "samples larger than the read buffer",
                  "shim: EINTR delivered"):
            if not m["stats"].get(k):
                raise Inconclusive("never observed: " + k)
        return {}


class C31(Driven):
    id = "C31"
    technique = "monitor of the CLI process (exit status, stdout, stderr, directory state before and after) against the library's result"
    level_note = ("exploration; the library called in process is the oracle of what should be written. Failures are injected as bad input, options, "
                  "arguments, unwritable outputs, full devices and closed pipes. -O zod is not among the CLI's documented values")
    rule = ("command lines in random spellings and orders, with outputs that are new, old, longer, shared with the input, linked or impossible; "
            "non-trivial: distinct command lines")
    counts = (60000, 2000000)

    def setup(self):
        super().setup()
        self.cli = os.path.join(build.build("cli"), "json_typegen")

    def open(self, ctx):
        super().open(ctx)
        self.dir = tempfile.mkdtemp(prefix="vfc")

    def close(self, ctx):
        super().close(ctx)
        shutil.rmtree(self.dir, ignore_errors=True)

    def cases(self, ctx):
        rng = ctx.rng
        for _ in range(ctx.count(*self.counts)):
            doc = lang_doc(rng, 60)
            if not isinstance(doc, (dict, list)):
                doc = [doc]
            text = gen.dump(doc, rng, vary=rng.random() < 0.3)
            c = {"via": rng.choice(["arg", "arg", "file", "stdin", "macro", "macro stdin"]), "text": text}
            r = rng.random()
            if r < 0.12:
                c["text"] = mutate(rng, text)
                if c["text"].strip()[:1] not in ("{", "["):
                    c["text"] = "{" + c["text"]
            if rng.random() < 0.5:
                c["name"] = rng.choice(["Foo", "root", "pub(crate) Bar", "pub Baz", "my_type", "\u00e9", "X1"])
            if rng.random() < 0.4:
                c["mode"] = rng.choice(CLI_MODES)
            if rng.random() < 0.5:
                if rng.random() < 0.8:
                    c["options"] = join(rng, tokens(rng, random_items(rng, doc), rng.choice(["bare", "quoted", "mixed", "json"])
                                                    if "\\u" not in text else "mixed"))
                else:
                    c["options"] = join(rng, corrupt(rng, random_items(rng, doc))[1])
            if c["via"] == "arg" and rng.random() < 0.1:
                c["text"] = random_sql(rng)
                c["options"] = '{input_mode: "sql"}'
            c["out"] = rng.choice([None, None, "new", "old", "old", "old long", "same", "link", "input" if c["via"] == "file" else "old",
                                   "nodir", "directory", "dangling", "full", "limited", "limited old"])
            if rng.random() < 0.08:
                c["bad"] = rng.choice(["flag", "mode", "noinput", "extra", "missing", "noname", "noout", "latin1", "latin1 path", "latin1 stdin", "twice"])
            if c["out"] is None and rng.random() < 0.05:
                c["stdout"] = rng.choice(["full", "closed"])
            c["order"] = rng.randrange(1 << 30)
            yield c

    def command(self, c):
        import random
        rng = random.Random(c["order"])
        parts = []
        if "name" in c:
            parts.append(rng.choice([["-n", c["name"]], ["--name", c["name"]], ["--name=" + c["name"]]]))
        if "mode" in c:
            parts.append(rng.choice([["-O", c["mode"]], ["--output-mode", c["mode"]], ["--output-mode=" + c["mode"]], ["-O" + c["mode"]]]))
        if "options" in c:
            parts.append(rng.choice([["--options", c["options"]], ["--options=" + c["options"]]]))
        if c["out"]:
            parts.append(rng.choice([["-o", self.out], ["--output", self.out], ["--output=" + self.out], ["-o" + self.out]]))
        bad = c.get("bad")
        if bad == "flag":
            parts.append([rng.choice(["--bogus", "-x", "--outputs=x", "--typename", "--zod"])])
        elif bad == "mode" and "mode" not in c:
            parts.append(["-O", rng.choice(["Rust", "rust ", "", "java", "typescript/", "kotlin/", "sql", "json"])])
        elif bad == "extra":
            parts.append(["{}"])
        elif bad == "twice":
            parts.append(["-n", "A"])
            parts.append(["-n", "B"])
        if bad not in ("noinput", "missing"):
            parts.append([self.src])
        elif bad == "missing":
            parts.append([os.path.join(self.dir, "nothing.json")])
        rng.shuffle(parts)
        out = [x for p in parts for x in p]
        if bad == "noname" and "name" not in c:
            out.append("-n")
        elif bad == "noout" and not c["out"]:
            out.append("-o")
        elif bad == "latin1" and "name" not in c:
            out += ["-n", b"\xff\xfe"]
        elif bad == "latin1 path":
            out = [b"caf\xe9.json" if x == self.src else x for x in out]
        return out

    def is_bad(self, c):
        bad = c.get("bad")
        if bad in ("mode",):
            return "mode" not in c
        if bad in ("noname", "latin1"):
            return "name" not in c
        if bad == "noout":
            return not c["out"]
        if bad == "latin1 stdin":
            return c["via"] in ("stdin", "macro stdin")
        return bad is not None

    def snapshot(self):
        s = {}
        for root, dirs, files in os.walk(self.dir):
            for f in files + dirs:
                p = os.path.join(root, f)
                st = os.lstat(p)
                if os.path.islink(p):
                    s[os.path.relpath(p, self.dir)] = ("link", os.readlink(p))
                elif os.path.isdir(p):
                    s[os.path.relpath(p, self.dir)] = ("dir",)
                else:
                    s[os.path.relpath(p, self.dir)] = (st.st_ino, st.st_mtime_ns, st.st_mode, open(p, "rb").read())
        return s

    def judge(self, ctx, cases):
        return [self.one(ctx, c) for c in cases]

    def one(self, ctx, c):
        for f in os.listdir(self.dir):
            p = os.path.join(self.dir, f)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)
        text, via = c["text"], c["via"]
        name = c.get("name", "Root")
        if "\0" in text or "\0" in c.get("options", "") or "\0" in name:
            return None
        # what the library makes of it
        if via.startswith("macro"):
            text = "json_typegen!(%s, %s%s);" % (rust_str(name), rust_str(text), ", " + c["options"] if "options" in c else "")
            if c["order"] % 5 == 0:
                text = "\n " + text + "\n"
            lib = self.s.request({"op": "macro", "input": text})
        else:
            sets = {"output_mode": c["mode"]} if "mode" in c else {}
            lib = self.s.codegen(text, name=name, options=c.get("options"), **sets)
        if crashed(lib):
            return "the library crashed: %r\n%s" % (lib, json.dumps(c)[:1500])
        if via == "arg" and text.startswith("-"):
            return None  # a command line cannot say that this is not a flag, and "-" means standard input
        self.src = {"file": os.path.join(self.dir, "in.json"), "stdin": "-", "macro stdin": "-"}.get(via, text)
        if via == "file":
            if text.strip() != text.strip(" \t\r\n"):
                return None
            with open(self.src, "w") as f:
                f.write(text)
        stdin = text.encode() if via in ("stdin", "macro stdin") else b""
        if c.get("bad") == "latin1 stdin":
            stdin = stdin[:1] + b"\xff" + stdin[1:]
        good = "ok" in lib and not self.is_bad(c)
        # the output file
        out = c["out"]
        self.out = os.path.join(self.dir, "out.txt")
        old = "old content\n"
        if out in ("old", "link", "limited old"):
            pass
        elif out == "old long":
            old = "old content \u00e9\n" * 3000
        elif out == "same" and "ok" in lib:
            old = lib["ok"]
        elif out == "input":
            self.out = self.src
        elif out == "nodir":
            self.out = os.path.join(self.dir, "no", "out.txt")
        elif out == "directory":
            os.mkdir(self.out)
        elif out == "dangling":
            os.symlink("later.txt", self.out)
        elif out == "full":
            # by way of a link, so that code that replaces its output replaces only the link
            os.symlink("/dev/full", self.out)
            good = False
        limit = None
        if out and out.startswith("limited"):
            # the disk is full after this many bytes
            n = len(lib["ok"].encode()) if "ok" in lib else 100
            limit = c["order"] % (n + max(1, n // 8))
            good = good and limit >= n
        if out in ("old", "old long", "same", "limited old"):
            with open(self.out, "w") as f:
                f.write(old)
        elif out == "link":
            with open(os.path.join(self.dir, "real.txt"), "w") as f:
                f.write(old)
            os.symlink("real.txt", self.out)
        if out in ("nodir", "directory"):
            good = False
        if c.get("stdout"):
            good = False
        before = self.snapshot()
        args = self.command(c)
        closer = None
        if c.get("stdout") == "full":
            so_target = open("/dev/full", "wb")
        elif c.get("stdout") == "closed":
            r, w = os.pipe()
            os.close(r)
            so_target = os.fdopen(w, "wb")
        else:
            so_target = subprocess.PIPE
        extra = {}
        if limit is not None:
            # Python ignores SIGXFSZ, so that the write fails; and restore_signals would undo that
            extra = {"restore_signals": False, "preexec_fn": lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))}
        p = subprocess.Popen([self.cli] + args, cwd=self.dir, env=cli_env(), stdin=subprocess.PIPE, stdout=so_target, stderr=subprocess.PIPE,
                             **extra)
        try:
            so, se = p.communicate(stdin, timeout=120)
        except subprocess.TimeoutExpired:
            why = stuck(p)
            p.kill()
            p.communicate()
            if why:
                return "the CLI does not finish: %s\ncommand %r\ncase %s" % (why, args, json.dumps(c)[:1200])
            raise Inconclusive("the CLI did not finish in 120 s")
        finally:
            if so_target is not subprocess.PIPE:
                try:
                    so_target.close()
                except OSError:
                    pass
        so = so or b""
        after = self.snapshot()
        what = self.verdict(c, good, lib, p.returncode, so, se, before, after)
        if what:
            return "%s\ncommand %r\nexit status %d, stdout %.300r, stderr %.300r\ncase %s" % (what, args, p.returncode, so, se, json.dumps(c)[:1200])
        ctx.stat(("success, " if good else "failure, ") + ("output file " + out if out else "standard output " + c.get("stdout", "")).strip())
        ctx.stat("via " + via)
        if c.get("bad"):
            ctx.stat("bad " + c["bad"])
        ctx.seen(repr(args))
        if ctx.rng.random() < 0.001:
            ctx.sample({"args": [str(a) for a in args], "status": p.returncode})
        return None

    def verdict(self, c, good, lib, rc, so, se, before, after):
        if rc < 0 or rc == 101:
            return "the CLI crashed"
        out = c["out"]
        if not good:
            if rc == 0:
                return "exit status 0, but %s" % ("the code could not be written" if "ok" in lib else "there is no code: %s" % lib.get("err"))
            if not se.strip():
                return "failed without a message on standard error"
            if so:
                return "failed, but wrote to standard output"
            if "ok" in lib and not self.is_bad(c) and out and out.startswith("limited"):
                # once it is open, a failing write can leave part of the code in it
                for s in (before, after):
                    s.pop("out.txt", None)
            if before != after:
                ch = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
                return "failed, but changed %s" % ch
            return None
        if rc != 0:
            return "exit status %d, but the library generates code" % rc
        want = lib["ok"].encode()
        if not want.endswith(b"\n") or want.endswith(b"\n\n"):
            return "the code does not end in exactly one newline"
        if out is None:
            if so != want:
                return "standard output is not what the library generates: %.400r" % want
            expect = before
        else:
            if so:
                return "code was written to a file, and something to standard output"
            rel = {"link": "real.txt", "dangling": "later.txt", "input": "in.json"}.get(out, "out.txt")
            if rel not in after or after[rel][3:] != (want,):
                return "the output file is not what the library generates: %.300r instead of %.300r" % (after.get(rel), want)
            expect = dict(before)
            expect[rel] = after[rel]
        if expect != after:
            return "other files were changed: %s" % sorted(k for k in set(expect) | set(after) if expect.get(k) != after.get(k))
        return None

    def finish(self, m):
        for k in ("success, output file old", "failure, output file old", "success, output file new", "failure, output file new",
                  "success, output file old long", "success, output file link", "success, output file input", "failure, output file input",
                  "failure, output file nodir", "failure, standard output full", "failure, standard output closed", "via macro",
                  "failure, output file full", "failure, output file limited", "success, output file limited",
                  "failure, output file limited old", "success, output file limited old"):
            if not m["stats"].get(k):
                raise Inconclusive("never observed: " + k)
        return {}
