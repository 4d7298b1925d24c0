"""C08: the progress display of the CLI on a terminal."""
import fcntl
import json
import os
import pty
import re
import select
import shutil
import struct
import subprocess
import tempfile
import termios
import time

from .. import build, gen
from ..drv import Inconclusive, crashed
from .delivery import cli_env, shim, stuck
from .inference import Driven, MODES, mutate
from .languages import lang_doc


class Screen:
    """What a terminal of this size shows for these bytes, with everything that has scrolled off it"""
    CSI = re.compile(r"\x1b\[([?0-9;]*)([@-~])")

    def __init__(self, rows, cols):
        self.rows, self.cols = rows, cols
        self.lines = [[] for _ in range(rows)]
        self.gone, self.r, self.c, self.wrap = [], 0, 0, False
        self.unknown = None

    def down(self):
        if self.r == self.rows - 1:
            self.gone.append(self.lines.pop(0))
            self.lines.append([])
        else:
            self.r += 1

    def feed(self, text):
        i = 0
        while i < len(text):
            ch = text[i]
            if ch == "\x1b":
                m = self.CSI.match(text, i)
                if not m:
                    self.unknown = text[i:i + 10]
                    i += 1
                    continue
                self.csi(m.group(1), m.group(2))
                i = m.end()
                continue
            i += 1
            if ch == "\r":
                self.c, self.wrap = 0, False
            elif ch == "\n":
                self.wrap = False
                self.down()
            elif ch == "\b":
                self.c, self.wrap = max(0, self.c - 1), False
            elif ch == "\t":
                self.c = min(self.cols - 1, self.c // 8 * 8 + 8)
            elif ch >= " ":
                if self.wrap:
                    self.c, self.wrap = 0, False
                    self.down()
                line = self.lines[self.r]
                line += [" "] * (self.c + 1 - len(line))
                line[self.c] = ch
                if self.c == self.cols - 1:
                    self.wrap = True
                else:
                    self.c += 1

    def csi(self, arg, f):
        n = int(arg) if arg.isdigit() else None
        one = 1 if not n else n
        if f in "ABCDG":
            self.wrap = False
        if f == "A":
            self.r = max(0, self.r - one)
        elif f == "B":
            self.r = min(self.rows - 1, self.r + one)
        elif f == "C":
            self.c = min(self.cols - 1, self.c + one)
        elif f == "D":
            self.c = max(0, self.c - one)
        elif f == "G":
            self.c = min(self.cols, one) - 1
        elif f == "K":
            line = self.lines[self.r]
            if n == 2:
                line[:] = []
            elif n == 1:
                line[:self.c + 1] = [" "] * min(len(line), self.c + 1)
            else:
                del line[self.c:]
        elif f == "J" and not n:
            del self.lines[self.r][self.c:]
            for k in range(self.r + 1, self.rows):
                self.lines[k] = []
        elif f == "m" or arg.startswith("?25"):
            pass
        else:
            self.unknown = arg + f

    def text(self):
        rows = ["".join(x).rstrip() for x in self.gone + self.lines]
        while rows and not rows[-1]:
            rows.pop()
        return rows

    def where(self):
        return len(self.gone) + self.r, self.c


UNITS = {"B": 1, "KiB": 1024, "MiB": 1 << 20}


class C08(Driven):
    id = "C08"
    technique = "terminal emulator on a pseudo terminal next to the CLI, reads of the sample cut and slowed down by fault injection"
    level_note = ("exploration; the same command without a terminal and the library called in process are the oracles. Time is injected: every read "
                  "seems to take as long as the case says")
    rule = ("samples (valid, malformed) in files x sizes of the terminal x which of stdout and stderr are the terminal x cursor row x sizes and duration of reads "
            "x output modes and destinations; non-trivial: distinct runs in which the display was drawn")
    counts = (6000, 120000)

    def setup(self):
        super().setup()
        self.cli = os.path.join(build.build("cli"), "json_typegen")
        self.shim = shim()

    def open(self, ctx):
        super().open(ctx)
        self.dir = tempfile.mkdtemp(prefix="vf08")

    def close(self, ctx):
        super().close(ctx)
        shutil.rmtree(self.dir, ignore_errors=True)

    def cases(self, ctx):
        rng = ctx.rng
        for _ in range(ctx.count(*self.counts)):
            doc = lang_doc(rng, 60)
            if not isinstance(doc, (dict, list)):
                doc = [doc]
            text = gen.dump(doc, rng, vary=rng.random() < 0.3).strip(" \t\r\n")
            if rng.random() < 0.4:
                text = "[" + ",\n".join([text] * rng.choice([2, 20, 200])) + "]"
            if rng.random() < 0.2:
                text = mutate(rng, text)
            n = len(text.encode("utf8", "replace"))
            yield {"text": text, "mode": rng.choice(MODES), "rows": rng.choice([3, 5, 24, 24, 60]), "cols": rng.choice(COLS),
                   "row": rng.choice([0, 1, 2, 10, 23, 100]), "tty": rng.choice(["both", "both", "err", "err", "out"]), "via": rng.choice(["file"] * 9 + ["inline"]), "out": rng.random() < 0.15, "fail": rng.randrange(n + 1) if rng.random() < 0.1 else None,
                   "plan": [max(n // 300, rng.choice([1, 7, 100, 1000, 4096, max(1, n // 5), max(1, n // 2)])) for _ in range(rng.choice([1, 1, 3]))] if rng.random() < 0.9 else [],
                   "tick": rng.choice([0, 1, 30, 100, 100, 500, 70000]), "term": rng.choice(["xterm", "xterm-256color", "linux", "screen"])}

    def judge(self, ctx, cases):
        return [self.one(ctx, c) for c in cases]

    def one(self, ctx, c):
        text = c["text"].encode("utf8", "surrogatepass").decode("utf8", "replace")
        path = os.path.join(self.dir, "sample.json")
        with open(path, "wb") as f:
            f.write(text.encode())
        size = len(text.encode())
        e = dict(cli_env(), LD_PRELOAD=self.shim, VF_SHIM_PATH=path, VF_SHIM_LOG=os.path.join(self.dir, "log"), VF_SHIM_TRACE="1")
        if c["plan"]:
            e["VF_SHIM_PLAN"] = ",".join(map(str, c["plan"]))
        if c["fail"] is not None:
            e["VF_SHIM_FAIL"] = str(c["fail"])
        if c["via"] == "inline" and (len(text) > 100000 or text.startswith("-") or "\0" in text):
            return None
        dest = os.path.join(self.dir, "out")
        cmd = [self.cli, path if c["via"] == "file" else text, "--options", '{output_mode: "%s"}' % c["mode"]] + (["-o", dest] if c["out"] else [])
        plain = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(e, VF_SHIM_TICK=str(c["tick"])))
        if plain.returncode == 0 and plain.stderr:
            return "no terminal, but on standard error: %r" % plain.stderr[:500]
        if b"\x1b" in plain.stderr or b"\r" in plain.stderr:
            return "no terminal, but control characters: %r" % plain.stderr[:500]
        if plain.returncode not in (0, 1):
            return "status %d: %r" % (plain.returncode, plain.stderr[-1000:])
        written = self.take(dest)
        e["TERM"], e["VF_SHIM_TICK"] = c["term"], str(c["tick"])
        m, s = pty.openpty()
        fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack("HHHH", c["rows"], c["cols"], 0, 0))
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE if c["tty"] == "err" else s,
                             stderr=subprocess.PIPE if c["tty"] == "out" else s, env=e)
        pipe = {"err": p.stdout, "out": p.stderr, "both": None}[c["tty"]]
        os.close(s)
        got, out, fds = b"", b"", [m] + ([pipe.fileno()] if pipe else [])
        end = time.time() + 60
        while fds:
            r, _, _ = select.select(fds, [], [], max(0, end - time.time()))
            if not r:
                why = stuck(p)
                p.kill()
                p.wait()
                os.close(m)
                if why:
                    return "the CLI hangs on a terminal: " + why
                raise Inconclusive("a run took over a minute")
            for fd in r:
                try:
                    b = os.read(fd, 65536)
                except OSError:
                    b = b""
                if not b:
                    fds.remove(fd)
                elif fd == m:
                    got += b
                else:
                    out += b
        code = p.wait()
        if pipe:
            pipe.close()
        os.close(m)
        if code != plain.returncode:
            return "status %d without a terminal, %d on one: %r" % (plain.returncode, code, got[-500:])
        if c["tty"] == "err" and out != plain.stdout:
            return "on standard output, with standard error on a terminal: %r\nwithout: %r" % (out[:700], plain.stdout[:700])
        if c["tty"] == "out" and out != plain.stderr:
            return "on standard error, with standard output on a terminal: %r\nwithout: %r" % (out[:700], plain.stderr[:700])
        if self.take(dest) != written:
            return "what is written to the output file depends on the terminal"
        shown = {"both": plain.stdout + plain.stderr, "err": plain.stderr, "out": plain.stdout}[c["tty"]].decode("utf8", "replace").replace("\n", "\r\n")
        text2 = got.decode("utf8", "replace")
        want, have = Screen(c["rows"], c["cols"]), Screen(c["rows"], c["cols"])
        for k in (want, have):
            k.feed("$ command\r\n" * c["row"])
        want.feed(shown)
        have.feed(text2)
        if have.unknown:
            raise Inconclusive("terminal sequence not known: %r" % have.unknown)
        if want.text() != have.text():
            return "left on a terminal of %d columns:\n%s\nwithout the display:\n%s\nbytes: %r" % (
                c["cols"], "\n".join(have.text()[c["row"]:][-30:]), "\n".join(want.text()[c["row"]:][-30:]), text2[:2000])
        return self.counts_shown(ctx, c, text2, size, code)

    def take(self, path):
        try:
            with open(path, "rb") as f:
                b = f.read()
        except FileNotFoundError:
            return None
        os.unlink(path)
        return b

    def counts_shown(self, ctx, c, text, size, code):
        if c["via"] == "inline" or c["tty"] == "out":
            ctx.stat("no_file_no_display")
            return None
        with open(os.path.join(self.dir, "log")) as f:
            reads, intr, failed, off = map(int, f.readline().split())
            after = set(map(int, f.read().split()))
        last = -1
        seen = []
        for a, u, b, v in re.findall(r"([0-9.]+)((?:[KM]i)?B)/([0-9.]+)((?:[KM]i)?B)", re.sub(r"\x1b\[[0-9;]*m", "", text)):
            seen.append((a + u, b + v))
            n, total = float(a) * UNITS[u], float(b) * UNITS[v]
            if abs(total - size) > 0.01 * UNITS[v]:
                return "the display says that the sample has %s, it has %d bytes" % (b + v, size)
            if n > off + 0.01 * UNITS[u]:
                return "the display says %s, %d bytes were read" % (a + u, off)
            if u == "B" and n and n not in after:
                return "the display says %s, the sample was read up to %s" % (a + u, sorted(after)[:40])
            if n < last:
                return "the display goes back: %s" % seen
            last = n
        if seen:
            if code == 0 and c["tick"] >= 100 and c["tick"] * reads > 300 and abs(last - size) > 0.01 * UNITS[u]:
                return "all %d bytes were read, the display stops at %s" % (size, seen[-3:])
            ctx.stat("displays_drawn", len(seen))
            ctx.seen(json.dumps(c, sort_keys=True))
            ctx.sample({"bytes": size, "reads": reads, "shown": seen[:6], "columns": c["cols"], "tick_ms": c["tick"]})
        elif c["tick"] >= 100 and reads > 4 and "/" not in text:
            return "nothing was displayed in %d ms of reading: %r" % (c["tick"] * reads, text[:300])
        ctx.stat("runs_on_a_terminal")
        ctx.stat("left_blank" if c["tty"] == "err" or c["out"] else "shared_with_the_code")
        return None

    def finish(self, merged):
        if not merged["violations"] and not merged["stats"].get("displays_drawn"):
            raise Inconclusive("the display was never drawn")
        return {}


COLS = [60, 70, 79, 80, 80, 100, 120, 200]
