"""Client of the line-JSON execution servers (driver, wasm_driver).

The monitor's outcomes for one request:
  ("ok", text) ("err", text, stage) ("panic", text) ("died", status)  ("hang", cpu seconds)
A hang is declared on CPU time consumed by the request, not on wall clock.
"""
import json
import os
import resource
import select
import signal
import subprocess
import time

from . import build

CPU_LIMIT = 40.0      # CPU seconds for one request: only a runaway gets there
WALL_LIMIT = 600.0    # watchdog; firing is inconclusive


class Inconclusive(Exception):
    pass


_tick = os.sysconf("SC_CLK_TCK")


def _cpu(pid):
    with open("/proc/%d/stat" % pid) as f:
        parts = f.read().rsplit(")", 1)[1].split()
    return (int(parts[11]) + int(parts[12])) / _tick


class Server:
    def __init__(self, crate="driver", exe=None, mem=8 << 30, cwd=None, env=None):
        if exe is None:
            exe = os.path.join(build.build(crate), "vf_" + crate)
        self.exe, self.mem, self.cwd, self.env = exe, mem, cwd, env
        self.p = None
        self.requests = 0
        self.restarts = 0

    def _start(self):
        mem = self.mem

        def lim():
            if mem:
                resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, resource.RLIM_INFINITY))

        e = dict(os.environ if self.env is None else self.env)
        e["RUST_BACKTRACE"] = "0"
        self.p = subprocess.Popen([self.exe] if isinstance(self.exe, str) else self.exe, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, preexec_fn=lim, cwd=self.cwd, env=e)
        os.set_blocking(self.p.stderr.fileno(), False)

    def close(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            for f in (self.p.stdin, self.p.stdout, self.p.stderr):
                f.close()
            self.p = None

    def request(self, req):
        self.requests += 1
        if self.p is None:
            self._start()
        data = json.dumps(req).encode() + b"\n"
        pid = self.p.pid
        cpu0 = _cpu(pid)
        buf = b""
        try:
            self.p.stdin.write(data)
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        t0 = time.time()
        fd = self.p.stdout.fileno()
        while not buf.endswith(b"\n"):
            r, _, _ = select.select([fd], [], [], 2.0)
            if r:
                chunk = os.read(fd, 1 << 20)
                if not chunk:
                    status = self.p.wait()
                    try:
                        err = self.p.stderr.read() or b""
                    except Exception:
                        err = b""
                    self.close()
                    self.restarts += 1
                    if status == -signal.SIGKILL:
                        raise Inconclusive("execution server was killed from outside")
                    return {"died": "status %s: %s" % (status, err[-300:].decode("utf8", "replace").strip())}
                buf += chunk
                continue
            cpu = _cpu(pid) - cpu0
            if cpu > CPU_LIMIT:
                self.close()
                self.restarts += 1
                return {"hang": cpu}
            if time.time() - t0 > WALL_LIMIT:
                self.close()
                raise Inconclusive("no reply in %ds, only %.0fs of CPU time used" % (WALL_LIMIT, cpu))
        return json.loads(buf)

    # -- shorthands -------------------------------------------------------
    def codegen(self, text, name="Root", options=None, **sets):
        req = {"op": "codegen", "name": name, "input": text}
        if options is not None:
            req["options"] = options
        if sets:
            req["set"] = sets
        return self.request(req)


def outcome(r):
    """Collapses a reply to a comparable outcome (error texts are not compared)."""
    if "ok" in r:
        return ("ok", r["ok"])
    if "err" in r:
        return ("err",)
    for k in ("panic", "died", "hang"):
        if k in r:
            return (k, str(r[k]))
    raise AssertionError(r)


def crashed(r):
    return any(k in r for k in ("panic", "died", "hang"))


def node_server():
    """The real TypeScript compiler and the real zod, as observers."""
    return Server(exe=["node", "--max-old-space-size=2000", os.path.join(build.VERIF, "node", "tsz.mjs")], mem=None)


def node_request(s, req):
    r = s.request(req)
    if not isinstance(r, list):
        raise Inconclusive("observer failed: %s" % json.dumps(r)[:500])
    return r
