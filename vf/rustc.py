"""Compiles generated Rust with the real rustc and serde, many modules per crate, and runs it."""
import json
import os
import re
import shutil
import subprocess
import tempfile

from . import build
from .drv import Inconclusive

MAIN = r'''
use std::io::BufRead;
fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}
fn rt<T: serde::de::DeserializeOwned + serde::Serialize>(text: &str) -> String {
    match serde_json::from_str::<T>(text) {
        Err(e) => format!("E {}", e.to_string().replace('\n', " ").replace('\r', " ")),
        Ok(v) => match serde_json::to_string(&v) {
            Ok(s) => format!("S {}", s),
            Err(e) => format!("X {}", e),
        },
    }
}
fn main() {
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut it = line.split(' ');
        let id: usize = it.next().unwrap().parse().unwrap();
        let text = unhex(it.next().unwrap());
        let r = match id {
%s
            _ => unreachable!(),
        };
        println!("{}", r);
    }
}
'''


class Rustc:
    def __init__(self):
        self.externs = build.serde_externs()
        self.crates = 0

    def compile(self, mods, bin_=True):
        """mods: [(id, code, root)] -> (path of the binary or None, {id: [errors]})"""
        d = tempfile.mkdtemp(prefix="vfrs")
        self.dir = d
        parts, spans, line = ["#![allow(warnings)]\n"], [], 2
        arms = []
        for i, code, root in mods:
            text = "mod c%d {\n%s\n}\n" % (i, code)
            n = text.count("\n")
            spans.append((line, line + n - 1, i))
            line += n
            parts.append(text)
            if root:
                arms.append("            %d => rt::<c%d::%s>(&text)," % (i, i, root))
        parts.append(MAIN % "\n".join(arms))
        src = os.path.join(d, "main.rs")
        with open(src, "w") as f:
            f.write("".join(parts))
        exe = os.path.join(d, "main")
        cmd = ["rustc", "--edition", "2024", "--crate-type", "bin", "-C", "debuginfo=0", "-C", "opt-level=0",
               "-C", "codegen-units=1", "--error-format=json", "--cap-lints=allow", "-o", exe, src] + self.externs
        p = subprocess.run(cmd, cwd=d, env=build.env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        self.crates += 1
        if p.returncode == 0:
            return exe, {}
        if p.returncode < 0 or p.returncode == 101:
            raise Inconclusive("rustc failed: %s" % p.stderr[-500:])
        errs, other = {}, []
        for ln in p.stderr.splitlines():
            try:
                m = json.loads(ln)
            except ValueError:
                continue
            if m.get("level") != "error":
                continue
            hit = False
            for s in m["spans"]:
                while s:
                    if s["file_name"].endswith("main.rs"):
                        for a, b, i in spans:
                            if a <= s["line_start"] <= b:
                                errs.setdefault(i, []).append(m["message"])
                                hit = True
                    s = (s.get("expansion") or {}).get("span")
            if not hit:
                other.append(m["message"])
        return None, errs or {None: other or [p.stderr[-500:]]}

    def clean(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, mods, inputs):
        """mods: [(id, code, root path within the module)]; inputs: [(id, json text)]
        -> ({id: [errors]}, [(id, text, result)]), result like 'S {...}' or 'E message'"""
        failed = {}
        mods = list(mods)
        while mods:
            exe, errs = self.compile(mods)
            if exe:
                break
            self.clean()
            if None in errs or not errs:
                if len(mods) == 1:
                    failed[mods[0][0]] = errs.get(None, ["?"])
                    mods = []
                    break
                # an error that belongs to no module: try them one by one
                ok = []
                for m in mods:
                    e1, er = self.compile([m])
                    self.clean()
                    if e1:
                        ok.append(m)
                    else:
                        failed[m[0]] = [x for v in er.values() for x in v]
                if len(ok) == len(mods):
                    raise Inconclusive("rustc rejects a batch but none of its modules: %r" % errs)
                mods = ok
                continue
            failed.update(errs)
            mods = [m for m in mods if m[0] not in errs]
        if not mods:
            return failed, []
        alive = {m[0] for m in mods}
        todo = [(i, t) for i, t in inputs if i in alive]
        data = "".join("%d %s\n" % (i, t.encode().hex()) for i, t in todo)
        p = subprocess.run([exe], input=data.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        self.clean()
        lines = p.stdout.decode("utf8").split("\n")[:-1]
        if p.returncode != 0 or len(lines) != len(todo):
            raise Inconclusive("round trip program ended with %s after %d of %d inputs: %s" % (
                p.returncode, len(lines), len(todo), p.stderr.decode("utf8", "replace")[-300:]))
        return failed, [(i, t, r) for (i, t), r in zip(todo, lines)]


def rt_equal(a, b, path=""):
    """Sample a against round-tripped b (parse_json values): None or a description."""
    from .gen import Num
    if isinstance(a, dict):
        if not isinstance(b, dict):
            return "%s: %.80r became %.80r" % (path, a, b)
        for k in list(a) + [k for k in b if k not in a]:
            x, y = a.get(k, None), b.get(k, None)
            if k not in a and y in (None, []):
                continue
            if k not in b and x in (None, []):
                continue
            if k not in a or k not in b:
                return "%s/%s: %.80r became %.80r" % (path, k, x if k in a else "absent", y if k in b else "absent")
            r = rt_equal(x, y, path + "/" + k)
            if r:
                return r
        return None
    if isinstance(a, list):
        if not isinstance(b, list) or len(a) != len(b):
            return "%s: %.80r became %.80r" % (path, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            r = rt_equal(x, y, path + "/%d" % i)
            if r:
                return r
        return None
    if isinstance(a, Num):
        if not isinstance(b, Num):
            return "%s: %r became %r" % (path, a, b)
        if a.is_int() and b.is_int():
            ok = int(a.text) == int(b.text)
        else:
            x, y = float(a.text), float(b.text)
            ok = x == y or abs(x - y) <= 1e-12 * max(abs(x), abs(y))
        return None if ok else "%s: %r became %r" % (path, a, b)
    if type(a) is not type(b) or a != b:
        return "%s: %.80r became %.80r" % (path, a, b)
    return None
