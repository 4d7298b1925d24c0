"""Builds the harness crates from /repo's current working tree.

Cargo decides staleness by mtime; a tree can be swapped under us without newer
mtimes, so the sources are also hashed and the repository's crates are cleaned
when the hash differs from the one of the last build in this target directory.
"""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
REPO_CRATES = {
    "driver": ["json_typegen_shared"],
    "cli": ["json_typegen_shared", "vf_cli"],
    "wasm_driver": ["json_typegen_shared", "json_typegen_wasm", "vf_wasm_driver"],
    "serdebox": [],
    "macrobox": ["json_typegen_shared", "json_typegen", "vf_macrobox"],
    "fuzz": ["json_typegen_shared"],
}


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.pop("RUSTFLAGS", None)
    return e


def repo_hash():
    h = hashlib.sha256()
    for crate in ("json_typegen_shared", "json_typegen_cli", "json_typegen_wasm", "json_typegen"):
        for root, dirs, files in os.walk(os.path.join(REPO, crate)):
            dirs[:] = sorted(d for d in dirs if d not in ("target", "pkg", "node_modules"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml")):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


def build(crate, extra=(), quiet=True):
    """Build harness crate; returns the path of its debug directory."""
    src = os.path.join(VERIF, "harness", crate)
    tgt = os.path.join(TARGET, crate)
    os.makedirs(tgt, exist_ok=True)
    with open(os.path.join(tgt, ".vflock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        e = env()
        e["CARGO_TARGET_DIR"] = tgt
        stamp = os.path.join(tgt, ".srchash")
        want = repo_hash()
        have = open(stamp).read() if os.path.exists(stamp) else None
        if have is not None and have != want:
            for c in REPO_CRATES[crate]:
                subprocess.run(["cargo", "clean", "--offline", "-p", c], cwd=src, env=e,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        cmd = ["cargo", "build", "--offline", "--locked", *extra]
        t0 = time.time()
        p = subprocess.run(cmd, cwd=src, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            raise BuildError("building %s failed:\n%s" % (crate, p.stderr[-6000:]))
        with open(stamp, "w") as f:
            f.write(want)
        if not quiet:
            print("built %s in %.1fs" % (crate, time.time() - t0), file=sys.stderr)
    return os.path.join(tgt, "debug")


def build_features(crate, exe, features):
    """Build harness crate with exactly these of its features; returns the path of a copy of the executable."""
    src = os.path.join(VERIF, "harness", crate)
    tgt = os.path.join(TARGET, crate + "_features")
    out = os.path.join(tgt, "bin", "+".join(features) or "none")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    with open(os.path.join(tgt, ".vflock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        made = _features(src, tgt, exe, "bin", features, REPO_CRATES[crate])
        if not _same(made, out):
            shutil.copy2(made, out + ".new")
            os.rename(out + ".new", out)
    return out


def macro_features(features):
    """Build the proc-macro with exactly these of its features; returns the path of the library."""
    tgt = os.path.join(TARGET, "macro_features")
    os.makedirs(tgt, exist_ok=True)
    with open(os.path.join(tgt, ".vflock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _features(os.path.join(VERIF, "harness", "macrobox"), tgt, "json_typegen", "proc-macro", features, REPO_CRATES["macrobox"])


def _same(a, b):
    return os.path.exists(b) and os.path.getsize(a) == os.path.getsize(b) and open(a, "rb").read() == open(b, "rb").read()


def _features(src, tgt, name, kind, features, crates):
    e = env()
    e["CARGO_TARGET_DIR"] = tgt
    stamp = os.path.join(tgt, ".srchash")
    want = repo_hash()
    have = open(stamp).read() if os.path.exists(stamp) else None
    if have is not None and have != want:
        for c in crates:
            subprocess.run(["cargo", "clean", "--offline", "-p", c], cwd=src, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--no-default-features", "--features", ",".join(features),
                        "--message-format=json-render-diagnostics"], cwd=src, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    with open(stamp, "w") as f:
        f.write(want)
    if p.returncode != 0:
        raise BuildError("building with features %r failed:\n%s" % (list(features), p.stderr[-6000:]))
    for line in p.stdout.splitlines():
        m = json.loads(line)
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] == name and kind in m["target"]["kind"]:
            return m.get("executable") or [f for f in m["filenames"] if f.endswith(".so")][0]
    raise BuildError("no artifact " + name)


def externs(crate, names):
    """rustc arguments that make these dependencies of a harness crate available."""
    src = os.path.join(VERIF, "harness", crate)
    d = build(crate)
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, crate)
    with open(os.path.join(TARGET, crate, ".vflock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        p = subprocess.run(["cargo", "build", "--offline", "--locked", "--message-format=json"],
                           cwd=src, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise BuildError(p.stderr[-4000:])
    ext = {}
    for line in p.stdout.splitlines():
        m = json.loads(line)
        if m.get("reason") == "compiler-artifact":
            for f in m["filenames"]:
                if f.endswith((".rlib", ".so")):
                    ext[m["target"]["name"]] = f
    args = ["-L", "dependency=" + os.path.join(d, "deps")]
    for n in names:
        args += ["--extern", "%s=%s" % (n, ext[n])]
    return args


def serde_externs():
    return externs("serdebox", ("serde", "serde_derive", "serde_json"))


def macro_externs():
    return externs("macrobox", ("serde", "serde_derive", "serde_json", "json_typegen"))


if __name__ == "__main__":
    for c in sys.argv[1:]:
        build(c, quiet=False)
