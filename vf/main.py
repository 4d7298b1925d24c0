"""Usage: main.py check ID | replay FILE | setup | list"""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)

from vf import build, core  # noqa: E402


def load(pid):
    import pkgutil
    import vf.checks
    for m in pkgutil.iter_modules(vf.checks.__path__):
        mod = importlib.import_module("vf.checks." + m.name)
        for x in vars(mod).values():
            if isinstance(x, type) and issubclass(x, core.Check) and x.id == pid:
                return x()
    raise SystemExit("no check for " + pid)


def main():
    cmd = sys.argv[1]
    if cmd == "setup":
        for c in ("driver", "cli", "wasm_driver", "serdebox", "macrobox"):
            build.build(c, quiet=False)
        load("C38").setup()
        load("C09").setup()
        return 0
    if cmd == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 3:
            tier = sys.argv[3]
        return core.run_check(load(sys.argv[2]), tier, int(os.environ.get("VERIF_SEED", "1")))
    if cmd == "replay":
        return core.replay(load(json.load(open(sys.argv[2]))["property"]), sys.argv[2])
    raise SystemExit(__doc__)


if __name__ == "__main__":
    sys.exit(main())
