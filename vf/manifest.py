"""Writes MANIFEST.json from the check classes."""
import importlib
import json
import os
import pkgutil
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build, core  # noqa: E402
import vf.checks  # noqa: E402

cs = {}
for m in pkgutil.iter_modules(vf.checks.__path__):
    for x in vars(importlib.import_module("vf.checks." + m.name)).values():
        if isinstance(x, type) and issubclass(x, core.Check) and x.id != "C00" and len(x.id) == 3:
            cs[x.id] = x
props = [json.loads(line)["id"] for line in open(os.path.join(build.VERIF, "properties.jsonl"))]
missing = [p for p in props if p not in cs]
print("claimed", sorted(cs), "missing", missing)
json.dump({
    "version": 1,
    "setup_cmd": "./run.sh setup",
    "checks": [{
        "property": i,
        "quick_cmd": "./run.sh check %s quick" % i,
        "thorough_cmd": "./run.sh check %s thorough" % i,
        "technique": cs[i].technique,
        "level": core.LEVEL,
        "level_note": cs[i].level_note,
    } for i in props if i in cs],
    "not_applicable": [],
    "notes": "",
}, open(os.path.join(build.VERIF, "MANIFEST.json"), "w"), indent=1)
