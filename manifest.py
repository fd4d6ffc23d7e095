"""Writes MANIFEST.json from the registry."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "lib"))
sys.dont_write_bytecode = True
import registry  # noqa: E402

props = [json.loads(line)["id"] for line in open(os.path.join(here, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3-vt /verif/setup.py",
    "checks": [],
    "not_applicable": [],
    "notes": "No hooks: the adapter (harness/) only uses the public API of the crate. Exit 2 of a check is a tool error.",
}
for p in props:
    if p in registry.CHECKS:
        level, technique, note = registry.MANIFEST[p]
        m["checks"].append({
            "property": p, "quick_cmd": "python3-vt /verif/check.py " + p,
            "thorough_cmd": "python3-vt /verif/check.py %s --thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": technique, "level": level, "level_note": note})
    else:
        m["not_applicable"].append({"property": p, "reason": "check under construction"})
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
