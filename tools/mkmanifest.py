"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "lib"))
sys.path.insert(0, "/repo/src")
from checks import REGISTRY  # noqa: E402

props = [json.loads(x)["id"] for x in (V / "properties.jsonl").read_text().splitlines()]
from manifest_notes import NA, NOTE, TECH  # noqa: E402

checks = []
for p in props:
    if p in REGISTRY:
        e = REGISTRY[p]
        checks.append(dict(property=p, quick_cmd=f"bin/check {p} --tier=quick", thorough_cmd=f"bin/check {p} --tier=thorough",
                           technique=e.get("technique", TECH), level=e["level"], level_note=e.get("note", NOTE)))
missing = [dict(property=p, reason=NA.get(p, "no check yet")) for p in props if p not in REGISTRY]
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=missing,
         notes="TLA+ specifications in spec/, checked with TLC; see DESIGN.md. No hooks in /repo are needed: "
               "traces are recorded by user-level components, handlers and effects and at public API calls.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", [x["property"] for x in missing])
