"""Writes the table of planted bugs into DESIGN.md."""
import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
rows = []
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append((m["property"], f"| {m['property']} | {d.name} | {m['what_it_breaks']} | {m['needs']} |"))
t = "| caught by | change | breaks | needs |\n|---|---|---|---|\n" + "\n".join(r for _, r in sorted(rows)) + "\n"
f = V / "DESIGN.md"
s = f.read_text()
a, b = s.index("<!-- SEEDS -->"), s.index("<!-- /SEEDS -->")
f.write_text(s[:a] + "<!-- SEEDS -->\n" + t + s[b:])
