"""Writes the table of planted bugs at the end of DESIGN.md."""
import json
from pathlib import Path

MISSED = {}     # name -> which check misses it
base = Path(__file__).parent.parent
text = "## 7. Planted bugs\n\nEach one passes the existing tests; all are caught by the check of their property, unless noted.\n\n"
text += "| bug | property | what it breaks | needs | |\n|---|---|---|---|---|\n"
for d in sorted((base / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    text += f"| {d.name} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {MISSED.get(d.name, 'caught')} |\n"
f = base / "DESIGN.md"
f.write_text(f.read_text().split("## 7. Planted bugs")[0].rstrip() + "\n\n" + text)
