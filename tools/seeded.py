"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json (own check: see DESIGN 6)."""
import json, re
from pathlib import Path

HERE = Path(__file__).resolve().parents[1]
rows = ["| planted change | needs | breaks | caught by |", "|---|---|---|---|"]
for m in sorted((HERE / "seeded").glob("*/meta.json")):
    d = json.loads(m.read_text())
    rows.append(f"| {m.parent.name} | {d['needs']} | {d['what_it_breaks']} | {d.get('caught_by', d['property'])} |")
p = HERE / "DESIGN.md"
s = p.read_text()
block = "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->"
s = s.replace("@@SEEDED@@", block) if "@@SEEDED@@" in s else re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: block, s, flags=re.S)
p.write_text(s)
