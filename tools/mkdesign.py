"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (development only)."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = ["<!-- seeds -->", "| id | needs | breaks | caught by |", "|---|---|---|---|"]
for m in sorted((root / "seeded").glob("*/meta.json")):
    d = json.loads(m.read_text())
    rows.append(f"| {m.parent.name} | {d['needs']} | {d['what_it_breaks']} | {d.get('caught_by', d['property'])} |")
rows.append("<!-- /seeds -->")
p = root / "DESIGN.md"
p.write_text(re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "\n".join(rows), p.read_text(), flags=re.S))
