"""Rewrite the planted-bug table at the end of DESIGN.md from seeded/*/meta.json."""
import json
import pathlib

root = pathlib.Path(__file__).resolve().parent.parent
doc = root / "DESIGN.md"
text = doc.read_text()
mark = "<!-- seeds -->"
head = text.split(mark)[0]
rows = []
for m in sorted(root.glob("seeded/*/meta.json")):
    d = json.loads(m.read_text())
    rows.append((d["property"], m.parent.name, d["needs"].replace("|", "/")))
rows.sort()
out = head + mark + "\n\n| check | planted bug | needs, to show |\n|---|---|---|\n"
out += "".join(f"| {p} | `{i}` | {n} |\n" for p, i, n in rows)
doc.write_text(out)
