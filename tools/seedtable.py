"""Write the table of planted changes into DESIGN.md (between the markers)."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
caught = json.loads((root / "tools/seed_results.json").read_text()) if (root / "tools/seed_results.json").exists() else {}
rows = ["| change | breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']}: {m['what_it_breaks']} | {m['needs']} | {caught.get(d.name, '?')} |")
p = root / "DESIGN.md"
s = p.read_text()
block = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
if "<!-- seeds -->" in s:
    s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: block, s, flags=re.S)
else:
    s = s.replace("SEEDTABLE", block)
p.write_text(s)
