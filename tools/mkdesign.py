"""fills the table of planted bugs of DESIGN.md from their descriptions"""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = []
for d in sorted((root / "seeded").glob("b*")):
    m = json.loads((d / "meta.json").read_text())
    rows.append("| %s | %s | %s | %s |" % (d.name, m["property"], m["what_it_breaks"].replace("|", "/"), m.get("caught_by", m["property"])))
p = root / "DESIGN.md"
s = p.read_text()
s = re.sub(r"(\| id \| property \| change \| caught by \|\n\|---\|---\|---\|---\|\n).*?\n\n", lambda m: m.group(1) + "\n".join(rows) + "\n\n", s, flags=re.S)
p.write_text(s)
