import json, pathlib
V = pathlib.Path("/verif")
head = (V / "tools/design.head.md").read_text()
c22 = V / "tools/design.c22.md"
head = head.replace("@@C22@@", c22.read_text().strip())
rows = ["| id | property | breaks | needs |", "|---|---|---|---|"]
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    c = lambda s: str(s).replace("|", "/").replace("\n", " ")
    rows.append(f"| {d.name} | {m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} |")
(V / "DESIGN.md").write_text(head.rstrip() + "\n\n" + "\n".join(rows) + "\n")
