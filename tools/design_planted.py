"""Refresh the table of planted bugs in DESIGN.md."""
import json, pathlib, re
root = pathlib.Path(__file__).parent.parent
rows = []
for meta in sorted(root.glob("seeded/*/meta.json")):
    data = json.loads(meta.read_text())
    rows.append(f"| {meta.parent.name} | {data['property']} | {data['needs']} |")
path = root / "DESIGN.md"
text = path.read_text()
head = "| id | property | needs |\n| --- | --- | --- |\n"
start = text.index(head) + len(head)
end = text.index("\n\n", start)
path.write_text(text[:start] + "\n".join(rows) + text[end:])
