"""Writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(root, "DESIGN.md")
text = open(path).read().split("## Planted bugs")[0].rstrip() + "\n\n"
text += "## Planted bugs\n\nAll of them pass the existing tests, and each is caught by the quick check of its own property.\n\n| caught by | change | needs |\n|---|---|---|\n"
rows = []
for m in glob.glob(os.path.join(root, "seeded/*/meta.json")):
    j = json.load(open(m))
    rows.append((j["property"], os.path.basename(os.path.dirname(m)), j["needs"]))
for p, i, n in sorted(rows):
    text += f"| {p} | {i} | {n} |\n"
open(path, "w").write(text)
