"""Table of planted bugs for DESIGN.md, section 6."""

import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
p = ROOT / "DESIGN.md"
s = p.read_text().split("## 6. Planted bugs")[0].rstrip("\n")
out = [
    "",
    "",
    "## 6. Planted bugs",
    "",
    "Each was verified in a scratch copy: it passes the stable tests, its demonstration fails with it and",
    "passes without it, and the quick check of its property reports it.  Those removed again were",
    "either seen by the existing tests or did not break what is claimed.",
    "",
    "| planted bug | caught by | what it needs |",
    "|---|---|---|",
]
for d in sorted((ROOT / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    out.append(f"| {d.name} | {m['property']} | {m['needs'].replace('|', '/')} |")
p.write_text(s + "\n".join(out) + "\n")
