"""Writes DESIGN.md from the template below, design_table.py and seeded/ (one place to edit)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from design_table import ROWS
from design_text import TEXT

rows = "\n".join(f"| {a} | {b} | {c} |" for a, b, c in ROWS)
bugs = []
for b in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", b, "meta.json")))
    bugs.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
open(os.path.join(HERE, "DESIGN.md"), "w").write(
    TEXT.replace("@ROWS@", rows).replace("@BUGS@", "\n".join(bugs)).replace("@N@", str(len(ROWS))).replace("@NB@", str(len(bugs))))
