"""Rewrite the table of planted changes at the end of DESIGN.md from
seeded/*/meta.json and meta/caught.txt (`id check[,check]` per line), and
check that every patch still applies to /repo."""
import glob
import json
import os
import subprocess

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Planted changes and the checks that catch them"
caught = {}
for line in open(os.path.join(root, "meta", "caught.txt")):
    if line.strip():
        a, b = line.split(None, 1)
        caught[a] = b.strip()
rows = []
for d in sorted(glob.glob(os.path.join(root, "seeded", "*"))):
    i = os.path.basename(d)
    m = json.load(open(os.path.join(d, "meta.json")))
    if subprocess.call(["git", "-C", "/repo", "apply", "--check",
                        os.path.join(d, "patch.diff")]):
        print("does not apply:", i)
    rows.append("| %s | %s | %s | %s | %s |" % (
        i, m["property"], " ".join(m["what_it_breaks"].split()),
        " ".join(m["needs"].split()), caught.get(i, "not yet run")))
p = os.path.join(root, "DESIGN.md")
s = open(p).read().split(MARK)[0].rstrip() + "\n\n" + MARK + "\n\n"
s += "| id | property | what it breaks | needs | caught by |\n"
s += "|---|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
