"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, glob, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
s = open(root + "/DESIGN.md").read()
head = "| change | property | what it needs |\n|---|---|---|\n"
s = s[:s.index(head)] + head
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    s += "| %s | %s | %s |\n" % (f.split("/")[-2], m["property"], m["needs"])
open(root + "/DESIGN.md", "w").write(s)
