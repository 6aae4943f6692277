"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = "| planted bug (caught by the check of the property in its name) |"
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
s = s[:s.index(HEAD)] + HEAD + " breaks | needs |\n|---|---|---|\n"
for d in sorted(glob.glob(os.path.join(HERE, "seeded/*/meta.json"))):
    m = json.load(open(d))
    s += "| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)),
                                 m["what_it_breaks"], m["needs"])
open(p, "w").write(s)
