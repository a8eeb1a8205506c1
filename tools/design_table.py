"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(V + "/seeded/*/meta.json"):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["needs"]))
p = V + "/DESIGN.md"
s = open(p).read()
head = "| property | planted bug | needs |\n|---|---|---|\n"
i = s.index(head) + len(head)
j = i + re.search(r"(\|.*\n)*", s[i:]).end()
s = s[:i] + "".join("| %s | %s | %s |\n" % r for r in sorted(rows)) + s[j:]
open(p, "w").write(s)
