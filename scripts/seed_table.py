"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    d = json.load(open(f)); rows.append("| %s | %s | %s |" % (f.split("/")[-2], d["property"], d["what_it_breaks"].replace("|", "/")))
p = here + "/DESIGN.md"; s = open(p).read(); a, b = "<!-- seeds -->\n", "<!-- /seeds -->\n"
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + "| planted bug | caught by | what it breaks |\n|---|---|---|\n" + "\n".join(rows) + "\n" + s[j:]
open(p, "w").write(s)
print(len(rows))
