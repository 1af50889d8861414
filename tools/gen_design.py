"""Fills the table of the planted bugs in DESIGN.md (between the two marks)."""
import glob, json, os, re
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| id | property | file | what it needs | caught by |", "|----|----------|------|---------------|-----------|"]
for d in sorted(glob.glob(os.path.join(here, "seeded", "b*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    f = re.findall(r"^\+\+\+ b/(.*)$", open(os.path.join(d, "patch.diff")).read(), re.M)
    rows.append("| %s | %s | %s | %s | %s |" % (os.path.basename(d), m["property"], ", ".join(f), m["needs"].replace("|", "/"), m.get("caught_by", m["property"])))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(<!-- seeded -->\n).*?(<!-- end -->)", lambda k: k.group(1) + "\n".join(rows) + "\n" + k.group(2), s, flags=re.S)
open(p, "w").write(s)
