"""regenerate the lists in DESIGN.md from known_findings.jsonl and seeded/ (between the marker comments)"""
import glob, json, os, re
V = "/verif"
fixed = []
for l in open(V + "/known_findings.jsonl"):
    d = json.loads(l)
    if d["status"] == "fixed":
        fixed.append("* %s %s: %s" % (d["property"], d["commit"], d["what"].split(" ", 3)[3]))
seeds = ["| change | property | needs | what it breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    c = lambda s: " ".join(s.split()).replace("|", "/")
    seeds.append("| %s | %s | %s | %s |" % (f.split("/")[-2], m["property"], c(m["needs"]), c(m["what_it_breaks"])))
p = V + "/DESIGN.md"
s = open(p).read()
for name, lines in (("FIXED", fixed), ("SEEDS", seeds)):
    block = "<!-- %s -->\n%s\n<!-- end -->" % (name, "\n".join(lines))
    if "<!-- %s -->" % name in s:
        s = re.sub(r"<!-- %s -->.*?<!-- end -->" % name, lambda _: block, s, flags=re.S)
    else:
        s = re.sub(r"^%s$" % name, lambda _: block, s, flags=re.M)
open(p, "w").write(s)
