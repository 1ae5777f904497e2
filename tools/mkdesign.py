#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md (counts and the table of planted bugs) in place."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = V + "/DESIGN.md"
s = open(f).read()
kf = open(V + "/KNOWN_FINDINGS").read()
seeds = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    seeds.append((m["property"], d, m["needs"]))
seeds.sort()
n_fixed = sum(l.startswith("fixed:") for l in kf.splitlines())
caught = {}
if os.path.exists(V + "/tools/seedcheck.results"):
    for l in open(V + "/tools/seedcheck.results"):
        p = l.split()
        if len(p) >= 4 and p[2].startswith("rc="):
            caught[p[0]] = p[2] == "rc=1" and p[3] != "violation_lines=0"
table = "| property | planted bug | needs | caught |\n|---|---|---|---|\n" + "\n".join(
    "| %s | %s | %s | %s |" % (p, d, n.replace("|", "\\|"), {True: "by " + p, False: "no", None: "?"}[caught.get(d)]) for p, d, n in seeds)
s = re.sub(r"The checks found (@FIXED@|\d+)", "The checks found %d" % n_fixed, s)
s = re.sub(r"holds (@SEEDS@|\d+) bugs", "holds %d bugs" % len(seeds), s)
if "@TABLE@" in s:
    s = s.replace("@TABLE@", "<!-- table -->\n" + table + "\n<!-- end -->")
else:
    s = re.sub(r"<!-- table -->.*?<!-- end -->", lambda m: "<!-- table -->\n" + table + "\n<!-- end -->", s, flags=re.S)
open(f, "w").write(s)
