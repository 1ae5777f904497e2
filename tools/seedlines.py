#!/usr/bin/env python3
"""Lists planted bugs that change no line of the original repository (they would not count)."""
import os, re, subprocess, sys, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = sys.argv[1] if len(sys.argv) > 1 else "e6aebee"
def sh(*a): return subprocess.run(["git", "-C", "/repo"] + list(a), stdout=subprocess.PIPE, text=True, errors="replace").stdout
added = {}
def ours(path):
    if path not in added:
        s = set()
        for h in re.finditer(r"(?m)^@@ -\S+ \+(\d+)(?:,(\d+))? ", sh("diff", "-U0", BASE, "HEAD", "--", path)):
            a, n = int(h[1]), int(h[2] or 1)
            s |= set(range(a, a + n))
        added[path] = s
    return added[path]
for d in sorted(os.listdir(V + "/seeded")):
    ok, path, old = False, None, []
    for line in open("%s/seeded/%s/patch.diff" % (V, d), errors="replace"):
        m = re.match(r"--- a/(.*)", line)
        if m:
            path = m[1].strip()
            continue
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
        if m:
            at, prev = int(m[1]), None
            run = None  # [first old line, removed count, added]
            pos = at
            continue
        if path is None or line.startswith(("diff", "+++", "index", "new file")):
            continue
        if line.startswith("-"):
            if pos not in ours(path): ok = True
            pos += 1
        elif line.startswith("+"):
            if run != pos and (pos - 1) not in ours(path) and pos not in ours(path): ok = ok or "ins"
        else:
            pos += 1
    if ok is not True:
        print(d, ok)
