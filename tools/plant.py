#!/usr/bin/env python3
"""tools/plant.py DEF.py...   confirms planted bugs and files them under seeded/

A definition sets ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)] and DEMO
(C source of the demonstration); LIBS is "core", "json" or "sqlite".  The patch is
made in a scratch copy of /repo and kept only when it applies to /repo's HEAD,
touches only lines of the original repository, builds, passes the stable tests,
and the demonstration tells the two trees apart.
"""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "e6aebee"
DEMO_SH = r'''#!/bin/sh
# exit 0 on the unchanged tree, nonzero with the patch; run with cwd /repo
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
src=""
for f in ./*.c; do case $f in ./strview.c|./tmp.c|./cee-one.c) ;; *) src="$src $f" ;; esac; done
%s
gcc -std=gnu99 -w -g -O1 -fsanitize=address %s-o "$t/demo" "$d/demo.c" $src %s|| exit 2
cd "$t" && ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo
'''
JSON_SRC = 'for f in cee-json/*.c; do case $f in */tmp.c|*/cee-json-one.c) ;; *) src="$src $f" ;; esac; done'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def stable(repo):
    """build and test a scratch copy: /opt/vp scripts work on /repo, so its contents are tested by hand"""
    return sh("make -s clean >/dev/null 2>&1; make 2>&1 | tail -5", repo)


def main():
    for deff in sys.argv[1:]:
        ns = {"LIBS": "core", "WRAP": ""}
        exec(open(deff).read(), ns)
        out = "%s/seeded/%s" % (VERIF, ns["ID"])
        tmp = tempfile.mkdtemp(prefix="plant")
        try:
            w = tmp + "/repo"
            shutil.copytree("/repo", w, symlinks=True)
            assert not sh("git status --porcelain -uno", w).stdout.strip()
            for f, old, new in ns["EDITS"]:
                s = open(w + "/" + f).read()
                if s.count(old) != 1:
                    raise SystemExit("%s: %s: text occurs %d times:\n%s" % (deff, f, s.count(old), old))
                open(w + "/" + f, "w").write(s.replace(old, new))
            patch = sh("git diff", w).stdout
            # only original lines removed, unless purely added
            orig = sh("git blame -s HEAD -- x", w)
            warn = []
            for f in sorted({e[0] for e in ns["EDITS"]}):
                blame = sh("git blame -s -l HEAD -- " + f, w).stdout.splitlines()
                base = set(sh("git rev-list " + BASE, w).stdout.split())
                old = open("/repo/" + f).read().splitlines()
                new = open(w + "/" + f).read().splitlines()
                import difflib
                for tag, a, b, c, d in difflib.SequenceMatcher(None, old, new, False).get_opcodes():
                    for l in range(a, b):
                        if tag != "equal" and blame[l].split()[0].lstrip("^")[:39] not in {x[:39] for x in base}:
                            warn.append("%s:%d changes a line of ours: %s" % (f, l + 1, old[l]))
            os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "w").write(patch)
            open(out + "/demo.c", "w").write(ns["DEMO"])
            inc = {"core": "-I.", "json": "-Icee-json -I.", "sqlite": "-Isqlite3 -Icee-json -I.", "dbm": '-Isqlite3 -Icee-json -I. -I"$t"'}[ns["LIBS"]] + " "
            more = "" if ns["LIBS"] == "core" else JSON_SRC
            if ns["LIBS"] in ("sqlite", "dbm"):
                more += '\nsrc="$src sqlite3/cee-sqlite3.c sqlite3/join.c"'
            if ns["LIBS"] == "dbm":  # a header of another repository
                more += '\nsrc="$src sqlite3/cee_dbm.c"\necho "char *cee_load_whole_file(const char *, size_t *);" > "$t/cee-utils.h"'
            open(out + "/demo.sh", "w").write(DEMO_SH % (more, inc, "-lm " + ("-lsqlite3 " if ns["LIBS"] in ("sqlite", "dbm") else "")))
            os.chmod(out + "/demo.sh", 0o755)
            json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
            open(out + "/meta.json", "a").write("\n")
            c = sh("bash %s/demo.sh" % out, "/repo")
            p = sh("bash %s/demo.sh" % out, w)
            # build and tests, in place of /repo (the scripts work there)
            a = sh("git apply %s/patch.diff" % out, "/repo")
            try:
                b = sh("bash /opt/vp/build.sh", "/repo")
                t = sh("bash /opt/vp/test.sh %s/t.json" % tmp, "/repo")
                res = json.load(open(tmp + "/t.json"))
                basel = json.load(open("/opt/vp/BASELINE.json"))
            finally:
                sh("git checkout -- .", "/repo")
            sh("bash /opt/vp/build.sh", "/repo")
            print("%s: clean rc=%d patched rc=%d apply=%d build=%d tests=%s %s" % (ns["ID"], c.returncode, p.returncode, a.returncode, b.returncode, json.dumps(res)[:300], " ".join(warn)))
            if c.returncode or not p.returncode:
                print("  clean:", c.stdout[-1500:])
            print("  patched:", "\n    ".join(p.stdout.splitlines()[:4]))
        finally:
            shutil.rmtree(tmp)


main()
