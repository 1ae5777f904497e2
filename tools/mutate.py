#!/usr/bin/env python3
"""Mutation sampling, to find behaviour the checks do not decide.

tools/mutate.py SCRATCH N SEED FILE...   (FILE relative to /repo)

Each mutant is one small edit of one source file.  It is compiled against the
already built harnesses (source variant) and the checks of the properties
anchored in that file run on it, in one process pool, until one fires.
Survivors are printed as diffs, to be judged by hand: equivalent, outside every
property, or a gap.  Not part of any check.
"""
import json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import importlib.machinery, importlib.util
rc = importlib.util.module_from_spec(importlib.util.spec_from_loader("rc", importlib.machinery.SourceFileLoader("rc", VERIF + "/run_check")))
rc.__spec__.loader.exec_module(rc)
REPO = rc.REPO

REL = {"<=": "<", ">=": ">", "==": "!=", "!=": "=="}


def strip_comments(src):
    """same length, comments, strings and preprocessor lines blanked"""
    out = list(src)
    for m in re.finditer(r'/\*.*?\*/|//[^\n]*|"(?:[^"\\\n]|\\.)*"|^[ \t]*#(?:[^\n\\]|\\.|\\\n)*', src, re.S | re.M):
        for i in range(*m.span()):
            if out[i] != "\n":
                out[i] = " "
    return "".join(out)


def mutants(src):
    s = strip_comments(src)
    r = []

    def add(a, b, new, what):
        r.append((a, b, new, what))
    # only inside function bodies
    depth, body = 0, []
    inside = [False] * len(s)
    for i, ch in enumerate(s):
        if ch == "{": depth += 1
        if ch == "}": depth -= 1
        inside[i] = depth > 0
    for m in re.finditer(r"<=|>=|==|!=", s): add(m.start(), m.end(), REL[m.group()], "rel")
    for m in re.finditer(r" (<|>) ", s): add(m.start(1), m.end(1), m.group(1) + "=", "rel")
    for m in re.finditer(r"&&", s): add(m.start(), m.end(), "||", "bool")
    for m in re.finditer(r"\|\|", s): add(m.start(), m.end(), "&&", "bool")
    for m in re.finditer(r"\+\+", s): add(m.start(), m.end(), "--", "inc")
    for m in re.finditer(r"[^-]--", s): add(m.start() + 1, m.end(), "++", "inc")
    for m in re.finditer(r"[\w)\]] ?(\+|-) ?\w", s):
        if m.group(1) + m.group(1) not in s[m.start(1) - 1:m.start(1) + 2] and s[m.start(1):m.start(1) + 2] != "->":
            add(m.start(1), m.end(1), "-" if m.group(1) == "+" else "+", "arith")
    for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", s):
        v = int(m.group(1))
        add(m.start(), m.end(), str(v + 1), "const")
        if v: add(m.start(), m.end(), str(v - 1), "const")
    for m in re.finditer(r"\bif ?\(", s):
        d, j = 0, m.end() - 1
        while True:
            if s[j] == "(": d += 1
            if s[j] == ")":
                d -= 1
                if d == 0: break
            j += 1
        add(m.end() - 1, j + 1, "(!" + src[m.end() - 1:j + 1] + ")", "negate")
        add(m.end() - 1, j + 1, "(0)", "never")
    for m in re.finditer(r"^[ \t]+([\w>.\[\]\-*()& ]+(?:\([^;{}\n]*\)|(?:[-+|&]?=|\+\+|--)[^;{}\n]*));[ \t]*$", s, re.M):
        t = m.group(1)
        if re.match(r"(return|struct|int|char|size_t|const|unsigned|void|static|enum|typedef|else|uintptr_t|sqlite3|case)\b", t): continue
        add(m.start(1), m.end(1), "(void)0", "delete")
    for m in re.finditer(r"\bbreak;", s): add(m.start(), m.end(), ";", "nobreak")
    for m in re.finditer(r"\bcontinue;", s): add(m.start(), m.end(), ";", "nocontinue")
    for m in re.finditer(r"\btrue\b", s): add(m.start(), m.end(), "false", "const")
    for m in re.finditer(r"\bfalse\b", s): add(m.start(), m.end(), "true", "const")
    return [x for x in r if inside[x[0]]]


def main():
    scratch, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:]
    only = os.environ.get("ONLY", "").split()
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    props = {}
    for line in open(VERIF + "/properties.jsonl"):
        p = json.loads(line)
        if p["id"] in rc.CH.CHECKS:
            props[p["id"]] = p["anchors"]["files"]
    rnd = random.Random(seed)
    jobs = []
    need = set()
    for f in files:
        src = open(os.path.join(REPO, f)).read()
        ms = mutants(src)
        rnd.shuffle(ms)
        ids = [i for i, a in props.items() if f in a and (not only or i in only)]
        need |= set(ids)
        for m in ms[:n]:
            jobs.append((f, src, m, ids))
    rnd.shuffle(jobs)
    built = {}

    def prepare(pid):
        spec = dict(rc.CH.CHECKS[pid], variants=["src"])
        out = os.path.join(scratch, pid)
        os.makedirs(out)
        rc.build(pid, spec, out)
        cj, _ = rc.compile_jobs("src", spec["libs"], out)
        o = os.path.join(out, "t-src")
        lst = [x.split("\t") for x in subprocess.run([o, "--list"], capture_output=True, text=True).stdout.splitlines()]
        return pid, (spec, out, dict((c[-1], (ob, c)) for ob, c in cj), [(x[1], int(x[2])) for x in lst if x[0] == pid])
    for pid in sorted(need):
        built[pid] = prepare(pid)[1]
    print("%d mutants, %d properties" % (len(jobs), len(need)), flush=True)

    def run(k):
        f, src, (a, b, new, what), ids = jobs[k]
        d = os.path.join(scratch, "m%d" % k)
        os.makedirs(d)
        mf = os.path.join(d, os.path.basename(f))
        open(mf, "w").write(src[:a] + new + src[b:])
        res = "SURVIVED"
        objs = {}
        for pid in ids:
            spec, out, cj, checks = built[pid]
            key = os.path.join(REPO, f)
            included = key not in cj  # strview.c is included by its harness
            if included:
                h = VERIF + "/harness/" + spec["harness"][0]
                cj = dict(cj)
                cj[key] = (os.path.join(out, "src-" + os.path.basename(h) + ".o"),
                           [rc.CXX, "-std=c++17", "-O1", "-g", "-w", "-fpermissive"] + rc.SAN + ["-DVARIANT_SRC", "-DVP_PROPERTY_" + pid, "-iquote", d, "-I" + VERIF + "/engine", "-I" + VERIF + "/harness", "-I" + REPO, "-c", "-o", "x", h])
            ob, cmd = cj[key]
            ck = " ".join(x for x in cmd if x.startswith("-I") or x.startswith("-std"))
            mo = objs.get(ck)
            if not mo:
                mo = os.path.join(d, "m%d.o" % len(objs))
                c = list(cmd)
                c[c.index("-o") + 1] = mo
                c[-1] = c[-1] if included else mf
                c += ["-iquote", os.path.dirname(key)]
                p = subprocess.run(c, capture_output=True, text=True)
                if p.returncode:
                    res = "NOCOMPILE"
                    break
                objs[ck] = mo
            exe = os.path.join(d, "t-" + pid)
            hs = [os.path.join(out, "src-" + os.path.basename(h) + ".o") for h in spec["harness"] if not included]
            link = [rc.CXX] + rc.SAN + ["-o", exe, os.path.join(out, "pbt.o")] + hs + [o for o, _ in [v for v in cj.values()] if o != ob] + [mo] + rc.WRAP + spec.get("ldflags", [])
            p = subprocess.run(link, capture_output=True, text=True)
            if p.returncode:
                res = "NOLINK " + p.stderr[-300:]
                break
            hit = None
            for name, weight in checks:
                w = os.path.join(d, "w")
                os.makedirs(w, exist_ok=True)
                p = subprocess.run([exe, "--check", pid + "/" + name, "--seed", "1", "--count", str(weight * 1000), "--workers", "2", "--max-seconds", str(60.0 / len(checks)), "--dir", w,
                                    "--out", d + "/res.json", "--replay-out", d + "/rep.txt", "--variant", "src"], capture_output=True, text=True, cwd=w)
                if p.returncode == 1:
                    hit = name
                    break
                if p.returncode:
                    hit = "BROKEN:" + name
                    break
            os.unlink(exe)
            if hit:
                res = "%s/%s" % (pid, hit)
                break
        line = src.count("\n", 0, a) + 1
        ls, le = src.rfind("\n", 0, a) + 1, src.find("\n", b)
        txt = "%s:%d [%s] %s\n    - %s\n    + %s" % (f, line, what, res, src[ls:le].strip(), (src[ls:a] + new + src[b:le]).strip())
        shutil.rmtree(d, ignore_errors=True)
        if res.startswith("SURVIVED") or "BROKEN" in res or res.startswith("NOLINK"):
            print(txt, flush=True)
        return (f, res)
    with ThreadPoolExecutor(max_workers=int(os.environ.get("JOBS", "6"))) as ex:
        rs = list(ex.map(run, range(len(jobs))))
    tot = {}
    for f, r in rs:
        k = "survived" if r.startswith("SURVIVED") else "invalid" if r.startswith("NO") else "killed"
        tot.setdefault(f, {}).setdefault(k, 0)
        tot[f][k] += 1
    for f in sorted(tot): print(f, tot[f])


main()
