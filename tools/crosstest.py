#!/usr/bin/env python3
"""crosstest.py: merges as many 'same' cases as fit together into few trees and runs every check on each tree."""
import sys, os, shutil, subprocess, tempfile, concurrent.futures, runpy, random
HERE = "/verif"
only = [a for a in sys.argv[1:] if not a.startswith("-")]
cases = []
for f in sorted(os.listdir(HERE + "/tools/cases")):
    if f.endswith(".py"):
        for c in runpy.run_path(HERE + "/tools/cases/" + f)["CASES"]:
            if c[0] == "same":
                cases.append((f[:-3].upper(), c[1], c[2]))
random.Random(int(os.environ.get("CROSS", "5"))).shuffle(cases)
src = {}
for r, d, fs in os.walk("/repo/vanillaplusjs"):
    for x in fs:
        if x.endswith(".py"):
            p = os.path.join(r, x)
            src[os.path.relpath(p, "/repo/vanillaplusjs")] = open(p).read()
PER = 12
trees = []   # (files, names, touched line spans)
def spans(orig, e):
    i = src[e[0]].find(e[1])
    return (e[0], i, i + len(e[1]))
def ap(files, edits):
    files = dict(files)
    for f, old, new, *every in edits:
        if f not in files or old not in files[f]:
            return None
        if not every and files[f].count(old) > 1 and src[f].find(old) < 0:
            return None
        files[f] = files[f].replace(old, new) if every else files[f].replace(old, new, 1)
    try:
        for f, *_ in edits:
            compile(files[f], f, "exec")
    except SyntaxError:
        return None
    return files
for c in cases:
    for t in trees:
        if len(t["names"]) >= PER:
            continue
        r = ap(t["files"], c[2])
        if r is not None:
            # no edit may touch what another one made
            if any(e[1] not in src[e[0]] and not (e[1] in src[e[0]]) for e in c[2][:1]):
                continue
            t["files"] = r; t["names"].append(c); break
    else:
        r = ap(src, c[2])
        if r is not None:
            trees.append(dict(files=r, names=[c]))
        else:
            print("no apply", c[0], c[1])
print(len(cases), "cases in", len(trees), "trees", flush=True)
ids = sorted(x[:-3].upper() for x in os.listdir(HERE + "/checks") if x.startswith("c") and x[1:3].isdigit())
def run(files, pid):
    d = tempfile.mkdtemp(prefix="vx_")
    try:
        shutil.copytree("/repo/vanillaplusjs", d + "/vanillaplusjs", ignore=shutil.ignore_patterns("__pycache__"))
        for f, s in files.items():
            open(d + "/vanillaplusjs/" + f, "w").write(s)
        r = subprocess.run([sys.executable, HERE + "/check.py", pid, "--repo", d, "--evidence", d + "/ev.json"], capture_output=True, text=True)
        return r.returncode, r.stdout + r.stderr[-600:]
    finally:
        shutil.rmtree(d, ignore_errors=True)
def job(a):
    i, pid = a
    t = trees[i]
    rc, out = run(t["files"], pid)
    if rc == 0:
        return None
    bad = []
    for c in t["names"]:
        rc2, out2 = run(ap(src, c[2]), pid)
        if rc2:
            bad.append((c[0], c[1], rc2, out2.splitlines()[1:3]))
    return i, pid, rc, bad, out
with concurrent.futures.ThreadPoolExecutor(8) as ex:
    for r in ex.map(job, [(i, p) for i in range(len(trees)) for p in ids if not only or p in only]):
        if r:
            i, pid, rc, bad, out = r
            if bad:
                for b in bad:
                    print(pid, "ALARM on", b[0], b[1], "rc", b[2], str(b[3])[:300], flush=True)
            else:
                print(pid, "ALARM on merged tree", i, [c[1] for c in trees[i]["names"]], out[:300], flush=True)
