#!/usr/bin/env python3
"""Runs the checks on edited scratch copies: every 'bug' case must be reported, every 'same' case must be quiet.

usage: selftest.py [ID ...]   (cases live in tools/cases/<id>.py as a list CASES of
(kind, name, [(file, old, new), ...]); kind 'bug' or 'same'.)"""
import sys, os, shutil, subprocess, tempfile, concurrent.futures, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(job):
    pid, kind, name, edits, extra = job
    d = tempfile.mkdtemp(prefix="vst_")
    try:
        shutil.copytree("/repo/vanillaplusjs", d + "/vanillaplusjs", ignore=shutil.ignore_patterns("__pycache__"))
        for f, old, new, *every in edits:
            p = d + "/vanillaplusjs/" + f
            s = open(p).read()
            if s.count(old) < 1:
                return (pid, kind, name, "EDIT DOES NOT APPLY: %r" % old[:60], "")
            s = s.replace(old, new) if every else s.replace(old, new, 1)
            open(p, "w").write(s)
        for f, *_ in edits:
            p = d + "/vanillaplusjs/" + f
            try:
                compile(open(p).read(), p, "exec")
            except SyntaxError as e:
                return (pid, kind, name, "SYNTAX ERROR %s" % e, "")
        r = subprocess.run([sys.executable, HERE + "/check.py", pid, "--repo", d, "--evidence", d + "/ev.json"], capture_output=True, text=True)
        want = 1 if kind == "bug" else 0
        ok = r.returncode == want and (kind != "bug" or "VIOLATION property=%s " % pid in r.stdout)
        return (pid, kind, name, "ok" if ok else "WRONG (exit %d)" % r.returncode, (r.stdout + r.stderr[-1500:]).strip())
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    args = sys.argv[1:]
    verbose = "-v" in args
    args = [a for a in args if a != "-v"]
    sel = None
    ids = [a for a in args if not a.startswith("=")]
    names = [a[1:] for a in args if a.startswith("=")]
    jobs = []
    for f in sorted(os.listdir(HERE + "/tools/cases")):
        if not f.endswith(".py") or f == "refactor.py":
            continue
        pid = f[:-3].upper()
        if ids and pid not in ids:
            continue
        for c in runpy.run_path(HERE + "/tools/cases/" + f)["CASES"]:
            if names and c[1] not in names:
                continue
            jobs.append((pid, c[0], c[1], c[2], None))
    if "refactor.py" in os.listdir(HERE + "/tools/cases"):
        allids = sorted(x[:-3].upper() for x in os.listdir(HERE + "/checks") if x.startswith("c") and x.endswith(".py"))
        for c in runpy.run_path(HERE + "/tools/cases/refactor.py")["CASES"]:
            if names and c[1] not in names:
                continue
            for pid in allids:
                if ids and pid not in ids:
                    continue
                jobs.append((pid, "same", c[1], c[2], None))
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for pid, kind, name, res, out in ex.map(one, jobs):
            if res != "ok" or verbose:
                print(pid, kind, name, res)
                if out:
                    print("    " + "\n    ".join(out.splitlines()[:10]))
            bad += res != "ok"
    print("%d cases, %d wrong" % (len(jobs), bad))
    return 1 if bad else 0


sys.exit(main())
