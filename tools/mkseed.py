#!/usr/bin/env python3
"""mkseed.py ID...: (re)creates seeded/<id>/ from tools/seeds/<id>.py, confirming it in scratch copies of /repo.

A seed file defines PROPERTY, NEEDS, BREAKS, EDITS = [(file below vanillaplusjs/, old, new), ...] and DEMO (the text of demo.py).
"""
import sys, os, shutil, subprocess, tempfile, runpy, json, concurrent.futures
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SH = """#!/bin/bash
# Exit 0 when the property holds for the scenario of demo.py, 1 otherwise.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" PYTHONWARNINGS=ignore
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
DEMO_DIR="$work" timeout -k 5 200 /opt/venv/bin/python "$here/demo.py"
"""


def run(cmd, cwd, t=300):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=t)


def make(sid):
    s = runpy.run_path(HERE + "/tools/seeds/%s.py" % sid)
    d = tempfile.mkdtemp(prefix="seed_")
    log = []
    try:
        repo = d + "/repo"
        subprocess.run(["git", "-c", "core.autocrlf=false", "clone", "-q", "/repo", repo], check=True)
        out = d + "/out"
        os.makedirs(out)
        open(out + "/demo.py", "w").write(s["DEMO"])
        open(out + "/demo.sh", "w").write(SH)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
        r = run(["bash", out + "/demo.sh"], repo)
        if r.returncode != 0:
            return sid, False, "demo fails on the unchanged tree\n" + (r.stdout + r.stderr)[-3000:]
        for f, old, new in s["EDITS"]:
            p = repo + "/vanillaplusjs/" + f
            b = open(p, "rb").read()
            crlf = b"\r\n" in b
            t = b.decode().replace("\r\n", "\n")
            if t.count(old) != 1:
                return sid, False, "edit of %s applies %d times: %r" % (f, t.count(old), old[:80])
            t = t.replace(old, new)
            compile(t, p, "exec")
            open(p, "wb").write((t.replace("\n", "\r\n") if crlf else t).encode())
        r = run(["bash", out + "/demo.sh"], repo)
        if r.returncode == 0:
            return sid, False, "demo passes with the change\n" + (r.stdout + r.stderr)[-1500:]
        log.append((r.stdout + r.stderr).strip()[-300:])
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
        r = subprocess.run([PY, "-W", "ignore", "-m", "pytest", "-q", "-p", "pytest_timeout", "-p", "no:cacheprovider", "--timeout=60", "--ignore=tests/test_build_feat_external_files.py", "tests"],
                           cwd=repo, env=env, capture_output=True, text=True, timeout=600)
        if r.returncode != 0 or "78 passed" not in r.stdout:
            return sid, False, "tests fail with the change\n" + r.stdout[-1500:]
        diff = subprocess.run(["git", "-C", repo, "diff", "--no-color", "--", "vanillaplusjs"], capture_output=True).stdout
        open(out + "/patch.diff", "wb").write(diff)
        r = run(["git", "-C", "/repo", "apply", "--check", out + "/patch.diff"], "/")
        if r.returncode != 0:
            return sid, False, "patch does not apply: " + r.stderr
        dst = HERE + "/seeded/" + sid
        if os.path.isdir(dst):
            shutil.rmtree(dst)
        shutil.copytree(out, dst)
        c = run([sys.executable, HERE + "/check.py", s["PROPERTY"], "--repo", repo, "--evidence", d + "/ev.json"], d)
        caught = c.returncode == 1 and "VIOLATION property=" + s["PROPERTY"] in c.stdout
        return sid, True, ("CAUGHT" if caught else "MISSED (exit %d) %s" % (c.returncode, c.stdout[-200:])) + " | demo: " + log[0].replace("\n", " / ")[-160:]
    except subprocess.TimeoutExpired as e:
        return sid, False, "timeout %s" % e
    finally:
        shutil.rmtree(d, ignore_errors=True)


ids = sys.argv[1:] or sorted(x[:-3] for x in os.listdir(HERE + "/tools/seeds") if x.endswith(".py"))
bad = 0
with concurrent.futures.ThreadPoolExecutor(5) as ex:
    for sid, ok, msg in ex.map(make, ids):
        print(sid, "ok" if ok else "FAILED", msg)
        bad += not ok
sys.exit(bool(bad))
