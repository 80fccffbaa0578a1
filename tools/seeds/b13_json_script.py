PROPERTY = 'C35'
NEEDS = 'an inline script of the type application/json'
BREAKS = 'the script stays in the published page, where the content security policy rejects inline scripts'
EDITS = [('build/html/manips/outline.py', """            and (None, "src") not in node["data"]
""", """            and (None, "src") not in node["data"]
            and node["data"].get((None, "type")) != "application/json"
""")]
DEMO = r'''
import os, sys, json, time, asyncio, subprocess
d = os.environ["DEMO_DIR"]

import vanillaplusjs.runners.init as init, vanillaplusjs.runners.build as build, io, contextlib
def put(rel, text):
    p = os.path.join(d, rel); os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", newline="\n") as f: f.write(text)
def get(rel):
    return open(os.path.join(d, rel)).read()
def run(*a):
    with contextlib.redirect_stdout(io.StringIO()):
        build.main(["--folder", d, *a])
with contextlib.redirect_stdout(io.StringIO()):
    init.main(["--folder", d])

put("src/public/index.html", '<!DOCTYPE html>\n<html><head><title>t</title></head><body><script type="application/json">{"a": 1}</script></body></html>\n')
run()
sys.exit(0 if '{"a": 1}' not in get("out/www/index.html") else 1)
'''
