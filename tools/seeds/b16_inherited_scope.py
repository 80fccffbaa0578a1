PROPERTY = 'C38'
NEEDS = 'a template which retrieves a variable it was not given, but its includer was'
BREAKS = 'variables of the including template leak into the included one'
EDITS = [('build/html/manips/template.py', """variables=dict())
        return []""", """variables=dict(self.current_frame.variables))
        return []""")]
DEMO = r'''
import os, sys, json, time, asyncio, subprocess, shutil
d = os.environ["DEMO_DIR"]

import vanillaplusjs.runners.init as init, vanillaplusjs.runners.build as build, io, contextlib
from loguru import logger
logger.remove()
def put(rel, text):
    p = os.path.join(d, rel); os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", newline="\n") as f: f.write(text)
def get(rel):
    return open(os.path.join(d, rel)).read()
def run(*a):
    with contextlib.redirect_stdout(io.StringIO()):
        build.main(["--folder", d, *a])
with contextlib.redirect_stdout(io.StringIO()):
    init.main(["--folder", d])

put("src/partials/in.html", '<p><!--[STACK: ["retrieve", "name"]]--></p>')
put("src/partials/out.html", '<div><!--[TEMPLATE: ["/in.html"]]--></div>')
put("src/public/index.html", '<!DOCTYPE html>\n<html><head><title>t</title></head><body><!--[TEMPLATE: ["/out.html", {"name": "leaked"}]]--></body></html>\n')
try:
    run()
except BaseException as e:
    print("rejected", type(e))
out = os.path.join(d, "out/www/index.html")
sys.exit(1 if os.path.exists(out) and "leaked" in open(out).read() else 0)
'''
